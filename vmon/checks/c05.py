import numpy as np
from ..refelem import ref, TYPES

PROPERTY = 'C05'
RULE = ('one case = a random mesh, element type, number of cells (1..70, around multiples of 20), kernel combination (stress, mass, surface, '
        'universal cell and surface kernels), random per-quadrature-point internal variables of several shapes and a random field; '
        'the residual is compared entry by entry with independent assembly. Non-trivial: residual compared and non-zero.')
REQUIRED = ['residual', 'residual_from_newton_update', 'tensor_map', 'mass_map', 'surface_map', 'universal_cell', 'universal_surface',
            'internal_vars', 'internal_vars_surface', 'many_cells', 'no_surface_kernel_mismatch', 'total_force', 'large_mesh']


def cases(tier, rng):
    out = []
    n2 = [1, 2, 7, 19, 20, 21, 39, 40, 41, 45, 59, 61, 70]
    for k in range(2 if tier == 'quick' else 8):
        for t in TYPES:
            out.append({'type': t, 'kern': int(rng.integers(1, 32)), 'vec': int(rng.integers(1, 4)), 'ncell': None, 'order': [None, None, 3, 4][rng.integers(4)]})
    for t, k in zip(list(rng.permutation(['QUAD4', 'TRI3', 'QUAD8', 'TRI6'])) * 9, n2 if tier == 'quick' else n2 + [100, 101, 119, 120, 139, 200, 217]):
        out.append({'type': str(t), 'kern': int(rng.integers(1, 32)) | 1, 'vec': int(rng.integers(1, 3)), 'ncell': k, 'order': None})
    out.append({'type': 'HEX8', 'kern': 31, 'vec': 3, 'ncell': None, 'order': None})
    out.append({'type': 'QUAD4', 'kern': 31, 'vec': 2, 'ncell': 23, 'order': None})
    # large meshes: thousands of cells, and more nodes than 16-bit integers can number
    out.append({'type': 'TRI3', 'kern': 7, 'vec': 2, 'ncell': 4500, 'order': None})
    out.append({'type': 'QUAD4', 'kern': 3, 'vec': 1, 'ncell': 260 * 257, 'order': 1})
    return out


def strip_mesh(t, n, rng):
    """Exactly n cells."""
    from .. import meshes
    per = 2 if t.startswith('TRI') else 1
    q = -(-n // per)
    a = int(rng.choice([d for d in range(1, q + 1) if q % d == 0 and (q < 1000 or d * d > q / 4 and d * d < q * 4)]))
    m = meshes.make(t, rng, n=[a, q // a], size=[1., 1.3], distort=.1)
    C = m.cells[:n]
    u = np.unique(C)
    new = -np.ones(len(m.points), int)
    new[u] = np.arange(len(u))
    return meshes.M(t, m.points[u], new[C])


def run_case(ctx, case):
    from .. import fem, meshes, zoo, refasm
    jnp, jax = fem.np, fem.jax
    rng = np.random.default_rng(case['seed'])
    t, vec = case['type'], case['vec']
    m = strip_mesh(t, case['ncell'], rng) if case['ncell'] else meshes.make(t, rng, distort=.15, curved=float(rng.choice([0, .1])), move=bool(rng.random() < .3))
    dim = m.dim
    tens, mass, ucell, surf, usurf = [bool(case['kern'] >> i & 1) for i in range(5)]
    if not (tens or mass or ucell):
        mass = True
    T = jnp.asarray(rng.normal(size=(vec, dim, vec, dim)))
    tmap = lambda g, a, B: jnp.einsum('ijkl,kl->ij', T, g) * (1. + a ** 2) + jnp.sum(g * g) * g * .3 + g @ B
    mmap = lambda u, x, a, B: u ** 3 * a + jnp.sin(x[0]) + jnp.sum(B) * u + x[-1] * jnp.arange(1, vec + 1)
    uform = lambda us, gs, x, a, B: ([us[0] ** 2 * a + jnp.tanh(gs[0] @ x)], [jnp.outer(us[0], B @ x) + gs[0] * jnp.sum(us[0])])
    # surface sets: two node sets, possibly overlapping
    sets = []
    if surf or usurf:
        nb = m.boundary_nodes()
        sets = [nb.tolist(), sorted(rng.choice(len(m.points), size=max(dim, int(.8 * len(m.points))), replace=False).tolist())]
        if rng.random() < .3:
            sets.append([])
        if rng.random() < .5:
            sets = sets[::-1]
    smaps = [lambda u, x, h, q, k=k: (u ** 2 * h + jnp.cos(x[0] * (k + 1)) * q) for k in range(len(sets))]
    uforms = [lambda us, gs, x, h, q, k=k: [us[0] * h * (k + 2) + gs[0] @ x + q * x[0]] for k in range(len(sets))]
    d = {}
    if tens:
        d['get_tensor_map'] = lambda self: tmap
        ctx.event('tensor_map')
    if mass:
        d['get_mass_map'] = lambda self: mmap
        ctx.event('mass_map')
    if surf and sets:
        d['get_surface_maps'] = lambda self: smaps
        ctx.event('surface_map')
    um = zoo.universal_methods(uform if ucell else None, uforms if usurf and sets else ())
    d.update(um)
    ctx.event('universal_cell', int(ucell))
    ctx.event('universal_surface', int(usurf))
    if m.cells.shape[0] > 20:
        ctx.event('many_cells')
    if m.cells.shape[0] > 4000:
        ctx.event('large_mesh')
    holder = {}

    def custom_init(self):
        fe = self.fes[0]
        a, B = rng.normal(size=(fe.num_cells, fe.num_quads)), rng.normal(size=(fe.num_cells, fe.num_quads, dim, dim))
        self.internal_vars = [jnp.asarray(a), jnp.asarray(B)]
        fi = [[rng.normal(size=(len(b), fe.num_face_quads)), rng.normal(size=(len(b), fe.num_face_quads, vec))] for b in self.boundary_inds_list]
        self.internal_vars_surfaces = [[jnp.asarray(x) for x in s] for s in fi]
        holder.update(iv=[a, B], siv=fi)
    d['custom_init'] = custom_init
    C = type('P', (fem.Problem,), d)
    p = C(fem.mk(m), vec=vec, dim=dim, ele_type=t, quadrature_order=case['order'], location_fns=[zoo.in_ids(s) for s in sets] if sets else None)

    def cell_form(us, gs, x, a, B):
        s, f = jnp.zeros(vec), jnp.zeros((vec, dim))
        if tens:
            f = f + tmap(gs[0], a, B)
        if mass:
            s = s + mmap(us[0], x, a, B)
        if ucell:
            S, F = uform(us, gs, x, a, B)
            s, f = s + S[0], f + F[0]
        return [s], [f]

    def face_form(k):
        def form(us, gs, x, h, q):
            r = jnp.zeros(vec)
            if surf:
                r = r + smaps[k](us[0], x, h, q)
            if usurf:
                r = r + uforms[k](us, gs, x, h, q)[0]
            return [r]
        return form
    faces = [refasm.select_faces(p.fes[0], m, lambda i, s=set(s): i in s) for s in sets]
    if sets:
        # the internal variables of a surface follow the order of the selected faces
        order = [[tuple(int(x) for x in b) for b in np.asarray(bi)] for bi in p.boundary_inds_list]
        ctx.check(all(sorted(o) == sorted(f) for o, f in zip(order, faces)), 'no_surface_kernel_mismatch', 'selected faces')
        faces = order
    else:
        ctx.event('no_surface_kernel_mismatch')

    def compare(sol, iv, siv, tag='residual', pts=None):
        want = refasm.residual(p, [m], [sol], cell_form, [face_form(k) for k in range(len(sets))], iv, siv, faces=faces,
                               points=None if pts is None else [pts])
        got = p.compute_residual([jnp.asarray(sol)])
        ctx.check(len(got) == 1, tag)
        ctx.close(got[0], want[0], tag, rtol=1e-9)
        got2 = p.newton_update([jnp.asarray(sol)])
        ctx.close(got2[0], want[0], 'residual_from_newton_update', rtol=1e-9)
        # partition of unity: the total force is the integral of the sources
        ctx.close(np.asarray(got[0]).sum(0), want[0].sum(0), 'total_force', rtol=1e-9, scale=np.abs(want[0]).max() * len(want[0]))
        return want
    sol = rng.normal(size=(len(m.points), vec)) * .7
    w = compare(sol, holder['iv'], holder['siv'])
    ctx.check(np.abs(w[0]).max() > 1e-6, 'residual', 'trivial residual (workload error)')
    # new internal variables take effect at once
    iv = [rng.normal(size=a.shape) for a in holder['iv']]
    siv = [[rng.normal(size=a.shape) for a in s] for s in holder['siv']]
    p.internal_vars = [jnp.asarray(a) for a in iv]
    p.internal_vars_surfaces = [[jnp.asarray(a) for a in s] for s in siv]
    compare(sol, iv, siv, 'internal_vars')
    if sets:
        ctx.event('internal_vars_surface')
