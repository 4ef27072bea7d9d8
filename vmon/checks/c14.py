import numpy as np
from ..refelem import ref

PROPERTY = 'C14'
RULE = ('one case = a problem (linear / nonlinear / finite-strain, one or two variables, surface terms, multipoint constraints) wrapped for differentiation with a random '
        'parameter pytree feeding material fields, loads, surface data, Dirichlet values and node coordinates; reverse-mode gradients of random nonlinear functionals are '
        'compared with central differences of tightly converged plain solves in random directions (all leaves together, leaf by leaf, single entries). Non-trivial: the '
        'directional derivative is not negligible and both solves converged.')
REQUIRED = ['directional', 'leaf_iv', 'leaf_siv', 'leaf_bc', 'leaf_pts', 'leaf_load', 'single_entry', 'forward_same', 'adjoint_state', 'nonlinear', 'multi_variable', 'constrained',
            'surface', 'initial_guess', 'via_arc', 'via_dr', 'unused_leaf', 'structure']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'HEX8', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(18 if q else 130):
        out.append({'type': TYPES[k % 6], 'flux': ['nl', 'lin', 'elast', 'aniso', 'neo'][k % 5], 'multi': k % 4 == 2, 'mpc': k % 6 == 5, 'surf': k % 5 != 4 and k % 3 != 1,
                    'method': 'newton' if k not in (1, 6) and k % 40 != 39 else ['arc', 'dr'][k % 2 if k < 10 else int(rng.integers(2))], 'guess': bool(k % 3 == 0), 'ls': bool(k % 7 == 3)})
    return out


def run_case(ctx, case):
    from .. import fem, zoo
    jnp, jax = fem.np, fem.jax
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    while len(m.points) < 5:
        m = zoo.small_mesh(case['type'], rng, distort=.1)
    dim, N, flux = m.dim, len(m.points), case['flux']
    vec = dim if flux in ('elast', 'neo') else 2
    multi = case['multi'] and flux != 'neo'
    vecs = [vec, 1] if multi else [vec]
    n = N * sum(vecs)
    offs = np.concatenate([[0], np.cumsum([N * v for v in vecs])])
    split = lambda x: [x[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(vecs))]
    dn, rest = zoo.split_boundary(m, rng, .35)
    if len(dn) >= N - 1:
        dn = dn[:max(2, N // 3)]
    a = .04 if flux == 'neo' else .5
    surf = case['surf'] and flux != 'neo'
    bcs = [[(dn, c, float(rng.normal() * a)) for c in range(vec)]] + ([[(dn[:2], 0, .4)]] if multi else [])
    fl = zoo.flux_law(flux, dim)
    order = 3 if case['type'] in ('QUAD8', 'HEX8', 'QUAD4') else 2
    react = 0. if flux == 'neo' else 1.
    case_load = .05 if flux == 'neo' else 1.

    sc = 1. if case['method'] != 'newton' else float(rng.choice([1., 1., 1e-3, 1e-2, 30.]))   # units of the equations

    def form(us, gs, x, k, f):
        S, F = form1(us, gs, x, k, f)
        return [sc * v for v in S], [sc * v for v in F]

    def form1(us, gs, x, k, f):
        S = [react * us[0] - f * jnp.cos(x[0] + us[0] * .1 * react)]
        F = [k * fl(gs[0])]
        if multi:
            S = [S[0] + .3 * us[1], us[1] + .4 * us[1] ** 3 + .5 * us[0][:1] - f * x[:1]]
            F.append((1. + k + .1 * us[0][0] ** 2) * gs[1])
        return S, F
    gd = jnp.asarray(rng.normal(size=dim) * .15)
    ff = [lambda us, gs, x, h: [sc * h * (us[0] - .3 * x[0]) + (0. if gs is None else sc * gs[0] @ gd)] + ([sc * (us[1] - h * us[0][:1])] if multi else [])]

    def set_params(self, q):
        self.internal_vars = [q['mat']['k'] * q['mat']['s'], q['load'][0] * jnp.ones((self.num_cells, self.fes[0].num_quads))]
        if surf:
            self.internal_vars_surfaces = [[q['h']]]
        if 'pts' in q:
            self.initialize_geometric_quantities([q['pts']] * len(vecs))
        if 'bc' in q:
            for fe, b in zip(self.fes, q['bc']):
                fe.vals_list = list(b)
    nq = fem.FiniteElement(mesh=fem.mk(m), vec=1, dim=dim, ele_type=m.t, quadrature_order=order)
    nf = len(nq.get_boundary_conditions_inds([zoo.in_ids(rest)])[0]) if surf else 0
    iv0 = [np.ones((len(m.cells), nq.num_quads))] * 2
    # legacy tensor/mass maps and universal kernels must behave alike
    if multi or rng.random() < .5:
        p = zoo.make_multi([m] * len(vecs), vecs, form, ff if surf else [], bcs, [rest] if surf else (), ivs=iv0, siv=[[np.ones((nf, nq.num_face_quads))]] if surf else None,
                           order=order, cls_extra={'set_params': set_params, **zoo.step_budget(10 ** 6)})
    else:
        d = {'set_params': set_params, 'custom_init': lambda self: setattr(self, 'internal_vars', [jnp.asarray(v) for v in iv0]),
             'get_tensor_map': lambda self: (lambda g, k, f: sc * k * fl(g)), 'get_mass_map': lambda self: (lambda u, x, k, f: form([u], [jnp.zeros((vec, dim))], x, k, f)[0][0])}
        if surf:
            d['get_surface_maps'] = lambda self: [lambda u, x, h: ff[0]([u], None, x, h)[0]]
        p = type('PD', (fem.Problem,), d)(fem.mk(m), vec=vec, dim=dim, ele_type=m.t, quadrature_order=order, dirichlet_bc_info=zoo.bc_info(bcs[0]),
                                         location_fns=[zoo.in_ids(rest)] if surf else None)
    if case['mpc']:
        P = constraint(rng, n, bcs, vecs, offs, N)
        p.P_mat = P
        ctx.event('constrained')
    h = np.min([np.linalg.norm(np.diff(m.points[c], axis=0), axis=1).min() for c in m.cells])
    q = {'mat': {'k': jnp.asarray(1. + rng.random(iv0[0].shape)), 's': jnp.asarray(1.2)}, 'load': (jnp.asarray(case_load * float(rng.uniform(.5, 1.5))),), 'unused': jnp.ones(3)}
    if surf:
        q['h'] = jnp.asarray(1. + rng.random((nf, nq.num_face_quads)))
        ctx.event('surface')
    which = int(rng.integers(3)) if not case['mpc'] else 0
    if which in (0, 2) or case['type'] in ('TRI3',):
        q['bc'] = [[jnp.asarray(np.full(len(i), x) + a * .2 * rng.normal(size=len(i))) for i, _, x in b] for b in bcs]
    if which in (1, 2) or case['type'] in ('QUAD4',):
        q['pts'] = jnp.asarray(m.points + .03 * h * rng.normal(size=m.points.shape))
    cfg = {'linear': {'spsolve_solver': {}}, 'tol': 1e-11 * min(1., sc), 'rel_tol': 1e-13, 'line_search_flag': case['ls']}
    if case['guess']:
        ctx.event('initial_guess')
        gs = .01 * h * rng.normal(size=n)
        cfg['initial_guess'] = [jnp.asarray(s) for s in split(gs)] if not case['mpc'] else jnp.asarray(gs[:p.P_mat.shape[1]])
    if case['method'] == 'arc' and not case['mpc']:
        opts = {'arc_length': {'control': 'displacement', 'Delta_l': 3., 'linear': {'spsolve_solver': {}}, 'newton': {'tol': 1e-11, 'rel_tol': 1e-13}}}
        q['load'] = (jnp.asarray(0.),)
        ctx.event('via_arc')
    elif case['method'] == 'dr' and not case['mpc']:
        opts = {'dynamic_relax': {'tol': 1e-11, 'info': False, 'info_force': False, 'linear': {'spsolve_solver': {}}}}
        ctx.event('via_dr')
    else:
        opts = {'newton': cfg}
    if multi:
        ctx.event('multi_variable')
    if flux in ('nl', 'neo') or multi:
        ctx.event('nonlinear')
    arec = zoo.Recorder()
    fwd = fem.ad_wrapper(p, opts, {'custom_solver': arec} if rng.random() < .6 else {'spsolve_solver': {}})
    W = [jnp.asarray(s) for s in split(rng.normal(size=n))]
    V = [jnp.asarray(s) for s in split(rng.normal(size=n))]
    only = int(rng.integers(len(vecs))) if rng.random() < .3 else None

    def J(sol):
        return sum(jnp.sum(w * s) + jnp.sum(v * jnp.sin(s) * s) for i, (s, w, v) in enumerate(zip(sol, W, V)) if only in (None, i))

    def plain(q):
        p.set_params(q)
        with fem.captured():
            return fem.solver(p, opts)
    with fem.captured():
        s0 = fem.flat(fwd(q))
        val, g = jax.value_and_grad(lambda q: J(fwd(q)))(q)
    ctx.check(jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(q) and
              all(a.shape == b.shape for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(q))), 'structure')
    ctx.close(s0, fem.flat(plain(q)), 'forward_same', rtol=1e-12)
    ctx.close(float(val), float(J(plain(q))), 'forward_same', rtol=1e-11, atol=1e-12)
    if arec.calls:
        from .c11 import tangent
        bcd = [] if 'bc' in q else None
        bcd = [d for i, b in enumerate(bcs) for d in zoo.bc_dofs(b, m.points, vecs[i], offs[i])]
        p.set_params(q)
        D = tangent(p, s0, split, bcd, zoo)
        if case['mpc']:
            D = p.P_mat.T @ (p.P_mat.T @ D.T).T
        ctx.close(arec.calls[0]['A'].toarray(), D.T, 'adjoint_state', rtol=1e-9)
    ctx.check(np.all(np.asarray(g['unused']) == 0), 'unused_leaf')

    def direction(keys):
        def one(path, x):
            k = str(path[0].key)
            if k not in keys:
                return jnp.zeros_like(x)
            s = .3 * h if k == 'pts' else (a if k == 'bc' else 1.)
            return jnp.asarray(rng.normal(size=x.shape) * s)
        return jax.tree_util.tree_map_with_path(one, q)

    def compare(d, name):
        add = lambda e: jax.tree_util.tree_map(lambda x, y: x + e * y, q, d)
        e = 2e-4
        f = [float(J(plain(add(s * e)))) for s in (-2, -1, 1, 2)]
        fd = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * e)       # fourth order
        ad = sum(float(jnp.sum(x * y)) for x, y in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(d)))
        mag = sum(float(jnp.sum(jnp.abs(x * y))) for x, y in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(d)))
        ctx.event(name)
        ctx.close(ad, fd, 'directional', scale=abs(mag) + abs(float(val)) * 1e-3, rtol=3e-6, atol=1e-8)
    keys = [k for k in q if k != 'unused']
    compare(direction(keys), 'all_leaves')
    names = {'mat': 'leaf_iv', 'load': 'leaf_load', 'h': 'leaf_siv', 'bc': 'leaf_bc', 'pts': 'leaf_pts'}
    for k in keys:
        compare(direction([k]), names[k])
    for _ in range(2):
        leaves, tree = jax.tree_util.tree_flatten({k: q[k] for k in keys})
        i = int(rng.integers(len(leaves)))
        z = [np.zeros(x.shape) for x in leaves]
        z[i].reshape(-1)[int(rng.integers(z[i].size))] = .1 * h
        d = jax.tree_util.tree_unflatten(tree, [jnp.asarray(v) for v in z])
        d['unused'] = jnp.zeros(3)
        compare(d, 'single_entry')


def constraint(rng, n, bcs, vecs, offs, N):
    """Ties random free dofs to combinations of other free dofs: u = P v."""
    import scipy.sparse as sp
    fixed = {int(offs[i]) + k * vecs[i] + c for i, b in enumerate(bcs) for ids, c, _ in b for k in ids}
    free = np.array([k for k in range(n) if k not in fixed])
    rng.shuffle(free)
    ns = max(1, min(3, len(free) // 3))
    slaves, masters = sorted(free[:ns]), list(free[ns:])
    keep = [k for k in range(n) if k not in slaves]
    col = {k: j for j, k in enumerate(keep)}
    R, C, D = [], [], []
    for k in keep:
        R.append(k); C.append(col[k]); D.append(1.)
    for s in slaves:
        for mm in rng.choice(masters, size=min(2, len(masters)), replace=False):
            R.append(s); C.append(col[int(mm)]); D.append(float(rng.choice([1., .5, -.3])))
    return sp.csr_matrix((np.array(D), (R, C)), shape=(n, len(keep)))
