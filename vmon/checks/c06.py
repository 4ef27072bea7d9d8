import numpy as np
from ..refelem import ref, TYPES

PROPERTY = 'C06'
RULE = ('one case = a problem (single or multi-variable, nonlinear/nonsymmetric cell and surface terms, internal variables) with random '
        'Dirichlet rows, assembled at several random fields in sequence; matrix, residual and boundary rows are compared with the dense '
        'forward-mode derivative of the library residual. Non-trivial: matrix compared at two different fields.')
REQUIRED = ['matrix', 'bc_rows', 'residual_consistency', 'bc_vector', 'size', 'multi_variable', 'with_surface', 'second_field', 'after_bc_change',
            'finite_difference', 'large_system']


def cases(tier, rng):
    out = []
    flux = ['neo', 'nl', 'aniso', 'elast', 'lin']
    for k in range(2 if tier == 'quick' else 8):
        for t in TYPES:
            out.append({'type': t, 'flux': str(rng.choice(flux)), 'source': [None, 'react', 'nlreact'][rng.integers(3)],
                        'surf': int(rng.integers(0, 3)), 'multi': bool(k % 2 == 1 and t not in ('HEX27',)), 'universal': bool(rng.random() < .4),
                        'ncell': None})
    for n in (19, 21, 43):
        out.append({'type': str(rng.choice(['QUAD4', 'TRI3'])), 'flux': 'nl', 'source': 'nlreact', 'surf': 2, 'multi': False, 'universal': False, 'ncell': n})
    # large systems (more unknowns than 16-bit numbers, and more than the square root of 2**31)
    out.append({'type': 'QUAD4', 'flux': 'nl', 'source': 'nlreact', 'surf': 0, 'multi': False, 'universal': False, 'ncell': 260 * 257})
    out.append({'type': 'TRI3', 'flux': 'nl', 'source': None, 'surf': 1, 'multi': False, 'universal': False, 'ncell': 2 * 70 * 66})
    return out


def random_bcs(m, vec, rng, n=None):
    out = []
    for _ in range(int(rng.integers(0, 4)) if n is None else n):
        ids = rng.choice(len(m.points), size=rng.integers(0, max(2, len(m.points) // 2)), replace=False).tolist()
        out.append((ids, int(rng.integers(vec)), float(rng.normal())))
    return out


def run_case(ctx, case):
    from .. import fem, meshes, zoo
    from .c02 import companion, PAIR
    from .c05 import strip_mesh
    from jax_fem.solver import get_A, apply_bc_vec
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    t = case['type']
    m = strip_mesh(t, case['ncell'], rng) if case['ncell'] else zoo.small_mesh(t, rng, distort=.12, curved=float(rng.choice([0, .08])))
    vec = m.dim if case['flux'] in ('neo', 'elast') else int(rng.integers(1, 3))
    sets = [m.boundary_nodes().tolist(), rng.choice(len(m.points), size=max(3, int(.8 * len(m.points))), replace=False).tolist()][:case['surf']]
    laws = [str(rng.choice(['robin', 'nlrobin', 'flux'])) for _ in sets]
    if sets:
        ctx.event('with_surface')
    if case['multi']:
        ctx.event('multi_variable')
        m2 = companion(m, PAIR[t])
        ms, vecs = [m, m2], [vec, int(rng.integers(1, 3))]
        if rng.random() < .4:
            ms, vecs = ms + [m], vecs + [1]
        bcs = [random_bcs(mm, v, rng) for mm, v in zip(ms, vecs)]
        fl = zoo.flux_law(case['flux'], m.dim)

        def cell_form(us, gs, x, *iv):
            S = [jnp.sin(us[0]) * jnp.sum(us[1]) + us[0] * jnp.sum(gs[1])] + [u ** 2 + jnp.sum(us[0] ** 2) for u in us[1:]]
            F = [fl(gs[0] * .3) * (1 + jnp.sum(us[1]))] + [g * (1. + jnp.sum(gs[0] ** 2)) + jnp.outer(u, x) for g, u in zip(gs[1:], us[1:])]
            return S, F
        ff = [lambda us, gs, x, k=k: [us[0] * jnp.sum(us[1]) * (k + 1)] + [jnp.sum(us[0]) * u ** 2 + jnp.sum(gs[0] @ x) for u in us[1:]] for k in range(len(sets))]
        p = zoo.make_multi(ms, vecs, cell_form, ff, bcs, sets, order=2)
    else:
        ms, vecs = [m], [vec]
        bcs = [random_bcs(m, vec, rng)]
        iv = None
        p = zoo.make(m, case['flux'], case['source'], vec, bcs[0], list(zip(sets, laws)), universal=case['universal'])
    offs = np.concatenate([[0], np.cumsum([len(mm.points) * v for mm, v in zip(ms, vecs)])])
    n = offs[-1]
    unf = lambda x: [x[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(ms))]

    def check(x, bcs, tag):
        sols = unf(x)
        res = p.newton_update([jnp.asarray(s) for s in sols])
        A = fem.csr(get_A(p))
        ctx.event(tag)
        ctx.check(A.shape == (n, n), 'size', A.shape)
        d = {}
        for i, b in enumerate(bcs):
            d.update(zoo.bc_dofs(b, ms[i].points, vecs[i], offs[i]))
        if n > 3000:
            large(A, sols, d, tag)
            return A, np.concatenate([np.asarray(a).reshape(-1) for a in res])
        J = zoo.dense_jacobian(p, sols)
        want = J.copy()
        for k in d:
            want[k] = 0
            want[k, k] = 1.
        A = A.toarray()
        rows = sorted(d)
        free = np.setdiff1d(np.arange(n), rows)
        ctx.close(A[free], want[free], 'matrix', rtol=1e-9)
        ctx.close(A[rows], want[rows], 'bc_rows', atol=1e-13)
        r = np.concatenate([np.asarray(a).reshape(-1) for a in res])
        ctx.close(r, zoo.flat_residual(p, sols), 'residual_consistency', rtol=1e-11)
        s = float(rng.choice([1., 0., rng.uniform(-1, 2)]))
        wr = r.copy()
        for k, v in d.items():
            wr[k] = x[k] - s * v
        ctx.close(apply_bc_vec(jnp.asarray(r), jnp.asarray(x), p, s), wr, 'bc_vector', atol=1e-12)
        return A, r

    def large(A, sols, d, tag):
        """The same comparison as actions on random vectors, and entry by entry on a sample of columns."""
        import jax
        ctx.event('large_system')
        rows = np.array(sorted(d), dtype=int)
        free = np.setdiff1d(np.arange(n), rows)
        res = lambda x: jnp.concatenate([jnp.reshape(a, -1) for a in p.compute_residual([jnp.reshape(x, (-1, vecs[0]))])])
        x0 = jnp.asarray(np.concatenate([s.reshape(-1) for s in sols]))
        for k in range(3):
            v = rng.normal(size=n)
            if k == 2:
                v = np.where(rng.random(n) < 3. / n, v, 0.)
                v[rng.integers(n)] = 1.
            w = np.asarray(jax.jvp(res, (x0,), (jnp.asarray(v),))[1])
            g = A @ v
            ctx.close(g[free], w[free], 'matrix', rtol=1e-9)
            if len(rows):
                ctx.close(g[rows], v[rows], 'bc_rows', atol=1e-12)
    amp = .1
    if case['flux'] == 'neo':   # keep every deformation gradient admissible
        from scipy.spatial.distance import pdist
        amp = .02 * min(pdist(m.points).min(), 1.)
    x = rng.normal(size=n) * amp
    A1, r1 = check(x, bcs, 'first_field')
    x2 = x + rng.normal(size=n) * amp * .5
    check(x2, bcs, 'second_field')
    # finite differences, independent of the library's differentiation
    v = rng.normal(size=n)
    h = 1e-4 * amp
    fd = (zoo.flat_residual(p, unf(x + h * v)) - zoo.flat_residual(p, unf(x - h * v))) / (2 * h)
    free = np.setdiff1d(np.arange(n), [k for i, b in enumerate(bcs) for k, _ in zoo.bc_dofs(b, ms[i].points, vecs[i], offs[i])])
    ctx.close((A1 @ v)[free], fd[free], 'finite_difference', rtol=1e-5, scale=np.abs(fd).max() + np.abs(r1).max() / h * 1e-10)
    new = [random_bcs(mm, vv, rng, int(rng.integers(0, 3))) for mm, vv in zip(ms, vecs)]
    for fe, b in zip(p.fes, new):
        fe.update_Dirichlet_boundary_conditions(zoo.bc_info(b))
    check(x, new, 'after_bc_change')
