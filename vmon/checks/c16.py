import numpy as np
import sys, os
from ..refelem import ref, shape_of

PROPERTY = 'C16'
RULE = ('mpc cases: a random constraint matrix (ties, weighted combinations of several masters, both ends possibly Dirichlet) on a random problem, solved with and without line '
        'search and reduced initial guess under a recording linear solver and compared with the monitor\'s own elimination; periodic cases: the applications\' helper on box '
        'meshes with random numbering, tilted pairs and several components, its matrix compared entry by entry and then used in a solve. Non-trivial: at least one constrained dof.')
REQUIRED = ['in_range', 'reduced_residual', 'dirichlet', 'projected_tangent', 'reduced_rhs', 'start_vector', 'elimination', 'line_search', 'initial_guess', 'weighted', 'both_ends_fixed',
            'multi_variable', 'periodic_matrix', 'periodic_shape', 'periodic_solution', 'periodic_identity', 'two_directions', 'constraint_replaced', 'builtin_backend', 'iterates']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'HEX8', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'mpc', 'type': TYPES[k % 6], 'flux': ['nl', 'aniso', 'elast', 'lin'][k % 4], 'multi': k % 5 == 4, 'ls': k % 3 == 1, 'guess': k % 2 == 1} for k in range(16 if q else 110)]
    out += [{'kind': 'periodic', 'type': ['QUAD4', 'TRI3', 'HEX8', 'TRI6', 'QUAD8', 'TET4', 'HEX20'][k % 7], 'vec': 1 + k % 3, 'ls': k % 4 == 3} for k in range(7 if q else 50)]
    out += [{'kind': 'periodic', 'only': True, 'type': ['HEX8', 'QUAD4', 'TRI6', 'TET4'][k % 4], 'vec': 1 + (k + 2) % 4, 'ls': False} for k in range(12 if q else 60)]
    return out


def run_case(ctx, case):
    from .. import fem, zoo
    rng = np.random.default_rng(case['seed'])
    {'mpc': mpc, 'periodic': periodic}[case['kind']](ctx, case, rng, fem, zoo)


def eliminate(p, P, fixed, split, v, zoo, tol=1e-11):
    """The monitor's own solve of P'R(Pv) = 0 with Dirichlet rows."""
    Pd = P.toarray()
    for it in range(60):
        u = Pd @ v
        r = zoo.full_residual(p, u, fixed, split)
        rr = Pd.T @ r
        A = zoo.dense_jacobian(p, split(u))
        for k, _ in fixed:
            A[k] = 0.
            A[k, k] = 1.
        if np.linalg.norm(rr) < tol:
            return u
        v = v + np.linalg.solve(Pd.T @ A @ Pd, -rr)
    raise AssertionError('the elimination did not converge')


def observe(ctx, p, P, fixed, split, n, x0v, cfg, fem, zoo, name):
    """Solve under the recorder and check every monitor of the property; returns the field."""
    jnp = fem.np
    Pd = P.toarray()
    R = lambda v: Pd.T @ zoo.full_residual(p, Pd @ v, fixed, split)
    rec = zoo.Recorder()
    tol, rel = 1e-9, 1e-11
    o = dict(cfg, tol=tol, rel_tol=rel, linear={'custom_solver': rec})
    sol = fem.solver(p, {'newton': o})
    x = fem.flat(sol)
    v = np.linalg.lstsq(Pd, x, rcond=None)[0]
    ctx.close(Pd @ v, x, 'in_range', atol=1e-10 * (1 + np.abs(x).max()))
    r0 = np.linalg.norm(R(x0v))
    ctx.check(np.linalg.norm(R(v)) <= max(tol, rel * r0) * (1 + 1e-6) + 1e-12, 'reduced_residual', f'{np.linalg.norm(R(v)):.3e}, initial {r0:.3e}')
    ctx.close(x[[k for k, _ in fixed]], [w for _, w in fixed], 'dirichlet', atol=1e-9)
    y = x0v.copy()
    for k, c in enumerate(rec.calls):
        ctx.close(c['b'], -R(y), 'reduced_rhs', atol=1e-9 * max(1, r0))
        if k < 4:
            A = zoo.dense_jacobian(p, split(Pd @ y))
            for j, _ in fixed:
                A[j] = 0.
                A[j, j] = 1.
            ctx.close(c['A'].toarray(), Pd.T @ A @ Pd, 'projected_tangent', rtol=1e-9)
            cur, want = Pd @ y, np.zeros(n)
            for j, w in fixed:
                want[j] = w - cur[j]
            ctx.close(c['x0'], Pd.T @ want, 'start_vector', atol=1e-11 * (1 + np.abs(cur).max()))
        if cfg.get('line_search_flag'):
            b = rec.calls[k + 1]['b'] if k + 1 < len(rec.calls) else -R(v)
            al = [1., .5, .25, .125]
            nr = [np.linalg.norm(R(y + a * c['x'])) for a in al]
            j = int(np.argmin([np.linalg.norm(R(y + a * c['x']) + b) for a in al]))
            best = nr[0]
            for z in nr[1:]:
                if z > best:
                    break
                best = z
            ctx.check(np.linalg.norm(b) <= best * (1 + 1e-8) + 1e-12, 'line_search', f'residual {np.linalg.norm(b):.4e}, halving gives {nr}')
            y = y + al[j] * c['x']
        else:
            y = y + c['x']
    ctx.close(Pd @ y, x, 'iterates', atol=1e-9 * (1 + np.abs(x).max()))
    ctx.close(x, eliminate(p, P, fixed, split, x0v.copy() * 0., zoo), name, rtol=1e-7, atol=1e-8)
    return x


def mpc(ctx, case, rng, fem, zoo):
    import scipy.sparse as sp
    jnp = fem.np
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    while len(m.points) < 6:
        m = zoo.small_mesh(case['type'], rng, distort=.1)
    N, dim = len(m.points), m.dim
    vec = dim if case['flux'] == 'elast' else int(rng.integers(1, 3))
    vecs = [vec, 1] if case['multi'] else [vec]
    n = N * sum(vecs)
    offs = np.concatenate([[0], np.cumsum([N * v for v in vecs])])
    split = lambda x: [np.asarray(x)[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(vecs))]
    dn, rest = zoo.split_boundary(m, rng, .35)
    if len(dn) >= N - 2:
        dn = dn[:max(2, N // 3)]
    bcs = [[(dn, c, float(rng.normal() * .6)) for c in range(vec)]] + ([[(dn[:2], 0, .4)]] if case['multi'] else [])
    fl = zoo.flux_law(case['flux'], dim)
    if case['multi']:
        ctx.event('multi_variable')
        p = zoo.make_multi([m, m], vecs, lambda us, gs, x: ([us[0] - jnp.cos(x[0]) + .2 * us[1], us[1] + us[1] ** 3 * .3 - us[0][:1]], [fl(gs[0]), 2. * gs[1]]), [], bcs, order=3 if shape_of(m.t) in ('QUAD', 'HEX') else 2)
    else:
        p = zoo.make(m, case['flux'], ['react', 'nlreact'][int(rng.integers(2))], vec, bcs[0], [(rest, 'robin')] if rng.random() < .5 else (),
                     quadrature_order=3 if case['type'] == 'QUAD8' else None)
    fixed = [d for i, b in enumerate(bcs) for d in zoo.bc_dofs(b, m.points, vecs[i], offs[i])]
    fx = dict(fixed)
    free = [k for k in range(n) if k not in fx]
    rng.shuffle(free)
    ns = max(1, min(4, len(free) // 3))
    slaves, masters = [int(s) for s in free[:ns]], [int(s) for s in free[ns:]]
    ties = {}
    for s in slaves:
        k = int(rng.integers(1, 4))
        w = [1.] if k == 1 else list(rng.choice([1., .5, -.4, .25], size=k))
        ties[s] = list(zip([int(x) for x in rng.choice(masters, size=min(len(w), len(masters)), replace=False)], w))
        if len(ties[s]) > 1:
            ctx.event('weighted')
    # a Dirichlet dof tied to another Dirichlet dof with the same value
    byv = {}
    for k, w in fixed:
        byv.setdefault(w, []).append(k)
    for w, ks in byv.items():
        if len(ks) > 1 and rng.random() < .7:
            ties[ks[1]] = [(ks[0], 1.)]
            ctx.event('both_ends_fixed')
            break
    keep = [k for k in range(n) if k not in ties]
    order = list(keep)
    if rng.random() < .3:
        rng.shuffle(order)
    col = {int(k): j for j, k in enumerate(order)}
    R, C, V = [], [], []
    for k in range(n):
        for mm, w in ties.get(k, [(k, 1.)]):
            R.append(k); C.append(col[mm]); V.append(float(w))
    P = (sp.csr_matrix if rng.random() < .5 else sp.csr_array)((np.array(V), (R, C)), shape=(n, len(order)))
    p.P_mat = P
    x0v = np.zeros(P.shape[1])
    cfg = {}
    if case['ls']:
        cfg['line_search_flag'] = True
    if case['guess']:
        x0v = rng.normal(size=P.shape[1]) * (3. if case['ls'] else .5)
        cfg['initial_guess'] = jnp.asarray(x0v)
        ctx.event('initial_guess')
    before = P.toarray().copy()
    x = observe(ctx, p, P, fixed, split, n, x0v, cfg, fem, zoo, 'elimination')
    ctx.check(np.array_equal(P.toarray(), before), 'elimination', 'P changed')
    # another constraint on the same problem: other weights, reduced dofs numbered differently (same shape), then the first one again
    if rng.random() < .5:
        sh = rng.permutation(P.shape[1])
        Q = P.toarray()[:, sh]
        for k in ties:
            if k not in fx:
                Q[k] *= float(rng.choice([.7, -1.2]))
        P2 = sp.csr_matrix(Q)
        p.P_mat = P2
        ctx.event('constraint_replaced')
        observe(ctx, p, P2, fixed, split, n, x0v[sh], dict(cfg, **({'initial_guess': jnp.asarray(x0v[sh])} if case['guess'] else {})), fem, zoo, 'elimination')
        p.P_mat = P
    for lin in ({'spsolve_solver': {}}, {'jax_solver': {}}, {}):
        s = fem.flat(fem.solver(p, {'newton': dict(cfg, tol=1e-9, linear=lin)}))
        ctx.close(s, x, 'builtin_backend', rtol=1e-6, atol=1e-7)


def app():
    from ..core import REPO
    import importlib
    d = REPO
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module('applications.periodic_bc.example')


def periodic(ctx, case, rng, fem, zoo):
    from .. import meshes
    jnp = fem.np
    ex = app()
    t = case['type']
    dim, vec = ref(t).dim, case['vec']
    n = rng.integers(1, 4, size=dim) if dim == 2 else rng.integers(1, 3, size=dim)
    if t in ('HEX20',):
        n = np.array([1, 1, 2])
    n[0] = max(n[0], 2)
    size = rng.uniform(.5, 2., size=dim)
    P0, C0 = meshes.corner_mesh(shape_of(t), n, size, None)
    P0, C0 = meshes.elevate(t, P0, C0)
    raw = P0.copy()
    sh = np.zeros(dim)
    if rng.random() < .5:
        sh[0] = float(rng.uniform(-.3, .3))
    ax = dim - 1                                          # periodic direction; Dirichlet on the first axis
    P0[:, 0] += sh[0] * P0[:, ax]                          # tilted pairs: the image is not straight above
    Pp, C, perm, _ = meshes.renumber(t, P0, C0, rng)
    rawp = np.empty_like(raw); rawp[perm] = raw
    m = meshes.M(t, Pp, C)
    A_ids = [i for i in range(len(Pp)) if abs(rawp[i, ax]) < 1e-9]
    B_of = {i: int(np.argmin(np.linalg.norm(rawp - (rawp[i] + np.eye(dim)[ax] * size[ax]), axis=1))) for i in A_ids}
    B_ids = sorted(B_of.values())
    off = np.eye(dim)[ax] * size[ax] + np.eye(dim)[0] * sh[0] * size[ax]
    ptA, ptB = jnp.asarray(Pp[A_ids]), jnp.asarray(Pp[B_ids])
    locA = lambda p: jnp.any(jnp.all(jnp.abs(ptA - p) < 1e-7, axis=1))
    locB = lambda p: jnp.any(jnp.all(jnp.abs(ptB - p) < 1e-7, axis=1))
    comps = sorted(int(c) for c in rng.choice(vec, size=int(rng.integers(1, vec + 1)), replace=False))
    if rng.random() < .4:
        comps = comps[::-1]
    entries, pair = [], {}

    def add(mapA, ptA_, ptB_, shift, c):
        """One line of the periodic description; it may list the sides either way round."""
        a_, b_ = jnp.asarray(Pp[ptA_]), jnp.asarray(Pp[ptB_])
        lA = lambda p: jnp.any(jnp.all(jnp.abs(a_ - p) < 1e-7, axis=1))
        lB = lambda p: jnp.any(jnp.all(jnp.abs(b_ - p) < 1e-7, axis=1))
        entries.append((lB, lA, lambda p: p - shift, c) if rng.random() < .4 else (lA, lB, lambda p: p + shift, c))
        for a, b in mapA.items():
            pair[b * vec + c] = a * vec + c
    for c in comps:
        add(B_of, A_ids, B_ids, off, c)
    # a second direction for other components (or the nodes not tied yet), in any order of listing
    if (rng.random() < .6 or case.get('only')) and sh[0] == 0:
        ax2 = 0
        A2 = [i for i in range(len(Pp)) if abs(rawp[i, ax2]) < 1e-9]
        B2 = {i: int(np.argmin(np.linalg.norm(rawp - (rawp[i] + np.eye(dim)[ax2] * size[ax2]), axis=1))) for i in A2}
        for c in range(vec):
            used = {k // vec for kv in pair.items() for k in kv if k % vec == c}
            B2c = {a: b for a, b in B2.items() if a not in used and b not in used}
            if B2c and rng.random() < .7:
                add(B2c, sorted(B2c), sorted(B2c.values()), np.eye(dim)[ax2] * size[ax2], c)
                ctx.event('two_directions')
    rng.shuffle(entries)
    mesh = fem.mk(m)
    Pm = ex.periodic_boundary_conditions([list(e) for e in zip(*entries)], mesh, vec)
    D = Pm.toarray()
    N = len(Pp) * vec
    ns = len(pair)
    ctx.check(D.shape == (N, N - ns), 'periodic_shape', f'{D.shape}')
    if D.shape != (N, N - ns):
        return
    ctx.check(np.all((D == 0) | (D == 1)) and np.all(D.sum(1) == 1), 'periodic_matrix', 'each dof must follow exactly one reduced dof')
    owner = D.argmax(1)
    tied = set(pair) | set(pair.values())
    ctx.check(all(owner[k] == owner[v] for k, v in pair.items()), 'periodic_matrix', 'a listed pair is not tied')
    cnt = np.bincount(owner, minlength=N - ns)
    ctx.check(np.all(cnt >= 1) and all(cnt[owner[k]] == (2 if k in tied else 1) for k in range(N)), 'periodic_identity', 'other dofs are not free')
    if case.get('only'):
        return
    # use it
    lo = [i for i in range(len(Pp)) if abs(rawp[i, 0]) < 1e-9]
    bcs = [(lo, c, float(rng.normal())) for c in range(vec)]
    # Dirichlet values must not contradict the ties: close the sets under the ties
    fixed_c = [set(lo) for _ in range(vec)]
    for _ in range(3):
        for b, a in pair.items():
            c = b % vec
            if a // vec in fixed_c[c] or b // vec in fixed_c[c]:
                fixed_c[c] |= {a // vec, b // vec}
    bcs = [(sorted(fixed_c[c]), c, v) for _, c, v in bcs]
    flux = str(rng.choice(['lin', 'nl']))
    p = zoo.make(m, flux, 'react', vec, bcs, quadrature_order=3 if t in ('QUAD8', 'HEX20') else None)
    p.P_mat = Pm
    fixed = zoo.bc_dofs(bcs, m.points, vec)
    cfg = {'line_search_flag': True} if case['ls'] else {}
    x = observe(ctx, p, Pm, fixed, lambda x: [np.asarray(x).reshape(-1, vec)], N, np.zeros(N - ns), cfg, fem, zoo, 'periodic_solution')
    ctx.close([x[k] for k in pair], [x[v] for v in pair.values()], 'periodic_solution', atol=1e-12)
