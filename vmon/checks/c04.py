import numpy as np
from ..refelem import ref, TYPES, DEGREE

PROPERTY = 'C04'
RULE = ('one case = a random mesh with several Dirichlet entries and surface sets whose selections (half-spaces, balls, index sets, '
        'boundary parts, empty, everything, overlapping) are evaluated independently per node; stored data, face sets, face counts, '
        'boundary-row residuals, updates and a solve are compared. Non-trivial: at least one selection non-empty.')
REQUIRED = ['dirichlet_nodes', 'dirichlet_component', 'dirichlet_values', 'surface_faces', 'count_faces', 'update_replaces',
            'bc_residual_rows', 'solution_values', 'empty_selection', 'last_listed_wins', 'two_argument', 'wrong_arity', 'multi_variable']


def cases(tier, rng):
    out = []
    for k in range(3 if tier == 'quick' else 10):
        for t in TYPES:
            out.append({'type': t, 'vec': int(rng.integers(1, 4)), 'multi': bool(k == 2), 'solve': bool(t in ('QUAD4', 'TRI6', 'HEX8', 'TET4', 'QUAD8', 'HEX27'))})
    return out


def selection(m, rng, jnp, kind):
    """(callable for the library, node predicate for the oracle)"""
    P = m.points
    dim = m.dim
    if kind == 'half':
        d = rng.normal(size=dim)
        s = P @ d
        v = np.sort(np.unique(np.round(s, 9)))
        k = rng.integers(0, len(v))
        cut = (v[k] + v[min(k + 1, len(v) - 1)]) / 2 if k + 1 < len(v) else v[k] + 1.
        return (lambda x: jnp.dot(x, jnp.asarray(d)) < cut), (s < cut)
    if kind == 'ball':
        c = P[rng.integers(len(P))]
        dist = np.linalg.norm(P - c, axis=1)
        v = np.sort(dist)
        k = rng.integers(1, len(v))
        rad = (v[k - 1] + v[k]) / 2
        return (lambda point: jnp.sum((point - jnp.asarray(c)) ** 2) < rad ** 2), (dist ** 2 < rad ** 2)
    if kind == 'axis':
        a = rng.integers(dim)
        val = P[rng.integers(len(P)), a]
        return (lambda point: jnp.isclose(point[a], val, atol=1e-8)), np.isclose(P[:, a], val, atol=1e-8)
    if kind == 'ids':
        ids = rng.choice(len(P), size=rng.integers(1, len(P) + 1), replace=False)
        a = jnp.asarray(ids)
        return (lambda point, ind: jnp.isin(ind, a)), np.isin(np.arange(len(P)), ids)
    if kind == 'mixed':
        a = rng.integers(dim)
        cut = np.median(P[:, a])
        k = int(rng.integers(2, 4))
        return (lambda x, i: (x[a] <= cut) & (i % k != 0)), (P[:, a] <= cut) & (np.arange(len(P)) % k != 0)
    if kind == 'boundary':
        b = m.boundary_nodes()
        a = jnp.asarray(b)
        return (lambda point, ind: jnp.isin(ind, a)), np.isin(np.arange(len(P)), b)
    if kind == 'empty':
        return (lambda point: point[0] > 1e9), np.zeros(len(P), bool)
    if kind == 'all':
        return (lambda p: p[0] < 1e9), np.ones(len(P), bool)
    raise KeyError(kind)


KINDS = ['half', 'ball', 'axis', 'ids', 'mixed', 'boundary', 'empty', 'all']


def value_fn(rng, jnp, dim):
    k = rng.integers(4)
    a = rng.normal(size=dim)
    c = float(rng.normal())
    if k == 0:
        return (lambda p: c), lambda P: np.full(len(P), c)
    if k == 1:
        return (lambda p: jnp.dot(p, jnp.asarray(a)) + c), lambda P: P @ a + c
    if k == 2:
        return (lambda p: jnp.sin(p[0] + c) * p[-1]), lambda P: np.sin(P[:, 0] + c) * P[:, -1]
    return (lambda p: 0.), lambda P: np.zeros(len(P))


def entries(m, rng, jnp, vec, n, kinds=None):
    out = []
    for _ in range(n):
        kd = str(rng.choice(kinds or KINDS))
        loc, sel = selection(m, rng, jnp, kd)
        c = int(rng.integers(vec))
        vf, vals = value_fn(rng, jnp, m.dim)
        out.append((kd, loc, sel, c, vf, vals))
    return out


def info(es):
    return [[e[1] for e in es], [e[3] for e in es], [e[4] for e in es]]


def check_entries(ctx, fe, m, es, tag=None):
    if not ctx.check(len(fe.node_inds_list) == len(es) and len(fe.vec_inds_list) == len(es) and len(fe.vals_list) == len(es),
                     tag or 'dirichlet_nodes', f'{len(fe.node_inds_list)} entries instead of {len(es)}'):
        return
    for k, (kd, _, sel, c, _, vals) in enumerate(es):
        ni, vi, va = (np.asarray(a[k]) for a in (fe.node_inds_list, fe.vec_inds_list, fe.vals_list))
        o = np.argsort(ni, kind='stable')
        want = np.where(sel)[0]
        if kd == 'empty' or not len(want):
            ctx.check(len(ni) == 0 and len(vi) == 0 and len(va) == 0, 'empty_selection', ni)
        if kd in ('ids', 'mixed', 'boundary'):
            ctx.event('two_argument')
        if not ctx.check(np.array_equal(ni[o], want), tag or 'dirichlet_nodes', lambda: f'entry {k} ({kd}): {ni[o].tolist()} instead of {want.tolist()}'):
            continue
        ctx.check(vi.shape == ni.shape and np.all(vi == c), tag or 'dirichlet_component', f'entry {k}: {vi.tolist()} instead of {c}')
        ctx.close(va[o], vals(m.points[want]), tag or 'dirichlet_values', atol=1e-12 * (1 + np.abs(m.points).max() * 10))


def wanted(es, vec, off, points):
    d = {}
    for kd, _, sel, c, _, vals in es:
        ids = np.where(sel)[0]
        for i, v in zip(ids, vals(points[ids])):
            d[off + int(i) * vec + c] = float(v)
    return d


def run_case(ctx, case):
    from .. import fem, zoo, refasm
    from .c02 import companion, PAIR
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    t, vec = case['type'], case['vec']
    m = zoo.small_mesh(t, rng, distort=float(rng.choice([0., .15])), move=bool(rng.random() < .3))
    ms = [m] + ([companion(m, PAIR[t])] if case['multi'] else [])
    vecs = [vec] + ([int(rng.integers(1, 3))] if case['multi'] else [])
    es = [entries(mm, rng, jnp, v, int(rng.integers(1, 5))) for mm, v in zip(ms, vecs)]
    if rng.random() < .6:     # force an overlap on the same component with different values
        e = list(es[0][0]); es[0].append(('half',) + tuple(selection(m, rng, jnp, 'half')) + (e[3],) + value_fn(rng, jnp, m.dim))
    else:
        es[0].append(('empty',) + tuple(selection(m, rng, jnp, 'empty')) + (0,) + value_fn(rng, jnp, m.dim))
    surf = [(kd,) + tuple(selection(m, rng, jnp, kd)) for kd in rng.choice(KINDS, size=3)] + [('boundary',) + tuple(selection(m, rng, jnp, 'boundary'))]
    face_forms = [lambda us, gs, x: [0. * u for u in us]] * len(surf)
    d = zoo.universal_methods(lambda us, gs, x: ([u * .3 for u in us], [g for g in gs]), face_forms)
    C = type('P', (fem.Problem,), d)
    kw = dict(location_fns=[s[1] for s in surf], dim=m.dim)
    if case['multi']:
        p = C([fem.mk(mm) for mm in ms], vec=vecs, ele_type=[mm.t for mm in ms], quadrature_order=[3, 3], quadrature_rule=[None, None],
              dirichlet_bc_info=[info(e) for e in es], **kw)
        ctx.event('multi_variable')
    else:
        p = C(fem.mk(m), vec=vec, ele_type=t, quadrature_order=3, dirichlet_bc_info=info(es[0]), **kw)
    for fe, mm, e in zip(p.fes, ms, es):
        check_entries(ctx, fe, mm, e)
    # surface sets
    fe = p.fes[0]
    ctx.check(len(p.boundary_inds_list) == len(surf), 'surface_faces', 'number of surface sets')
    for k, (kd, loc, sel) in enumerate(surf):
        want = set(refasm.select_faces(fe, m, lambda i: sel[i]))
        bi = np.asarray(p.boundary_inds_list[k])
        got = [tuple(int(x) for x in b) for b in bi]
        ctx.check(len(got) == len(set(got)) and set(got) == want, 'surface_faces',
                  lambda: f'{kd}: missing {sorted(want - set(got))[:5]}, extra {sorted(set(got) - want)[:5]}, repeated {len(got) - len(set(got))}')
        if loc.__code__.co_argcount == 1:
            n = fem.mk(m).count_selected_faces(loc)
            ctx.check(int(n) == len(want), 'count_faces', f'{kd}: {n} instead of {len(want)}')
    # direct FiniteElement call as well
    for k, (kd, loc, sel) in enumerate(surf[:2]):
        got = np.asarray(fe.get_boundary_conditions_inds([loc])[0])
        ctx.check(set(map(tuple, got.tolist())) == set(refasm.select_faces(fe, m, lambda i: sel[i])), 'surface_faces', kd)
    ctx.check(fe.get_boundary_conditions_inds(None) == [] or len(fe.get_boundary_conditions_inds(None)) == 0, 'empty_selection')
    rows(ctx, fem, p, ms, vecs, es, rng)
    # updates replace everything
    es2 = [entries(mm, rng, jnp, v, int(rng.integers(1, 4))) for mm, v in zip(ms, vecs)]
    if case['solve']:
        for mm, v, e in zip(ms, vecs, es2):     # well-posed: pin part of the boundary
            for c in range(v):
                e.append(('half',) + tuple(selection(mm, rng, jnp, 'half')) + (c,) + value_fn(rng, jnp, mm.dim))
    for fe, mm, e in zip(p.fes, ms, es2):
        fe.update_Dirichlet_boundary_conditions(info(e))
        check_entries(ctx, fe, mm, e, 'update_replaces')
    rows(ctx, fem, p, ms, vecs, es2, rng)
    if case['solve']:
        sol = fem.solver(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9}})
        off = 0
        for s, mm, v, e in zip(sol, ms, vecs, es2):
            d = wanted(e, v, off, mm.points)
            x = np.asarray(s).reshape(-1)
            for k, val in d.items():
                ctx.close(x[k - off], val, 'solution_values', atol=1e-8 * (1 + abs(val)))
            off += 0
    if rng.random() < .3:
        p.fes[0].update_Dirichlet_boundary_conditions(None)
        check_entries(ctx, p.fes[0], m, [], 'update_replaces')
    ctx.raises(lambda: p.fes[0].update_Dirichlet_boundary_conditions([[lambda a, b, c: a[0] > 0], [0], [lambda q: 0.]]), 'wrong_arity', ValueError)
    ctx.raises(lambda: p.fes[0].get_boundary_conditions_inds([lambda a, b, c: a[0] > 0]), 'wrong_arity', ValueError)


def rows(ctx, fem, p, ms, vecs, es, rng):
    """Residual rows at Dirichlet dofs: field minus scaled prescribed value; the last listed entry wins; other rows untouched."""
    from jax_fem.solver import apply_bc_vec, assign_bc
    n = sum(len(mm.points) * v for mm, v in zip(ms, vecs))
    x, res = rng.normal(size=n), rng.normal(size=n)
    d, off, over = {}, 0, False
    for mm, v, e in zip(ms, vecs, es):
        d.update(wanted(e, v, off, mm.points))
        over |= sum(int(q[2].sum()) for q in e) > len(wanted(e, v, 0, mm.points))
        off += len(mm.points) * v
    for s in (1., float(rng.uniform(.2, 2.))):
        want = res.copy()
        for k, val in d.items():
            want[k] = x[k] - s * val
        got = apply_bc_vec(fem.np.asarray(res), fem.np.asarray(x), p, s)
        ok = ctx.close(got, want, 'bc_residual_rows', atol=1e-11 * (1 + max(map(abs, d.values()), default=0)))
    want = x.copy()
    for k, val in d.items():
        want[k] = val
    ctx.close(assign_bc(fem.np.asarray(x), p), want, 'last_listed_wins' if over else 'bc_residual_rows', atol=1e-11 * (1 + max(map(abs, d.values()), default=0)))
