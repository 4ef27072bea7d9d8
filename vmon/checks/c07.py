import numpy as np
from ..refelem import ref, TYPES

PROPERTY = 'C07'
RULE = ('one case = 2 or 3 variables with different element types, components and Dirichlet data on the same cells: (a) random coupled weak '
        'form against independent assembly, matrix against its derivative; (b) non-interacting variables against separate problems; '
        '(c) the same problem with the variables listed in another order. Non-trivial: all three comparisons made.')
REQUIRED = ['coupled_residual', 'matrix_blocks', 'matrix_permuted', 'separate_solution', 'separate_residual', 'permuted_residual', 'permuted_solution', 'dirichlet_values',
            'shapes', 'three_variables', 'surface', 'no_cross_blocks']


def cases(tier, rng):
    out = []
    combos = [['QUAD8', 'QUAD4'], ['TRI6', 'TRI3'], ['HEX20', 'HEX8'], ['TET10', 'TET4'], ['QUAD4', 'QUAD8'], ['TRI3', 'TRI6', 'TRI6'], ['HEX8', 'HEX27'],
              ['QUAD4', 'QUAD4', 'QUAD8'], ['TET4', 'TET10'], ['HEX8', 'HEX8'], ['QUAD8', 'QUAD4', 'QUAD4'], ['TRI6', 'TRI6'], ['TRI3', 'TRI3'], ['HEX8', 'HEX20', 'HEX8'],
              ['QUAD4', 'QUAD4'], ['TET4', 'TET4']]
    for k in range(1 if tier == 'quick' else 5):
        for c in combos:
            out.append({'types': c, 'vecs': [int(v) for v in rng.integers(1, 4, size=len(c))], 'surf': bool(rng.random() < .7)})
    return out


def run_case(ctx, case):
    from .. import fem, meshes, zoo, refasm
    from .c02 import companion
    from jax_fem.solver import get_A
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    ts, vecs = case['types'], case['vecs']
    nv = len(ts)
    # one straight-sided corner mesh, every variable on its own elevation
    base = zoo.small_mesh({'QUAD': 'QUAD4', 'TRI': 'TRI3', 'HEX': 'HEX8', 'TET': 'TET4'}[ref(ts[0]).shape], rng, tiny=True, distort=.1)
    if 'HEX' in ts[0] and ('HEX27' in ts or 'HEX20' in ts):
        base = meshes.make('HEX8', rng, n=[1, 1, 2], distort=.1)
    ms = []
    for i, t in enumerate(ts):
        P, C = meshes.elevate(t, base.points, base.cells)
        perm = rng.permutation(len(P))
        P2 = np.empty_like(P); P2[perm] = P
        ms.append(meshes.M(t, P2, perm[C]))
    if nv == 3:
        ctx.event('three_variables')
    dim = base.dim
    ss = []
    if case['surf']:
        # selected by variable 0's nodes
        ss = [ms[0].boundary_nodes().tolist()]
        ctx.event('surface')
    W = [jnp.asarray(rng.normal(size=(v, v2))) for v in vecs for v2 in vecs]
    Wm = lambda i, j: W[i * nv + j]

    def coupled(us, gs, x, *iv):
        S = [sum(Wm(i, j) @ us[j] for j in range(nv)) * (1 + us[i]) for i in range(nv)]
        F = [gs[i] * (2. + i) + .2 * sum(jnp.outer(Wm(i, j) @ us[j], gs[j].sum(0)) for j in range(nv)) for i in range(nv)]
        return S, F
    ff = [lambda us, gs, x: [sum(Wm(i, j) @ (us[j] ** 2 + gs[j] @ x) for j in range(nv)) for i in range(nv)]] if ss else []
    from .c06 import random_bcs

    def pinned(m, v):
        ids, _ = zoo.split_boundary(m, rng, .4)
        return [(ids, c, float(rng.normal())) for c in range(v)] + random_bcs(m, v, rng, 1)
    bcs = [pinned(m, v) for m, v in zip(ms, vecs)]
    order = 3
    p = zoo.make_multi(ms, vecs, coupled, ff, bcs, ss, order=order)
    offs = np.concatenate([[0], np.cumsum([len(m.points) * v for m, v in zip(ms, vecs)])])
    sols = [rng.normal(size=(len(m.points), v)) * .5 for m, v in zip(ms, vecs)]
    js = [jnp.asarray(s) for s in sols]
    faces = [refasm.select_faces(p.fes[0], ms[0], lambda i, s=set(s): i in s) for s in ss]
    want = refasm.residual(p, ms, sols, coupled, ff, (), [()] * len(ss), faces=faces)
    got = p.compute_residual(js)
    ctx.check([tuple(g.shape) for g in got] == [s.shape for s in sols], 'shapes')
    got2 = p.newton_update(js)
    for i in range(nv):
        ctx.close(got[i], want[i], 'coupled_residual', rtol=1e-9)
        ctx.close(got2[i], want[i], 'coupled_residual', rtol=1e-9)
    A = fem.csr(get_A(p)).toarray()
    # derivative of the independent residual in random directions, block by block
    d = {}
    for i, b in enumerate(bcs):
        d.update(zoo.bc_dofs(b, ms[i].points, vecs[i], offs[i]))
    h = 1e-5
    for j in range(nv):
        v = rng.normal(size=sols[j].shape)
        pl = [s + h * v if i == j else s for i, s in enumerate(sols)]
        mi = [s - h * v if i == j else s for i, s in enumerate(sols)]
        a = refasm.residual(p, ms, pl, coupled, ff, (), [()] * len(ss), faces=faces)
        b = refasm.residual(p, ms, mi, coupled, ff, (), [()] * len(ss), faces=faces)
        fd = np.concatenate([((x - y) / (2 * h)).reshape(-1) for x, y in zip(a, b)])
        z = np.zeros(offs[-1]); z[offs[j]:offs[j + 1]] = v.reshape(-1)
        for k in d:
            fd[k] = z[k]
        ctx.close(A @ z, fd, 'matrix_blocks', rtol=1e-6)
    # ---- permuted list (variable 0 stays first when surfaces are selected by its nodes)
    perm = list(rng.permutation(nv))
    if perm == list(range(nv)):
        perm = perm[::-1]
    ids0 = ss
    if ss:
        # the same faces described through the new first variable's nodes
        ids0 = [ms[perm[0]].boundary_nodes().tolist()]
    inv = [perm.index(i) for i in range(nv)]

    def coupled_p(us, gs, x, *iv):
        S, F = coupled([us[inv[i]] for i in range(nv)], [gs[inv[i]] for i in range(nv)], x)
        return [S[k] for k in perm], [F[k] for k in perm]
    ffp = [lambda us, gs, x: (lambda r: [r[k] for k in perm])(ff[0]([us[inv[i]] for i in range(nv)], [gs[inv[i]] for i in range(nv)], x))] if ss else []
    pp = zoo.make_multi([ms[k] for k in perm], [vecs[k] for k in perm], coupled_p, ffp, [bcs[k] for k in perm], ids0, order=order)
    gp = pp.newton_update([js[k] for k in perm])
    for k, i in enumerate(perm):
        ctx.close(gp[k], want[i], 'permuted_residual', rtol=1e-9)
    Ap = fem.csr(get_A(pp)).toarray()
    idx = np.concatenate([np.arange(offs[k], offs[k + 1]) for k in perm])
    ctx.close(Ap, A[np.ix_(idx, idx)], 'matrix_permuted', rtol=1e-9)
    # ---- non-interacting variables
    single_form = [lambda u, g, x, i=i: (u * (1. + i) + .3 * u ** 3 - jnp.cos(x[0] + i), g * (1 + i) + .1 * g * jnp.sum(g * g)) for i in range(nv)]

    def free(us, gs, x, *iv):
        r = [single_form[i](us[i], gs[i], x) for i in range(nv)]
        return [a for a, _ in r], [b for _, b in r]
    opt = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10}}
    sf = [lambda us, gs, x: [u * .5 + (1. + i) * x[0] for i, u in enumerate(us)]] if ss else []
    p0 = zoo.make_multi(ms, vecs, free, sf, bcs, ss, order=order)
    sol = fem.solver(p0, opt)
    ctx.check([tuple(s.shape) for s in sol] == [s.shape for s in sols], 'shapes')
    pz = zoo.make_multi([ms[k] for k in perm], [vecs[k] for k in perm],
                        lambda us, gs, x: (lambda r: ([r[k][0] for k in range(nv)], [r[k][1] for k in range(nv)]))([single_form[perm[k]](us[k], gs[k], x) for k in range(nv)]),
                        [lambda us, gs, x: [u * .5 + (1. + perm[k]) * x[0] for k, u in enumerate(us)]] if ss else [],
                        [bcs[k] for k in perm], ids0, order=order)
    solp = fem.solver(pz, opt)
    p0.newton_update(js)
    A0 = fem.csr(get_A(p0)).toarray()
    r0 = p0.compute_residual(js)
    for i in range(nv):
        ctx.close(solp[inv[i]], sol[i], 'permuted_solution', rtol=1e-7)
        for k, v in zoo.bc_dofs(bcs[i], ms[i].points, vecs[i]):
            ctx.close(np.asarray(sol[i]).reshape(-1)[k], v, 'dirichlet_values', atol=1e-9)
        for j in range(nv):
            if j != i:
                ctx.check(np.abs(A0[offs[i]:offs[i + 1], offs[j]:offs[j + 1]]).max() < 1e-12, 'no_cross_blocks')
        si = ss and [ms[i].boundary_nodes().tolist()]
        ps = zoo.make_multi([ms[i]], [vecs[i]], lambda us, gs, x, i=i: tuple([a] for a in single_form[i](us[0], gs[0], x)),
                            [lambda us, gs, x, i=i: [us[0] * .5 + (1. + i) * x[0]]] if ss else [], [bcs[i]], si, order=order)
        s1 = fem.solver(ps, opt)
        ctx.close(sol[i], s1[0], 'separate_solution', rtol=1e-7)
        ctx.close(r0[i], ps.compute_residual([js[i]])[0], 'separate_residual', rtol=1e-9)
