import numpy as np
from ..refelem import ref

PROPERTY = 'C13'
RULE = ('one case = a random history of operations on one problem object (solves with every nonlinear method, boundary updates of values / nodes / components / '
        'counts, internal- and surface-variable updates, geometry updates and restores, differentiation, residual and tangent evaluations at other fields, failed '
        'solves), mirrored in a plain record of the current data; at checkpoints residual, tangent matrix, boundary-condition application and solution are compared '
        'with a problem built from scratch from that record. Non-trivial: at least three state-changing operations before a comparison.')
REQUIRED = ['residual', 'tangent', 'solution', 'boundary_data', 'op_bc_nodes', 'op_bc_values', 'op_bc_component', 'op_bc_remove', 'op_vals', 'op_iv', 'op_siv', 'op_geometry', 'op_restore',
            'op_grad', 'op_grad_bc', 'op_grad_geometry', 'op_failed', 'op_solve', 'op_arc', 'op_dr', 'op_tangent', 'multi_variable', 'state_changes', 'item_assignment']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'QUAD8', 'HEX8', 'TET4']


def cases(tier, rng):
    q = tier == 'quick'
    return [{'type': TYPES[k % 6], 'flux': ['nl', 'lin', 'elast', 'aniso'][k % 4], 'multi': k % 4 == 3, 'len': int(rng.integers(9, 15)), 'first': k} for k in range(16 if q else 120)]


def run_case(ctx, case):
    from .. import fem, zoo, meshes
    jnp, jax = fem.np, fem.jax
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    mech = case['flux'] == 'elast'
    N = len(m.points)
    if case['multi']:
        ctx.event('multi_variable')
        vecs = [m.dim if mech else 2, 1]
    else:
        vecs = [m.dim if mech else 2]
    dn, rest = zoo.split_boundary(m, rng, .5)
    rest2 = zoo.split_boundary(m, rng, .5)[1]
    fl = zoo.flux_law(case['flux'], m.dim)
    order = 3 if case['type'] in ('QUAD8', 'HEX8', 'QUAD4') else 2

    def build(st):
        mm = meshes.M(m.t, st['pts'], m.cells)

        def set_params(self, q):
            if 'iv' in q:
                self.internal_vars = [q['iv']]
            if 'siv' in q:
                self.internal_vars_surfaces = [[q['siv']], []]
            if 'pts' in q:
                self.initialize_geometric_quantities([q['pts']] * len(vecs))
            if 'bc' in q:
                for fe, b in zip(self.fes, q['bc']):
                    fe.vals_list = [v * jnp.ones_like(o) for v, o in zip(b, fe.vals_list)]
        ex = {'set_params': set_params, **zoo.step_budget(3000)}
        if case['multi']:
            ff = [lambda us, gs, x, h: [2. * us[0] - h * (1. + x[0] ** 2), us[1] + .3 * us[0][:1]], lambda us, gs, x: [us[0] + .3 * x[-1] * us[1], us[1] + .001 * us[1] ** 2 - x[:1]]]
            p = zoo.make_multi([mm, mm], vecs, lambda us, gs, x, k: ([us[0] + .3 * us[1], us[1] + us[1] ** 3 - jnp.cos(x[:1]) + .2 * us[0][:1]], [k * fl(gs[0]), (1 + k) * gs[1]]), ff,
                               st['bcs'], [rest, rest2], ivs=[st['iv']], siv=(st['siv'] + [[]]) if st['siv'] else None, order=order, cls_extra=ex)
        else:
            w = jnp.linspace(.5, 1.5, vecs[0])
            ex['get_surface_maps'] = lambda self: [lambda u, x, h: h * (u ** 3 + u - w) + .4 * jnp.sin(2 * x[0] - x[-1]), lambda u, x: 3. * u + .002 * u ** 2 - x[0] * x[-1]]
            p = zoo.make(mm, case['flux'], 'react', vecs[0], st['bcs'][0], [(rest, 'nlrobin'), (rest2, 'robin')], iv=st['iv'], siv=(st['siv'] + [[]]) if st['siv'] else None, cls_extra=ex,
                         quadrature_order=order)
        return p

    def rand_bcs(n=None):
        out = []
        for v in vecs:
            k = int(rng.integers(0, 4)) if n is None else n
            out.append([(sorted(int(i) for i in rng.choice(N, size=int(rng.integers(1, max(2, N // 2))), replace=False)), int(rng.integers(v)), float(rng.normal())) for _ in range(k)])
        return out
    st = {'pts': m.points.copy(), 'bcs': [[(dn, 0, .3)]] + [[] for _ in vecs[1:]], 'iv': 1., 'siv': None}
    # sizes of the internal variables come from a first build
    st['iv'] = np.ones((len(m.cells), 1))
    probe = fem.FiniteElement(mesh=fem.mk(m), vec=1, dim=m.dim, ele_type=m.t, quadrature_order=order)
    nf = len(probe.get_boundary_conditions_inds([zoo.in_ids(rest)])[0])
    ivs, sivs = (len(m.cells), probe.num_quads), (nf, probe.num_face_quads)
    st['iv'], st['siv'] = 1. + rng.random(ivs), [[1. + rng.random(sivs)]]
    p = build(st)
    split = lambda x: [x[o:o + N * v].reshape(N, v) for o, v in zip(np.concatenate([[0], np.cumsum([N * v for v in vecs])]), vecs)]
    n = N * sum(vecs)
    lin = {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-12}
    rnd = lambda a=.3: [jnp.asarray(s) for s in split(rng.normal(size=n) * a)]

    def moved():
        return m.points + rng.uniform(-1, 1, size=m.points.shape) * .02 + .1 * m.points @ np.triu(rng.normal(size=(m.dim, m.dim)), 1).T

    def setbc(b, which=None):
        for i, fe in enumerate(p.fes):
            if which is None or i in which:
                fe.update_Dirichlet_boundary_conditions(zoo.bc_info(b[i]))
                st['bcs'][i] = b[i]

    def op(name):
        if name == 'bc_nodes':
            setbc(rand_bcs())
        elif name == 'bc_component':      # same nodes and values, other component
            setbc([[(ids, (c + 1) % v, x) for ids, c, x in b] for b, v in zip(st['bcs'], vecs)])
        elif name == 'bc_values':
            setbc([[(ids, c, float(rng.normal())) for ids, c, x in b] for b in st['bcs']])
        elif name == 'bc_same_count':     # other nodes, same number of them
            setbc([[(sorted(int(i) for i in rng.choice(N, size=len(ids), replace=False)), c, x) for ids, c, x in b] for b in st['bcs']])
        elif name == 'bc_remove':
            setbc([[] for _ in vecs])
        elif name == 'bc_one':
            if len(vecs) > 1:
                setbc(rand_bcs(2), [int(rng.integers(len(vecs)))])
            else:
                setbc(rand_bcs(2))
        elif name == 'vals':              # user code also assigns the values directly
            for i, fe in enumerate(p.fes):
                new = [(ids, c, float(rng.normal())) for ids, c, x in st['bcs'][i]]
                fe.vals_list = [jnp.full(len(ids), x) for ids, c, x in new]
                st['bcs'][i] = new
        elif name == 'iv':
            st['iv'] = 1. + rng.random(ivs)
            p.internal_vars = [jnp.asarray(st['iv'])]
        elif name == 'siv':
            st['siv'] = [[1. + rng.random(sivs)]]
            p.internal_vars_surfaces = [[jnp.asarray(st['siv'][0][0])], []]
        elif name == 'geometry':
            st['pts'] = moved()
            p.initialize_geometric_quantities([jnp.asarray(st['pts'])] * len(vecs))
        elif name == 'restore':
            st['pts'] = m.points.copy()
            p.initialize_geometric_quantities()
        elif name in ('grad', 'grad_bc', 'grad_geometry'):
            q = {}
            if name == 'grad':
                q['iv'], q['siv'] = jnp.asarray(1. + rng.random(ivs)), jnp.asarray(1. + rng.random(sivs))
            elif name == 'grad_bc':
                q['bc'] = [[float(rng.normal()) for _ in b] for b in st['bcs']]
            else:
                q['pts'] = jnp.asarray(moved())
            fwd = fem.ad_wrapper(p, {'newton': lin}, {'spsolve_solver': {}})
            w = rnd()
            g = jax.grad(lambda q: sum(jnp.sum(a * b) for a, b in zip(w, fwd(q))))(q)
            ctx.check(all(np.all(np.isfinite(x)) for x in jax.tree_util.tree_leaves(g)), 'gradient_finite')
            if 'iv' in q:
                st['iv'], st['siv'] = np.asarray(q['iv']), [[np.asarray(q['siv'])]]
            if 'bc' in q:
                st['bcs'] = [[(ids, c, x) for (ids, c, _), x in zip(b, v)] for b, v in zip(st['bcs'], q['bc'])]
            if 'pts' in q:
                st['pts'] = np.asarray(q['pts'])
        elif name == 'failed':
            for o in ({'newton': {'initial_guess': [x.at[0, 0].set(jnp.nan) for x in rnd()], 'linear': {'spsolve_solver': {}}}}, {'newton': 3}, {'arc_length': {}},
                      {'newton': {'linear': {'custom_solver': lambda A, b, x0, o: np.full(n, np.nan)}, 'initial_guess': rnd(2.)}}):
                ctx.raises(lambda: fem.solver(p, o), 'failed_raises')
        elif name == 'solve':
            fem.solver(p, {'newton': dict(lin, initial_guess=rnd(), line_search_flag=bool(rng.random() < .4))})
        elif name == 'arc':
            if any(b for b in st['bcs']):
                try:
                    fem.solver(p, {'arc_length': {'control': 'displacement', 'Delta_l': .4, 'max_continuation_steps': 3, 'linear': {'spsolve_solver': {}}}})
                except AssertionError:      # no point at that arc distance: the run says so
                    ctx.event('arc_raised')
        elif name == 'dr':
            with fem.captured():
                fem.solver(p, {'dynamic_relax': {'tol': 1e-3, 'info': False, 'info_force': False, 'linear': {'spsolve_solver': {}}}})
        elif name == 'tangent':
            p.newton_update(rnd())
            fem.solver_mod.get_A(p)
            p.compute_residual(rnd())
        ctx.event('op_' + name)
    names = ['bc_nodes', 'bc_component', 'bc_values', 'bc_same_count', 'bc_remove', 'bc_one', 'vals', 'iv', 'siv', 'geometry', 'restore', 'grad', 'grad_bc', 'grad_geometry', 'failed', 'solve', 'tangent']
    slow = ['arc', 'dr']
    seq = [str(x) for x in rng.choice(names, size=case['len'])]
    seq[1] = names[case['first'] % len(names)]
    seq[4] = names[(case['first'] * 5 + 3) % len(names)]
    if case['first'] % 4 == 0 and case['flux'] != 'aniso':
        seq[3] = slow[(case['first'] // 4) % 2]
    stops = {len(seq) - 1, len(seq) // 2}
    for k, nm in enumerate(seq):
        op(nm)
        if nm not in ('failed', 'solve', 'arc', 'dr', 'tangent'):
            ctx.event('state_changes')
        if k not in stops:
            continue
        f = build(st)
        ctx.event('history_' + '>'.join(seq[max(0, k - 1):k + 1]))
        x = rnd()
        where = f'after {seq[:k + 1]}'
        got, want = zoo.flat_residual(p, x), zoo.flat_residual(f, x)
        if not ctx.close(got, want, 'residual', rtol=1e-11):
            ctx.fail('residual', where)
        r1, r2 = p.newton_update(x), f.newton_update(x)
        ctx.close(fem.flat(r1), fem.flat(r2), 'residual', rtol=1e-11)
        a1, a2 = fem.csr(fem.solver_mod.get_A(p)).toarray(), fem.csr(fem.solver_mod.get_A(f)).toarray()
        if not ctx.close(a1, a2, 'tangent', rtol=1e-11):
            ctx.fail('tangent', where)
        for sc in (1e-3, 0., .2):             # nearby fields: nothing may be reused from the tangent before
            y = [v * (1 + sc) + sc * 1e-2 for v in x]
            r1, r2 = p.newton_update(y), f.newton_update(y)
            ctx.close(fem.flat(r1), fem.flat(r2), 'residual', rtol=1e-11)
            D = zoo.dense_jacobian(f, y)
            for k in (k for i, b in enumerate(st['bcs']) for k, _ in zoo.bc_dofs(b, m.points, vecs[i], sum(N * v for v in vecs[:i]))):
                D[k] = 0.
                D[k, k] = 1.
            ctx.close(fem.csr(fem.solver_mod.get_A(p)).toarray(), D, 'tangent', rtol=1e-10)
        # the same list objects with replaced items
        for what in ('field', 'internal', 'surface'):
            if what == 'field':
                x[-1] = x[-1] * 1.1 + .01
            elif what == 'internal':
                st['iv'] = st['iv'] * 1.07
                p.internal_vars[0] = jnp.asarray(st['iv'])
            else:
                st['siv'] = [[st['siv'][0][0] * 1.06]]
                p.internal_vars_surfaces[0][0] = jnp.asarray(st['siv'][0][0])
            f.internal_vars = [jnp.asarray(st['iv'])]
            f.internal_vars_surfaces = [[jnp.asarray(st['siv'][0][0])], []]
            r1, r2 = p.newton_update(x), f.newton_update([v for v in x])
            ctx.close(fem.flat(r1), fem.flat(r2), 'item_assignment', rtol=1e-11)
            ctx.close(zoo.flat_residual(p, x), fem.flat(r2), 'item_assignment', rtol=1e-11)
            ctx.close(fem.csr(fem.solver_mod.get_A(p)).toarray(), fem.csr(fem.solver_mod.get_A(f)).toarray(), 'item_assignment', rtol=1e-11)
        for i, fe in enumerate(p.fes):
            d = {}
            for a, c, v in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
                for aa, cc, vv in zip(np.asarray(a), np.asarray(c), np.asarray(v)):
                    d[int(aa) * vecs[i] + int(cc)] = float(vv)
            ctx.check(sorted(d.items()) == zoo.bc_dofs(st['bcs'][i], m.points, vecs[i]), 'boundary_data', where)
        s1, s2 = fem.flat(fem.solver(p, {'newton': lin})), fem.flat(fem.solver(f, {'newton': lin}))
        if not ctx.close(s1, s2, 'solution', rtol=1e-8):
            ctx.fail('solution', where)
        bcd = [d for i, b in enumerate(st['bcs']) for d in zoo.bc_dofs(b, m.points, vecs[i], sum(N * v for v in vecs[:i]))]
        if bcd:
            ctx.close(s1[[k for k, _ in bcd]], [v for _, v in bcd], 'solution', atol=1e-9)
