import numpy as np
from ..refelem import ref

PROPERTY = 'C15'
RULE = ('one case = a random schedule over two problems and three differentiable wrappers (two share a problem): forward passes at many parameters, the pending backward '
        'passes executed later in random order (some twice, with other cotangents), with plain solves, user set_params calls, residual/tangent evaluations and failing calls '
        'in between. Every delivered field and gradient is compared with one computed in isolation on a fresh problem. Non-trivial: at least one other call on the same '
        'problem happened between a forward pass and its backward pass.')
REQUIRED = ['forward', 'gradient', 'interleaved_backward', 'repeated_backward', 'other_problem_between', 'state_after_backward', 'usable_after_backward', 'concrete_state', 'sum_of_two', 'time_chain',
            'plain_between', 'failed_between', 'schedules']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'HEX8', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    return [{'type': TYPES[k % 6], 'flux': ['nl', 'elast', 'aniso'][k % 3], 'what': ['iv', 'bc', 'pts', 'all'][(k + k // 6) % 4], 'steps': int(rng.integers(14, 24)), 'mpc': k % 5 == 3} for k in range(14 if q else 110)]


def run_case(ctx, case):
    from .. import fem, zoo
    jnp, jax = fem.np, fem.jax
    from .c14 import constraint
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    while len(m.points) < 5:
        m = zoo.small_mesh(case['type'], rng, distort=.1)
    N, dim = len(m.points), m.dim
    vec = dim if case['flux'] == 'elast' else 2
    n = N * vec
    dn, rest = zoo.split_boundary(m, rng, .35)
    if len(dn) >= N - 1:
        dn = dn[:max(2, N // 3)]
    fl = zoo.flux_law(case['flux'], dim)
    order = 3 if case['type'] in ('QUAD8', 'HEX8', 'QUAD4') else 2
    h = np.min([np.linalg.norm(np.diff(m.points[c], axis=0), axis=1).min() for c in m.cells])
    P = constraint(rng, n, [[(dn, c, 0.) for c in range(vec)]], [vec], [0], N) if case['mpc'] else None

    def build(mult):
        bcs = [(dn, c, .2 * (c + 1) * mult) for c in range(vec)]

        def set_params(self, q):
            self.internal_vars = [q['k'], self.fes[0].convert_from_dof_to_quad(q['old'])]
            if 'bc' in q:
                self.fes[0].vals_list = list(q['bc'])
            if 'pts' in q:
                self.initialize_geometric_quantities([q['pts']])
            self.internal_vars_surfaces = [[q['h']]]
        d = {'set_params': set_params, **zoo.step_budget(10 ** 5),
             'get_tensor_map': lambda self: (lambda g, k, o: k * fl(g)),
             'get_mass_map': lambda self: (lambda u, x, k, o: mult * (u - o) + u ** 3 * .3 - jnp.cos(x[0])),
             'get_surface_maps': lambda self: [lambda u, x, h: h * u - .5]}
        p = type('PD', (fem.Problem,), d)(fem.mk(m), vec=vec, dim=dim, ele_type=m.t, quadrature_order=order, dirichlet_bc_info=zoo.bc_info(bcs), location_fns=[zoo.in_ids(rest)])
        if P is not None:
            p.P_mat = P
        return p

    probs = [build(1.), build(1.7)]
    iso = [build(1.), build(1.7)]            # never shared with anything else
    shp = (len(m.cells), probs[0].fes[0].num_quads)
    sshp = (len(probs[0].boundary_inds_list[0]), probs[0].fes[0].num_face_quads)

    def rand_params():
        q = {'k': jnp.asarray(1. + rng.random(shp)), 'old': jnp.asarray(rng.normal(size=(N, vec)) * .3), 'h': jnp.asarray(1. + rng.random(sshp))}
        if case['what'] in ('bc', 'all'):
            q['bc'] = [jnp.asarray(rng.normal(size=len(dn)) * .4) for _ in range(vec)]
        if case['what'] in ('pts', 'all'):
            q['pts'] = jnp.asarray(m.points + .04 * h * rng.normal(size=m.points.shape))
        return q
    lin = {'spsolve_solver': {}}
    o1 = {'newton': {'linear': lin, 'tol': 1e-10, 'rel_tol': 1e-12}}
    o2 = {'spsolve_solver': {}, 'tol': 1e-10, 'rel_tol': 1e-12, 'line_search_flag': True}
    wraps = [(0, fem.ad_wrapper(probs[0], o1, lin)), (1, fem.ad_wrapper(probs[1], o1, {'spsolve_solver': {}})), (0, fem.ad_wrapper(probs[0], o2, {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}))]
    fresh = {0: fem.ad_wrapper(iso[0], o1, lin), 1: fem.ad_wrapper(iso[1], o1, lin)}
    refs = {}

    def isolated(pi, key, q, cot):
        sol, vjp = jax.vjp(fresh[pi], q)
        return fem.flat(sol), vjp([cot])[0]
    pending, log, state = [], [], {}
    params = [rand_params() for _ in range(5)]
    cots = [jnp.asarray(rng.normal(size=(N, vec))) for _ in range(4)]
    for pp in probs:
        pp.set_params(rand_params())
    close = lambda a, b, nm: [ctx.close(x, y, nm, rtol=1e-7, atol=1e-9) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))]
    results = []

    def do_backward(j):
        wi, qi, vjp, sol, t0, used = pending[j]
        pi = wraps[wi][0]
        ci = int(rng.integers(4))
        g = vjp([cots[ci]])[0]
        results.append((pi, qi, ci, sol, g))
        between = [e for e in log[t0 + 1:]]
        if any(e[1] == pi for e in between):
            ctx.event('interleaved_backward')
        if any(e[1] == 1 - pi for e in between):
            ctx.event('other_problem_between')
        if used:
            ctx.event('repeated_backward')
        pending[j][5] = True
        log.append(('bwd', pi))
        # the problem is usable and its state is that of the parameters just differentiated
        leaves = jax.tree_util.tree_leaves([probs[pi].internal_vars, probs[pi].internal_vars_surfaces, probs[pi].fes[0].vals_list, probs[pi].shape_grads, probs[pi].JxW])
        ctx.check(not any(isinstance(v, jax.core.Tracer) for v in leaves), 'concrete_state', 'tracers left in the problem')
        x = [jnp.asarray(rng.normal(size=(N, vec)))]
        got = zoo.flat_residual(probs[pi], x)
        iso[pi].set_params(params[qi])
        ctx.close(got, zoo.flat_residual(iso[pi], x), 'state_after_backward', rtol=1e-10)
        ctx.close(np.concatenate([np.asarray(v) for v in probs[pi].fes[0].vals_list]), np.concatenate([np.asarray(v) for v in iso[pi].fes[0].vals_list]), 'state_after_backward', rtol=1e-13)
        if rng.random() < .3:
            s = fem.flat(fem.solver(probs[pi], o1))
            ctx.close(s, sol, 'usable_after_backward', rtol=1e-7, atol=1e-8)
            log.append(('plain', pi))
    for step in range(case['steps']):
        r = rng.random()
        if r < .4 or not pending:
            wi, qi = int(rng.integers(3)), int(rng.integers(5))
            sol, vjp = jax.vjp(wraps[wi][1], params[qi])
            log.append(('fwd', wraps[wi][0]))
            pending.append([wi, qi, vjp, fem.flat(sol), len(log) - 1, False])
        elif r < .7:
            do_backward(int(rng.integers(len(pending))))
        elif r < .78:
            pi = int(rng.integers(2))
            probs[pi].set_params(rand_params())
            fem.solver(probs[pi], o2)
            log.append(('plain', pi)); ctx.event('plain_between')
        elif r < .86:
            pi = int(rng.integers(2))
            probs[pi].newton_update([jnp.asarray(rng.normal(size=(N, vec)))])
            fem.solver_mod.get_A(probs[pi])
            probs[pi].compute_residual([jnp.asarray(rng.normal(size=(N, vec)))])
            log.append(('tangent', pi))
        elif r < .93:
            wi = int(rng.integers(3))
            bad = dict(rand_params(), old=jnp.full((N, vec), jnp.nan))
            ctx.raises(lambda: wraps[wi][1](bad), 'failed_between')
            log.append(('failed', wraps[wi][0]))
        else:
            wi = int(rng.integers(3))
            qi = int(rng.integers(5))
            s = fem.flat(wraps[wi][1](params[qi]))
            results.append((wraps[wi][0], qi, None, s, None))
            log.append(('fwd', wraps[wi][0]))
    # finish everything still pending, last first or first first
    for j in (range(len(pending)) if rng.random() < .5 else reversed(range(len(pending)))):
        if not pending[j][5]:
            do_backward(j)
    ctx.event('schedules')
    cache = {}
    for pi, qi, ci, sol, g in results:
        k = (pi, qi)
        if k not in cache:
            cache[k] = jax.vjp(fresh[pi], params[qi])
        s0, vjp = cache[k]
        ctx.close(sol, fem.flat(s0), 'forward', rtol=1e-7, atol=1e-8)
        if g is not None:
            kk = k + (ci,)
            if kk not in cache:
                cache[kk] = vjp([cots[ci]])[0]
            close(g, cache[kk], 'gradient')
    # functionals mixing several forward passes: backward passes run after both forward passes
    w, v = cots[0], cots[1]
    scale = lambda q, a: dict(q, k=a * q['k'])
    (pa, fa), (pb, fb) = wraps[0], wraps[int(rng.integers(3))]
    J = lambda q: jnp.sum(w * fa(q)[0]) + jnp.sum(v * fb(scale(q, 1.5))[0] ** 2)
    q = params[0]
    g = jax.grad(J)(q)
    sa, va = jax.vjp(fresh[pa], q)
    ga = va([w])[0]
    sb, vb = jax.vjp(fresh[pb], scale(q, 1.5))
    gb = vb([2 * v * sb[0]])[0]
    want = jax.tree_util.tree_map(lambda x, y: x + y, ga, dict(gb, k=1.5 * gb['k']))
    close(g, want, 'sum_of_two')
    # a time chain: each step's field is the next step's parameter
    f = wraps[0][1]
    def chain(q):
        u = q['old']
        for _ in range(3):
            u = f(dict(q, old=u))[0]
        return jnp.sum(w * u ** 2)
    g = jax.grad(chain)(q)
    us, vs = [q['old']], []
    for _ in range(3):
        s, vj = jax.vjp(fresh[0], dict(q, old=us[-1]))
        us.append(s[0]); vs.append(vj)
    cot = 2 * w * us[-1]
    tot = jax.tree_util.tree_map(jnp.zeros_like, q)
    for vj in reversed(vs):
        gq = vj([cot])[0]
        cot = gq['old']
        tot = jax.tree_util.tree_map(lambda x, y: x + y, tot, dict(gq, old=jnp.zeros_like(cot)))
    tot = dict(tot, old=cot)
    close(g, tot, 'time_chain')
