import numpy as np
from ..refelem import ref, TYPES, DEGREE, shape_of

PROPERTY = 'C12'
RULE = ('patch cases: a random polynomial that lies in the element space (linear on distorted/curved meshes, full degree on affine ones) is the exact '
        'solution of a boundary value problem with per-side Dirichlet, Neumann or Robin conditions; every nodal value is compared. Convergence cases: a smooth '
        'manufactured solution on a sequence of refined meshes; L2 and H1 rates measured with the monitor\'s own quadrature. Non-trivial: the solution is '
        'not in the space of constants and at least one interior or non-Dirichlet node was solved for.')
REQUIRED = ['patch', 'patch_quadratic', 'neumann_side', 'robin_side', 'elasticity', 'curved_patch', 'default_quadrature', 'l2_rate', 'h1_rate', 'solved_nodes', 'nonlinear_patch']


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(2 if q else 14):
        for t in TYPES:
            deg = 2 if DEGREE[t] == 2 and (k + TYPES.index(t)) % 2 else 1
            j = TYPES.index(t) + k + (int(rng.integers(3)) if k > 1 else 0)
            curved = bool(deg == 1 and DEGREE[t] == 2 and (k == 0 or rng.random() < .7))
            out.append({'kind': 'patch', 'type': t, 'deg': deg, 'law': ['diff', 'elast', 'diff2'][int(rng.integers(3)) if k else j % 3],
                        'react': bool(curved and (k + j) % 4) or j % 3 == 0, 'curved': curved, 'nl': j % 3 == 1})
    for t in TYPES if not q else [str(s) for s in rng.permutation(TYPES)[:6]]:
        for law in (['diff', 'elast'] if not q else [['diff', 'elast'][rng.integers(2)]]):
            out.append({'kind': 'rate', 'type': t, 'law': law, 'nl': bool(rng.random() < .3)})
    out.sort(key=lambda c: (c['kind'] != 'rate', c['type'] not in ('HEX27', 'HEX20', 'TET10')))
    return out


def flat_mesh(t, rng, n, size, distort, curved, affine=True):
    """Interior nodes moved only, then an affine map: flat sides."""
    from .. import meshes
    dim = ref(t).dim
    h = np.min(np.asarray(size) / np.asarray(n))
    inner = lambda P, e=1e-9: np.all((P > e) & (P < np.asarray(size) - e), axis=1)
    A = np.eye(dim)
    if affine:
        A = meshes.random_rotation(rng, dim) @ (np.eye(dim) + np.triu(rng.uniform(-.4, .4, size=(dim, dim)), 1))
    for a in range(40):
        P, C = meshes.corner_mesh(shape_of(t), n, size, rng)
        P[inner(P)] += (rng.uniform(-1, 1, size=P.shape) * distort * h * .7 ** a)[inner(P)]
        nc = len(P)
        P, C = meshes.elevate(t, P, C)
        if curved and DEGREE[t] == 2:
            mv = inner(P) & (np.arange(len(P)) >= nc)
            P[mv] += (rng.uniform(-1, 1, size=P.shape) * curved * h * .7 ** a)[mv]
        d = meshes.detJ(t, P, C)
        if np.all(d > .15 * np.abs(d).mean(axis=1, keepdims=True)):
            break
    P = P @ A.T + (rng.uniform(-2, 2, size=dim) if affine else 0.)
    P, C = meshes.renumber(t, P, C, rng)[:2]
    return meshes.M(t, P, C)


def sides(m):
    """Flat sides: list of (unit outward normal, all node ids, corner ids)."""
    out = []
    for k, (ci, f) in m.boundary_faces().items():
        X = m.points[[int(m.cells[ci][i]) for i in f]]
        if m.dim == 2:
            e = X[1] - X[0]
            n = np.array([e[1], -e[0]])
        else:
            n = np.cross(X[1] - X[0], X[2] - X[0])
        n /= np.linalg.norm(n)
        corners = m.points[m.cells[ci][:len(ref(m.t).corners)]]
        if n @ (corners.mean(0) - X.mean(0)) > 0:
            n = -n
        for s in out:
            if np.allclose(s[0], n, atol=1e-7):
                break
        else:
            s = (n, set(), set())
            out.append(s)
        s[1].update(int(m.cells[ci][i]) for i in m.ref.face_nodes(f))
        s[2].update(k)
    return out


def exact_poly(rng, dim, vec, deg, jnp, scale=1.):
    c0, c1 = rng.normal(size=vec), rng.normal(size=(vec, dim)) * scale
    c2 = rng.normal(size=(vec, dim, dim)) * scale * (.5 if deg == 2 else 0.)
    o = rng.normal(size=dim) * .3
    c0, c1, c2, o = map(jnp.asarray, (c0, c1, c2, o))
    return lambda x: c0 + c1 @ x + jnp.einsum('vij,i,j->v', c2, x - o, x - o)


def bvp(fem, zoo, m, u, law, react, kinds, sd, order, dim, vec, robin=2., nl=False):
    """Problem whose exact solution is u: conditions of sd[i] are kinds[i] in 'DNR'."""
    jax, jnp = fem.jax, fem.np
    fl0 = zoo.flux_law('elast' if law == 'elast' else 'aniso', dim)
    K = jnp.asarray(np.random.default_rng(5).uniform(.6, 1.6, size=(vec, 1))) if law != 'elast' else 1.
    if nl:
        fl = lambda uu, g: fl0(g) * K * (1. + .3 * jnp.sum(g * g))
    else:
        fl = lambda uu, g: fl0(g) * K
    du = jax.jacfwd(u)
    flux = lambda x: fl(u(x), du(x))
    F = lambda x: react * u(x) - jnp.trace(jax.jacfwd(flux)(x), axis1=1, axis2=2)
    d = {'get_tensor_map': lambda self: (lambda g: fl(None, g)), 'get_mass_map': lambda self: (lambda uu, x: react * uu - F(x)), **zoo.step_budget(40)}
    maps, locs, bcs = [], [], []
    for (nrm, nodes, corners), k in zip(sd, kinds):
        nj = jnp.asarray(nrm)
        if k == 'D':
            for c in range(vec):
                bcs.append((sorted(nodes), c, lambda p, c=c: u(p)[c]))
        else:
            locs.append(zoo.in_ids(sorted(corners)))
            h = robin if k == 'R' else 0.
            maps.append(lambda uu, x, nj=nj, h=h: h * (uu - u(x)) - flux(x) @ nj)
    if locs:
        d['get_surface_maps'] = lambda self: maps
    C = type('BVP', (fem.Problem,), d)
    return C(fem.mk(m), vec=vec, dim=dim, ele_type=m.t, quadrature_order=order, dirichlet_bc_info=zoo.bc_info(bcs) if bcs else None, location_fns=locs or None)


def run_case(ctx, case):
    from .. import fem, zoo
    rng = np.random.default_rng(case['seed'])
    {'patch': patch, 'rate': rate}[case['kind']](ctx, case, rng, fem, zoo)


def patch(ctx, case, rng, fem, zoo):
    jnp, t = fem.np, case['type']
    dim = ref(t).dim
    deg, law = case['deg'], case['law']
    vec = dim if law == 'elast' else (2 if law == 'diff2' else 1)
    n = rng.integers(2, 4, size=dim) if dim == 2 else (np.array([2, 2, 1]) if t in ('HEX20', 'HEX27', 'TET10') else np.array([2, 2, 2]))[rng.permutation(3)]
    distort = .25 if deg == 1 else 0.
    m = flat_mesh(t, rng, n, rng.uniform(.6, 1.6, size=dim), distort, .12 if case['curved'] else 0.)
    if case['curved']:
        ctx.event('curved_patch')
    sd = sides(m)
    assert len(sd) == 2 * dim
    kinds = [str(k) for k in rng.choice(['D', 'N', 'R'], size=len(sd), p=[.4, .3, .3])]
    if kinds.count('D') == 0 and (law == 'elast' or kinds.count('R') == 0 or True):
        kinds[int(rng.integers(len(sd)))] = 'D'
    nl = case['nl'] and deg == 1 and not case['react']
    react = float(rng.uniform(.3, 2.)) if case['react'] else 0.
    # exact quadrature of everything that occurs; the default where that suffices for the patch test
    simplex = shape_of(t) in ('TRI', 'TET')
    order = {True: 4 if deg == 2 or react or case['curved'] else None, False: (None if deg == 1 and DEGREE[t] == 1 and not react else 5)}[simplex]
    if t == 'TET10':
        order = 4
    if order is None:
        ctx.event('default_quadrature')
    u = exact_poly(rng, dim, vec, deg, jnp, .6)
    p = bvp(fem, zoo, m, u, law, react, kinds, sd, order, dim, vec, robin=float(rng.uniform(.5, 4.)), nl=nl)
    want = np.asarray(fem.jax.vmap(u)(jnp.asarray(m.points)))
    opts = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-11, 'rel_tol': 1e-12 if not nl else 1e-11}}
    got = np.asarray(fem.solver(p, opts)[0])
    ctx.close(got, want, 'patch', rtol=2e-8)
    ctx.event('solved_nodes', len(m.points) - len(set().union(*[s[1] for s, k in zip(sd, kinds) if k == 'D'])))
    if deg == 2:
        ctx.event('patch_quadratic')
    if law == 'elast':
        ctx.event('elasticity')
    if nl:
        ctx.event('nonlinear_patch')
    for k in kinds:
        ctx.event({'D': 'dirichlet_side', 'N': 'neumann_side', 'R': 'robin_side'}[k])


def rate(ctx, case, rng, fem, zoo):
    jax, jnp, t = fem.jax, fem.np, case['type']
    dim, deg, law = ref(t).dim, DEGREE[t], case['law']
    vec = dim if law == 'elast' else 1
    a, ph = rng.uniform(.8, 1.3, size=(vec, dim)), rng.uniform(-1, 1, size=vec)
    a, ph = jnp.asarray(a), jnp.asarray(ph)
    u = lambda x: jnp.sin(a @ x * (1.5 if dim == 2 else 1.) + ph)
    ns = {1: [4, 8, 16], 2: [3, 6, 12]}[deg] if dim == 2 else ({1: [2, 4, 8], 2: [2, 4]}[deg] if shape_of(t) == 'HEX' else {1: [2, 4, 8], 2: [2, 4]}[deg])
    E, G = [], []
    for n in ns:
        from .. import meshes
        P, C = meshes.corner_mesh(shape_of(t), [n] * dim, [1.] * dim, None)
        P, C = meshes.elevate(t, P, C)
        if t in ('QUAD4', 'HEX8', 'TRI3', 'TET4', 'QUAD8', 'HEX27', 'HEX20', 'TRI6', 'TET10'):
            P = P @ (np.eye(dim) + np.triu(np.full((dim, dim), .25), 1)).T
        P, C = meshes.renumber(t, P, C, rng)[:2]
        m = meshes.M(t, P, C)
        sd = sides(m)
        kinds = (['D', 'N', 'R', 'D', 'N', 'R'])[:len(sd)]
        order = None if deg == 1 else 4
        p = bvp(fem, zoo, m, u, law, 1., kinds, sd, order, dim, vec, nl=case['nl'])
        sol = np.asarray(fem.solver(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-10}})[0])
        X, W = ref(t).quad(5)
        N, dN = ref(t).N(X), ref(t).dN(X)
        xc = m.points[m.cells]
        J = np.einsum('cni,qnj->cqij', xc, dN)
        w = np.linalg.det(J) * W
        xq = np.einsum('qn,cni->cqi', N, xc)
        g = np.einsum('qnj,cqji->cqni', dN, np.linalg.inv(J))
        uh, gh = np.einsum('qn,cnv->cqv', N, sol[m.cells]), np.einsum('cqni,cnv->cqvi', g, sol[m.cells])
        ue = np.asarray(jax.vmap(jax.vmap(u))(jnp.asarray(xq)))
        ge = np.asarray(jax.vmap(jax.vmap(jax.jacfwd(u)))(jnp.asarray(xq)))
        E.append(np.sqrt(np.sum(w * np.sum((uh - ue) ** 2, -1))))
        G.append(np.sqrt(np.sum(w * np.sum((gh - ge) ** 2, (-1, -2)))))
    r = np.log(ns[-1] / ns[-2])
    l2, h1 = np.log(E[-2] / E[-1]) / r, np.log(G[-2] / G[-1]) / r
    ctx.check(l2 > deg + 1 - .4, 'l2_rate', f'{t} {law}: L2 order {l2:.2f} instead of {deg + 1}, errors {E}')
    ctx.check(h1 > deg - .3, 'h1_rate', f'{t} {law}: H1 order {h1:.2f} instead of {deg}, errors {G}')
