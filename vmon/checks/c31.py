import numpy as np

PROPERTY = 'C31'
RULE = ('element and mesh cases: random triangles, sources and grids; assembly cases: a random triangulation is cut into several ranks with random ownership (ghost vertices, ranks that own nothing), every rank runs the per-rank routines on its own DMPlex '
        'part with a recording matrix, and the sum is compared with one serial assembly; driver cases: both drivers run end to end (one process, stand-in mpi4py) on distorted or renumbered grids. Non-trivial: nonzero sources, several ranks with ghosts.')
REQUIRED = ['stiffness', 'load', 'element_invariants', 'grid', 'global_dof', 'linear_driver', 'linear_files', 'linear_error', 'weak_form', 'exact_pair', 'boundary', 'serial_driver', 'serial_error', 'rank_mesh', 'rank_dofs', 'scatter_matrix',
            'scatter_routes', 'scatter_rhs', 'empty_rank', 'ghosts', 'gather', 'rms', 'global_residual', 'global_tangent', 'newton_driver', 'newton_rms', 'same_answer']
ASSUMPTIONS = ['petsc4py here is a sequential build and mpi4py is absent: several ranks are simulated one after another in one process with a recording matrix and communicator; message passing itself is PETSc\'s']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'drive', 'n': [5, 4]}, {'kind': 'drive', 'n': [3, 7], 'rtol': 1e-5}]
    for k in range(3 if q else 30):
        out += [{'kind': 'elem'}, {'kind': 'ranks', 'n': [int(a) for a in rng.integers(2, 6, 2)], 'size': int(rng.integers(2, 6))}]
    out += [{'kind': 'weak', 't': t} for t in (['TRI3', 'TRI6', 'QUAD4', 'QUAD8'] if q else ['TRI3', 'TRI6', 'QUAD4', 'QUAD8'] * 5)]
    if not q:
        out += [{'kind': 'drive', 'n': [int(a) for a in rng.integers(2, 14, 2)]} for _ in range(10)]
    return out


class World:
    """Stand-in for mpi4py's COMM_WORLD: one simulated rank at a time; reductions are recorded and combined by the monitor."""

    def __init__(self):
        self.rank, self.size, self.sent, self.total = 0, 1, [], None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def gather(self, x, root=0):
        return [x]

    def Allreduce(self, a, out, op=None):
        self.sent.append(np.array(a))
        out[...] = a if self.total is None else self.total[len(self.sent) - 1]

    def allreduce(self, a, op=None):
        self.sent.append(a)
        return a if self.total is None else self.total[len(self.sent) - 1]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise NotImplementedError(name)


def load(ctx, rel, world):
    """Definitions of a parallel script from a scratch copy, with the stand-in communicator."""
    import sys, types, os, shutil, time
    import petsc4py
    from petsc4py import PETSc
    from ..core import REPO
    d = os.path.join(ctx.scratch, 'applications', 'parallel')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, os.path.basename(rel))
    shutil.copy(os.path.join(REPO, rel), path)
    mpi = types.ModuleType('mpi4py')
    mpi.MPI = types.SimpleNamespace(COMM_WORLD=world, SUM='sum', Wtime=time.time, Comm=World)
    keep, init, sp = sys.modules.get('mpi4py'), petsc4py.init, list(sys.path)
    sys.modules['mpi4py'] = mpi
    petsc4py.init = lambda *a, **k: None
    g = {'__name__': 'parallel_script', '__file__': path}
    try:
        exec(compile(open(path).read(), path, 'exec'), g)
    finally:
        petsc4py.init = init
        sys.path[:] = sp
        if keep is None:
            del sys.modules['mpi4py']
    g['PETSc'] = Proxy(PETSc, world)
    return g


class Proxy:
    """PETSc with communicator arguments dropped (sequential build)."""

    def __init__(self, P, world):
        self.P, self.world = P, world

    def __getattr__(self, name):
        a = getattr(self.P, name)
        if name in ('DMPlex', 'KSP'):
            return lambda: Maker(a())
        return a


class Maker:
    def __init__(self, o):
        self.o = o

    def create(self, *a, **k):
        return self.o.create()

    def createFromCellList(self, dim, cells, coords, comm=None, **k):
        return self.o.createFromCellList(dim, np.asarray(cells, np.int32), np.asarray(coords, float))

    def __getattr__(self, name):
        return getattr(self.o, name)


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    {'elem': elem, 'ranks': ranks, 'weak': weak, 'drive': drive}[case['kind']](ctx, case, rng, fem, meshes)


def tri_geo(V):
    """Area and barycentric gradients of a triangle from its edges."""
    e = V[[2, 0, 1]] - V[[1, 2, 0]]                    # edge opposite to each vertex
    d = (V[1, 0] - V[0, 0]) * (V[2, 1] - V[0, 1]) - (V[1, 1] - V[0, 1]) * (V[2, 0] - V[0, 0])
    return abs(d) / 2, np.stack([-e[:, 1], e[:, 0]], 1) / d


def elem(ctx, case, rng, fem, meshes):
    w = World()
    g = load(ctx, 'applications/parallel/example.py', w)
    h = load(ctx, 'applications/parallel/poisson_gold.py', w)
    jnp = fem.np
    for _ in range(12):
        V = rng.normal(size=(3, 2)) * 10. ** rng.uniform(-3, 3) + rng.normal(size=2)
        A, G = tri_geo(V)
        hmax = np.max(np.linalg.norm(V - V[[1, 2, 0]], axis=1))
        if A < 1e-2 * hmax ** 2:
            continue
        K = np.asarray(g['element_stiffness'](jnp.asarray(V)))
        ctx.close(K, A * G @ G.T, 'stiffness', rtol=1e-9)
        sc = np.max(np.abs(K))
        p = rng.permutation(3)
        c, s, k = np.cos(1.), np.sin(1.), 10. ** rng.uniform(-2, 2)
        ctx.close(np.asarray(g['element_stiffness'](jnp.asarray(V[p])))[np.ix_(np.argsort(p), np.argsort(p))], K, 'element_invariants', rtol=0, atol=1e-9 * sc)
        ctx.close(g['element_stiffness'](jnp.asarray(k * V @ np.array([[c, -s], [s, c]]))), K, 'element_invariants', rtol=0, atol=1e-8 * sc)
        a, b, c0 = rng.normal(size=3)
        f = lambda x, y: a * x + b * x * y + c0 * jnp.cos(y)
        m = V.mean(0)
        val = a * m[0] + b * m[0] * m[1] + c0 * np.cos(m[1])
        ctx.close(g['element_load'](jnp.asarray(V), f), np.full(3, A * val / 3), 'load', rtol=1e-9)
    for off in (0, 1, 7, -1, -2, -12):
        class Sec:
            def getOffset(self, v):
                return off
        for q in (g['global_dof'], load(ctx, 'applications/parallel/poisson_mpi.py', w)['global_dof']) if off in (7, -1) else (g['global_dof'],):
            ctx.check(int(q(Sec(), 3)) == (off if off >= 0 else -(off + 1)), 'global_dof', f'{off}')
    for mk, kw in ((g['unit_square_triangle_mesh'], {}), (h['unit_square_triangle_mesh'], {}), (g['unit_square_triangle_mesh'], {'lower': (-1., 2.), 'upper': (.5, 5.)})):
        nx, ny = (int(a) for a in rng.integers(1, 7, 2))
        P, C = mk(nx, ny, **kw)
        lo, up = np.array(kw.get('lower', (0., 0.))), np.array(kw.get('upper', (1., 1.)))
        gx, gy = np.meshgrid(np.linspace(lo[0], up[0], nx + 1), np.linspace(lo[1], up[1], ny + 1), indexing='ij')
        want = np.stack([gx.ravel(), gy.ravel()], 1)
        ctx.close(np.array(sorted(np.round(P, 12).tolist())), np.array(sorted(np.round(want, 12).tolist())), 'grid', rtol=0, atol=1e-9)
        d1, d2 = P[C[:, 1]] - P[C[:, 0]], P[C[:, 2]] - P[C[:, 0]]
        area = .5 * (d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0])
        ctx.check(len(C) == 2 * nx * ny and np.allclose(area, np.prod((up - lo) / [nx, ny]) / 2, rtol=1e-9), 'grid', 'triangle areas')
        edges = {}
        for t in C:
            for i in range(3):
                e = (int(t[i]), int(t[(i + 1) % 3]))
                edges[e] = edges.get(e, 0) + 1
        one = [e for e in edges if (e[1], e[0]) not in edges]
        ctx.check(max(edges.values()) == 1 and len(one) == 2 * (nx + ny), 'grid', 'conformity')


def p1(P, C):
    K = np.zeros((len(P), len(P)))
    A = np.zeros(len(C))
    for k, t in enumerate(C):
        A[k], G = tri_geo(P[t])
        K[np.ix_(t, t)] += A[k] * G @ G.T
    return K, A


def on_edge(P):
    return np.any((np.abs(P) < 1e-9) | (np.abs(P - 1) < 1e-9), axis=1)


def rand_grid(rng, n, renumber=True):
    """A distorted triangulation of the unit square with random diagonals and numbering."""
    nx, ny = n
    gx, gy = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(0, 1, ny + 1), indexing='ij')
    P = np.stack([gx.ravel(), gy.ravel()], 1)
    C = []
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = i * (ny + 1) + j, (i + 1) * (ny + 1) + j, (i + 1) * (ny + 1) + j + 1, i * (ny + 1) + j + 1
            C += [[a, b, c], [a, c, d]] if rng.random() < .5 else [[a, b, d], [b, c, d]]
    C = np.array([np.roll(t, rng.integers(3)) for t in C], np.int32)
    inner = ~on_edge(P)
    P[inner] += rng.uniform(-.15, .15, (inner.sum(), 2)) / [nx, ny]
    if renumber:
        p = rng.permutation(len(P))
        Q = np.empty_like(P)
        Q[p] = P
        P, C = Q, p[C].astype(np.int32)[rng.permutation(len(C))]
    return P, C


u_ex = lambda P: np.sin(np.pi * P[:, 0]) * np.sin(np.pi * P[:, 1])


def np_assemble(fe, t, P, C, u):
    """Residual and tangent of -lap u + u^3 = f by own quadrature."""
    from .. import refasm
    X, W = refasm.quad_points(fe)
    N, G, w, x = refasm.cell_geom(t, P, C, X, W)
    s = np.sin(np.pi * x[..., 0]) * np.sin(np.pi * x[..., 1])
    f = 2 * np.pi ** 2 * s + s ** 3
    uq, gq = np.einsum('qn,cn->cq', N, u[C]), np.einsum('cqnd,cn->cqd', G, u[C])
    r = np.zeros(len(P))
    np.add.at(r, C, np.einsum('cqd,cqnd,cq->cn', gq, G, w) + np.einsum('cq,qn,cq->cn', uq ** 3 - f, N, w))
    K = np.zeros((len(P), len(P)))
    np.add.at(K, (C[:, :, None], C[:, None, :]), np.einsum('cqad,cqbd,cq->cab', G, G, w) + np.einsum('cq,qa,qb,cq->cab', 3 * uq ** 2, N, N, w))
    return r, K


def np_newton(fe, P, C):
    b = on_edge(P)
    u = np.zeros(len(P))
    for _ in range(30):
        r, K = np_assemble(fe, 'TRI3', P, C, u)
        r[b] = u[b]
        K[b] = np.eye(len(P))[b]
        d = np.linalg.solve(K, -r)
        u = u + d
        if np.max(np.abs(d)) < 1e-13:
            break
    return u


def weak(ctx, case, rng, fem, meshes):
    """The manufactured problem on any mesh, its exact pair and its boundary conditions."""
    from .. import zoo
    w = World()
    g = load(ctx, 'applications/parallel/poisson_gold.py', w)
    jnp = fem.np
    m = meshes.make(case['t'], rng, n=[3, 2], size=[1., 1.], distort=.2)
    p = g['NonlinearManufacturedPoisson'](fem.mk(m), vec=1, dim=2, ele_type=m.t, dirichlet_bc_info=g['dirichlet_bc_unit_square']())
    for k in range(3):
        u = rng.normal(size=len(m.points)) * [1., 3., .3][k]
        r, K = np_assemble(p.fes[0], m.t, m.points, m.cells, u)
        ctx.close(zoo.flat_residual(p, [u[:, None]]), r, 'weak_form', rtol=1e-9)
        ctx.close(zoo.dense_jacobian(p, [u[:, None]]), K, 'weak_form', rtol=1e-9)
    x = rng.uniform(-1, 2, (20, 2))
    s = u_ex(x)
    ctx.close(g['u_exact'](x[:, 0], x[:, 1]), s, 'exact_pair', rtol=1e-12)
    ctx.close(g['source_f'](x[:, 0], x[:, 1]), 2 * np.pi ** 2 * s + s ** 3, 'exact_pair', rtol=1e-12)
    got = {int(i) for a in p.fes[0].node_inds_list for i in np.asarray(a)}
    ctx.check(got == set(np.nonzero(on_edge(m.points))[0].tolist()), 'boundary', 'constrained nodes')
    ctx.check(all(np.all(np.asarray(v) == 0) for v in p.fes[0].vals_list), 'boundary', 'constrained values')


def put(A, where, v, addv):
    """petsc4py's reading of addv: True or ADD_VALUES adds, None, False or INSERT_VALUES overwrites."""
    if addv is True or (addv is not None and addv is not False and int(addv) == 2):
        np.add.at(A, where, v)
    else:
        A[where] = v


class Mat:
    """A recording matrix of one rank; checks that entries go through the right route."""

    def __init__(self, ctx, n, lo, hi, A=None):
        self.ctx, self.n, self.lo, self.hi = ctx, n, lo, hi
        self.A = np.zeros((n, n)) if A is None else A

    def getSize(self):
        return self.n, self.n

    def getOwnershipRange(self):
        return self.lo, self.hi

    def getLocalSize(self):
        return self.hi - self.lo, self.hi - self.lo

    def setValuesRCV(self, R, C, V, addv=None):
        R, C, V = np.asarray(R), np.asarray(C), np.asarray(V)
        ok = R.ndim == 2 and R.shape[0] == C.shape[0] == V.shape[0] and V.shape[1] == R.shape[1] * C.shape[1]
        self.ctx.check(ok, 'scatter_routes', f'blocks {R.shape} {C.shape} {V.shape}')
        for r, c, v in zip(R, C, V):
            put(self.A, np.ix_(r, c), v.reshape(len(r), len(c)), addv)

    def setValuesCSR(self, I, J, V, addv=None):
        I, J, V = np.asarray(I), np.asarray(J), np.asarray(V)
        self.ctx.check(len(I) == self.hi - self.lo + 1 and I[0] == 0 and I[-1] == len(J) == len(V), 'scatter_routes', 'row pointers')
        for r in range(len(I) - 1):
            put(self.A, (self.lo + r, J[I[r]:I[r + 1]]), V[I[r]:I[r + 1]], addv)

    def setValues(self, R, C, V, addv=None):
        put(self.A, np.ix_(np.ravel(R), np.ravel(C)), np.asarray(V).reshape(np.size(R), np.size(C)), addv)


class Vec:
    def __init__(self, n, a=None):
        self.a = np.zeros(n) if a is None else a

    def setValues(self, i, v, addv=None):
        put(self.a, np.asarray(i).ravel(), np.asarray(v).ravel(), addv)


class Local:
    """One rank's part of the mesh: a real (sequential) DMPlex of its cells, plus the global numbering of a distributed one."""

    def __init__(self, PETSc, P, C, mine, lo, hi):
        cells = C[mine]
        ids = np.unique(cells)
        self.ids = ids
        self.dm = PETSc.DMPlex().createFromCellList(2, np.searchsorted(ids, cells).astype(np.int32), P[ids])
        self.dm.setUp()
        self.v0, self.v1 = self.dm.getDepthStratum(0)
        self.csec, self.carr = self.dm.getCoordinateSection(), np.array(self.dm.getCoordinatesLocal().array_r)
        self.P, self.lo, self.hi = P, lo, hi
        xy = np.array([self.carr[self.csec.getOffset(v):self.csec.getOffset(v) + 2] for v in range(self.v0, self.v1)])
        self.gid = np.array([ids[np.argmin(np.sum((P[ids] - q) ** 2, 1))] for q in xy])      # global dof = global vertex here
        outer = self

        class Sec:
            def getOffset(s, v):
                i = int(outer.gid[v - outer.v0])
                return i if outer.lo <= i < outer.hi else -(i + 1)
        self.sec = Sec()


def ranks(ctx, case, rng, fem, meshes):
    from petsc4py import PETSc
    from jax.flatten_util import ravel_pytree
    jnp = fem.np
    w = World()
    g = load(ctx, 'applications/parallel/poisson_mpi.py', w)
    n, size = case['n'], case['size']
    P, C = rand_grid(rng, n)
    nv = len(P)
    w.size = size
    # ownership of cells and of contiguous dof ranges; ranks may own no vertex at all although they have cells
    cell_rank = rng.integers(0, size, len(C))
    cell_rank[rng.permutation(len(C))[:size]] = np.arange(size)
    cut = np.sort(rng.integers(0, nv + 1, size - 1))
    if size > 2:
        cut[rng.integers(1, size - 1)] = cut[0] if size == 3 else cut[1]
        cut = np.sort(cut)
    cut = np.concatenate([[0], cut, [nv]])
    u = rng.normal(size=nv)
    b = on_edge(P)
    total, rhs, parts = np.zeros((nv, nv)), np.zeros(nv), []
    raw, rawsum = np.zeros((nv, nv)), np.zeros((nv, nv))
    ref_r, ref_K, fe = None, None, None
    for k in range(size):
        w.rank = k
        L = Local(PETSc, P, C, cell_rank == k, cut[k], cut[k + 1])
        parts.append(L)
        mesh, gd = g['build_local_mesh_from_dm'](L.dm, L.sec, L.csec, L.carr)
        gd = np.asarray(gd)
        ctx.close(np.asarray(mesh.points)[:, :2], P[gd], 'rank_mesh', rtol=0, atol=1e-12)
        same = lambda T: sorted(tuple(sorted(int(i) for i in t)) for t in T)
        ctx.check(same(gd[np.asarray(mesh.cells)]) == same(C[cell_rank == k]), 'rank_mesh', 'cells')
        ctx.check(len(set(gd.tolist())) == len(gd) == len(L.ids) and np.array_equal(np.sort(gd), L.ids), 'rank_dofs', 'global dofs of the local mesh')
        ctx.event('ghosts', int(np.any((gd < cut[k]) | (gd >= cut[k + 1]))))
        if cut[k] == cut[k + 1]:
            ctx.event('empty_rank')
        # arbitrary triplets (duplicates, explicit zeros) from this rank
        m = int(rng.integers(0, 60))
        I, J, V = rng.integers(0, nv, m), rng.integers(0, nv, m), rng.normal(size=m) * (rng.random(m) < .9)
        M = Mat(ctx, nv, cut[k], cut[k + 1])
        g['scatter_global_coo'](M, I, J, V, timers={} if rng.random() < .5 else None)
        one = np.zeros((nv, nv))
        np.add.at(one, (I, J), V)
        ctx.close(M.A, one, 'scatter_matrix', rtol=0, atol=1e-13)
        raw += one
        rawsum += M.A
        # this rank's share of one Newton step
        p = g['NonlinearManufacturedPoisson'](mesh, vec=1, dim=2, ele_type='TRI3', dirichlet_bc_info=g['dirichlet_bc_unit_square']())
        sol = [jnp.asarray(u[gd])[:, None]]
        res = ravel_pytree(p.newton_update(sol))[0]
        v = Vec(nv)
        g['scatter_rhs_vec'](v, gd, np.asarray(res))
        chk = np.zeros(nv)
        np.add.at(chk, gd, np.asarray(res))
        ctx.close(v.a, chk, 'scatter_rhs', rtol=1e-13)
        g['scatter_rhs_vec'](Vec(nv, rhs), gd, np.asarray(res))
        g['scatter_global_coo'](Mat(ctx, nv, cut[k], cut[k + 1], total), gd[np.asarray(p.I)], gd[np.asarray(p.J)], p.V)
        fe = p.fes[0]
    r, K = np_assemble(fe, 'TRI3', P, C, u)
    ctx.close(rhs, r, 'global_residual', rtol=1e-9)
    ctx.close(total, K, 'global_tangent', rtol=1e-9)
    # gathering owned values: every rank's contribution summed is the whole vector
    x = rng.normal(size=nv)

    class X:
        def __init__(s, a):
            s.array_r = s.array = a
    acc = np.zeros(nv)
    have = np.zeros(nv, bool)
    for k, L in enumerate(parts):
        w.rank, w.sent, w.total = k, [], None
        out = g['gather_owned_nodal_values'](X(x[cut[k]:cut[k + 1]].copy()), L.sec, L.v0, L.v1, cut[k], cut[k + 1], nv, w)
        acc += w.sent[0]
        ids = np.array([i for i in L.gid if cut[k] <= i < cut[k + 1]], int)
        have[ids] = True
        one = np.zeros(nv)
        one[ids] = x[ids]
        ctx.close(w.sent[0], one, 'gather', rtol=0)
        w.total, w.sent = [2 * x], []
        out = g['gather_owned_nodal_values'](X(x[cut[k]:cut[k + 1]].copy()), L.sec, L.v0, L.v1, cut[k], cut[k + 1], nv, w)
        ctx.close(out, 2 * x, 'gather', rtol=0)
        w.total = None
    ctx.close(acc[have], x[have], 'gather', rtol=0)
    # error over owned vertices: local sums combine to the root mean square
    e = x - u_ex(P)
    sums, owned = [], set()
    one = lambda k, L: g['rms_versus_u_exact_on_owned_vertices'](w, L.dm, L.sec, L.csec, L.carr, L.v0, L.v1, cut[k], cut[k + 1], x[cut[k]:cut[k + 1]])
    for k, L in enumerate(parts):
        w.rank, w.sent = k, []
        own = sorted({int(i) for i in L.gid if cut[k] <= i < cut[k + 1]})
        owned |= set(own)
        want = np.sqrt(np.mean(e[own] ** 2)) if own else 0.
        ctx.close(one(k, L), want, 'rms', rtol=1e-10, atol=1e-14)
        sums.append(w.sent)
    w.total = [sum(a) for a in zip(*sums)]                                   # what every rank receives
    for k, L in enumerate(parts):
        w.rank, w.sent = k, []
        ctx.close(one(k, L), np.sqrt(np.mean(e[sorted(owned)] ** 2)) if owned else 0., 'rms', rtol=1e-10, atol=1e-14)
    w.total = None


def number(text, pattern):
    import re
    k = re.search(pattern + r'[^\n]*?([0-9]\.[0-9]+e[-+][0-9]+)', text)
    return float(k.group(1)) if k else None


def run_main(g):
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g['main']()
    return out.getvalue()


def drive(ctx, case, rng, fem, meshes):
    import os, meshio
    from petsc4py import PETSc
    import jax_fem.solver as S
    nx, ny = case['n']
    w = World()
    opts = PETSc.Options()
    keys = {'ksp_rtol': '1e-13', 'ksp_max_it': '5000'}
    # ---- linear driver
    P, C = rand_grid(rng, case['n'])
    g = load(ctx, 'applications/parallel/example.py', w)
    g['unit_square_triangle_mesh'] = lambda *a, **k: (P.copy(), C.copy())
    seen = {}
    save = g['save_poisson_vtu']

    def spy(coords, cells, u, path, *a, **k):
        seen.update(u=np.array(u), path=path, coords=np.array(coords), cells=np.array(cells), a=a, k=k)
        return save(coords, cells, u, path, *a, **k)
    g['save_poisson_vtu'] = spy
    for k, v in keys.items():
        opts.setValue(k, v)
    try:
        text = run_main(g)
    finally:
        for k in keys:
            opts.delValue(k)
    K, A = p1(P, C)
    f = np.zeros(len(P))
    cen = P[C].mean(1)
    np.add.at(f, C, np.repeat((A * 2 * np.pi ** 2 * u_ex(cen) / 3)[:, None], 3, 1))
    b = on_edge(P)
    K[b] = np.eye(len(P))[b]
    f[b] = 0
    want = np.linalg.solve(K, f)
    if not ctx.check('u' in seen, 'linear_files', 'nothing was written'):
        return
    ctx.close(seen['u'], want, 'linear_driver', rtol=1e-8)
    e = number(text, 'error')
    if e is not None:
        ctx.close(e, np.sqrt(np.mean((want - u_ex(P)) ** 2)), 'linear_error', rtol=6e-3)
    M = meshio.read(seen['path'])
    ctx.close(M.points[:, :2], P, 'linear_files', rtol=0, atol=1e-12)
    ctx.check(np.array_equal(M.cells_dict['triangle'], C), 'linear_files', 'cells')
    ctx.close(np.ravel(M.point_data['u']), want, 'linear_files', rtol=1e-6)
    ctx.close(np.ravel(M.point_data['u_exact']), u_ex(P), 'linear_files', rtol=1e-6)
    ctx.close(np.ravel(M.point_data['u_error']), want - u_ex(P), 'linear_files', rtol=0, atol=1e-6)
    ctx.check(np.all(M.point_data['owner_rank'] == 0) and np.all(M.cell_data['partition'][0] == 0), 'linear_files', 'ranks')
    u, own, part = rng.normal(size=len(P)), rng.integers(0, 5, len(P)), rng.integers(0, 5, len(C))
    q = os.path.join(ctx.scratch, 'o', 'x.vtu')
    save(P, C, u, q, cell_partition=part, point_owner_rank=own)
    M = meshio.read(q)
    ctx.close(np.ravel(M.point_data['u']), u, 'linear_files', rtol=1e-6)
    ctx.check(np.array_equal(np.ravel(M.point_data['owner_rank']).astype(int), own) and np.array_equal(np.ravel(M.cell_data['partition'][0]).astype(int), part), 'linear_files', 'rank data')
    # ---- nonlinear drivers, serial and distributed, on the same renumbered distorted grid
    h = load(ctx, 'applications/parallel/poisson_gold.py', w)
    h['GRID_NX'], h['GRID_NY'] = nx, ny
    h['unit_square_triangle_mesh'] = lambda *a, **k: (P.copy(), C.copy())
    probs, sols = [], []
    orig = h['solver']

    def spy_solver(p, *a, **k):
        probs.append(p)
        sols.append(orig(p, *a, **k))
        return sols[-1]
    h['solver'] = spy_solver
    text = run_main(h)
    if not ctx.check(len(sols) == 1, 'serial_driver', 'one solve expected'):
        return
    ref = np_newton(probs[0].fes[0], P, C)
    us = np.asarray(sols[0][0])[:, 0]
    ctx.close(us, ref, 'serial_driver', rtol=1e-6)
    e = number(text, 'error')
    if e is not None:
        ctx.close(e, np.sqrt(np.mean((ref - u_ex(P)) ** 2)), 'serial_error', rtol=2e-3)
    else:
        ctx.event('serial_error')
    d = load(ctx, 'applications/parallel/poisson_mpi.py', w)
    d['GRID_NX'], d['GRID_NY'], d['KSP_RTOL'] = nx, ny, case.get('rtol', 1e-11)
    d['unit_square_triangle_mesh'] = lambda *a, **k: (P.copy(), C.copy())
    rms = d['rms_versus_u_exact_on_owned_vertices']
    got = {}

    def spy_rms(comm, dm, gs, cs, ca, v0, v1, r0, r1, xloc):
        got['xy'] = np.array([ca[cs.getOffset(v):cs.getOffset(v) + 2] for v in range(v0, v1)])
        got['u'] = np.array([xloc[d['global_dof'](gs, v) - r0] for v in range(v0, v1)])
        got['rms'] = rms(comm, dm, gs, cs, ca, v0, v1, r0, r1, xloc)
        return got['rms']
    d['rms_versus_u_exact_on_owned_vertices'] = spy_rms
    text = run_main(d)
    if not ctx.check('u' in got, 'newton_driver', 'no result'):
        return
    ids = np.array([int(np.argmin(np.sum((P - q) ** 2, 1))) for q in got['xy']])
    ctx.check(np.array_equal(np.sort(ids), np.arange(len(P))), 'newton_driver', 'vertices')
    loose = 1e3 if case.get('rtol') else 1.
    ctx.close(got['u'], ref[ids], 'newton_driver', rtol=1e-7 * loose)
    ctx.close(got['rms'], np.sqrt(np.mean((ref - u_ex(P)) ** 2)), 'newton_rms', rtol=1e-6 * loose)
    ctx.close(got['u'], us[ids], 'same_answer', rtol=1e-6 * loose)
