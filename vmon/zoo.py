"""Problems of many kinds, built through the public API (Problem subclasses), with the matching reference forms."""
import numpy as onp
from .fem import jax, np, Problem, mk, onp as _o
from . import refasm


# --- material laws (pure functions; used by both sides: they are the *user's* maps, not code under test)
def flux_law(kind, dim):
    I = np.eye(dim)
    if kind == 'lin':
        return lambda g, k=1.: k * g
    if kind == 'aniso':
        K = np.asarray(onp.eye(dim) * 2 + onp.array([[0., .7, .3], [-.4, 0., .2], [.1, -.5, 0.]])[:dim, :dim])
        return lambda g, k=1.: k * g @ K
    if kind == 'nl':
        return lambda g, k=1.: k * (1. + np.sum(g * g)) * g
    if kind == 'elast':
        def f(g, k=1.):
            e = .5 * (g + g.T)
            return k * (.8 * np.trace(e) * I + 2 * .6 * e)
        return f
    if kind == 'neo':
        def f(g, k=1.):
            F = g + I
            J = np.linalg.det(F)
            Fi = np.linalg.inv(F).T
            return k * (1. * (F - Fi) + .9 * np.log(J) * Fi)
        return f
    raise KeyError(kind)


def source_law(kind, vec):
    w = np.asarray(onp.linspace(1., 2., vec))
    if kind is None:
        return None
    if kind == 'f':           # load only
        return lambda u, x, k=1.: -w * np.sin(1.3 * x[0] + .4 * x[-1] + w)
    if kind == 'react':
        return lambda u, x, k=1.: 1.5 * u - w * np.cos(x[0] - x[-1])
    if kind == 'nlreact':
        return lambda u, x, k=1.: u + .5 * u ** 3 - w * np.cos(2 * x[0] + x[-1])
    raise KeyError(kind)


def surf_law(kind, vec):
    w = np.asarray(onp.linspace(.5, 1.5, vec))
    if kind == 'flux':
        return lambda u, x, *h: -w * (1. + x[0] * x[-1]) * (h[0] if h else 1.)
    if kind == 'robin':
        return lambda u, x, *h: (h[0] if h else 2.) * (u - w * np.cos(x[0]))
    if kind == 'nlrobin':
        return lambda u, x, *h: (h[0] if h else 1.) * (u ** 3 + u - w)
    raise KeyError(kind)


def in_ids(ids):
    """Two-argument location function selecting nodes by index."""
    a = np.asarray(onp.asarray(sorted(int(i) for i in ids), dtype=onp.int64)) if len(ids) else None
    if a is None:
        return lambda point, ind: ind < 0
    return lambda point, ind: np.any(ind == a)


def bc_info(bcs):
    """bcs: list of (node ids, component, value fn or number)."""
    if bcs is None:
        return None
    vf = [v if callable(v) else (lambda p, v=v: v) for _, _, v in bcs]
    return [[in_ids(i) for i, _, _ in bcs], [c for _, c, _ in bcs], vf]


def bc_dofs(bcs, points, vec, offset=0):
    """Reference Dirichlet dofs in listing order: [(dof, value)]; the last one for a dof wins."""
    d = {}
    for ids, c, v in bcs or ():
        for i in sorted(int(k) for k in ids):
            d[offset + i * vec + c] = float(v(np.asarray(points[i]))) if callable(v) else float(v)
    return sorted(d.items())


def make(m, flux='lin', source=None, vec=1, bcs=None, surfs=(), iv=None, siv=None, universal=False, cls_extra=None, points=None, **kw):
    """A single-variable problem. surfs: list of (node ids, law kind). iv: (nc,nq) array scaling the flux, or None.

    siv: list (per surface) of lists of (nf,nfq) arrays, or None.  Returns the Problem.
    """
    d = {}
    fl, so = (flux_law(flux, m.dim) if flux else None), source_law(source, vec)
    sl = [surf_law(k, vec) for _, k in surfs]

    def custom_init(self):
        if iv is not None:
            self.internal_vars = [np.asarray(iv)]
        if siv is not None:
            self.internal_vars_surfaces = [[np.asarray(a) for a in s] for s in siv]
    d['custom_init'] = custom_init
    if not universal:
        if fl is not None:
            d['get_tensor_map'] = lambda self: fl
        if so is not None:
            d['get_mass_map'] = lambda self: so
        if surfs:
            d['get_surface_maps'] = lambda self: sl
    else:
        d.update(universal_methods(lambda us, gs, x, *k: ([so(us[0], x, *k)] if so else [None], [fl(gs[0], *k)] if fl else [None]),
                                   [lambda us, gs, x, *k, s=s: [s(us[0], x, *k)] for s in sl]))
    d.update(cls_extra or {})
    C = type('Zoo', (Problem,), d)
    mesh = mk(m)
    return C(mesh, vec=vec, dim=m.dim, ele_type=m.t, dirichlet_bc_info=bc_info(bcs),
             location_fns=[in_ids(i) for i, _ in surfs] if surfs else None, **kw)


def universal_methods(cell_form, face_forms=()):
    """Universal kernels (documented kernel signature) evaluating a form given per quadrature point."""
    def get_universal_kernel(self):
        def kernel(cell_sol_flat, x, cell_shape_grads, cell_JxW, cell_v_grads_JxW, *ivs):
            sols = self.unflatten_fn_dof(cell_sol_flat)
            cs = self.num_nodes_cumsum
            us, gs = [], []
            for i, s in enumerate(sols):
                us.append(np.einsum('qn,nv->qv', np.asarray(self.fes[i].shape_vals), s))
                gs.append(np.einsum('qnd,nv->qvd', cell_shape_grads[:, cs[i]:cs[i + 1], :], s))
            S, F = jax.vmap(cell_form)(us, gs, x, *ivs)
            out = []
            for i, s in enumerate(sols):
                e = np.zeros_like(s)
                if S is not None and S[i] is not None:
                    e = e + np.einsum('qv,qn,q->nv', S[i], np.asarray(self.fes[i].shape_vals), cell_JxW[i])
                if F is not None and F[i] is not None:
                    e = e + np.einsum('qvd,qnd->nv', F[i], cell_v_grads_JxW[:, cs[i]:cs[i + 1], 0, :])
                out.append(e)
            return jax.flatten_util.ravel_pytree(out)[0]
        return kernel

    def get_universal_kernels_surface(self):
        def mkk(form):
            def kernel(cell_sol_flat, x, face_shape_vals, face_shape_grads, face_nanson_scale, *ivs):
                sols = self.unflatten_fn_dof(cell_sol_flat)
                cs = self.num_nodes_cumsum
                us = [np.einsum('qn,nv->qv', face_shape_vals[:, cs[i]:cs[i + 1]], s) for i, s in enumerate(sols)]
                gs = [np.einsum('qnd,nv->qvd', face_shape_grads[:, cs[i]:cs[i + 1], :], s) for i, s in enumerate(sols)]
                S = jax.vmap(form)(us, gs, x, *ivs)
                out = [np.zeros_like(s) if S[i] is None else
                       np.einsum('qv,qn,q->nv', S[i], face_shape_vals[:, cs[i]:cs[i + 1]], face_nanson_scale[i])
                       for i, s in enumerate(sols)]
                return jax.flatten_util.ravel_pytree(out)[0]
            return kernel
        return [mkk(f) for f in face_forms]
    d = {}
    if cell_form is not None:
        d['get_universal_kernel'] = get_universal_kernel
    if face_forms:
        d['get_universal_kernels_surface'] = get_universal_kernels_surface
    return d


def make_multi(ms, vecs, cell_form=None, face_forms=(), bcs=None, surf_ids=(), ivs=None, siv=None, order=None, cls_extra=None):
    """Multi-variable problem with universal kernels. bcs: list (per variable) of bc lists."""
    d = universal_methods(cell_form, face_forms)

    def custom_init(self):
        if ivs is not None:
            self.internal_vars = [np.asarray(v) for v in ivs]
        if siv is not None:
            self.internal_vars_surfaces = [[np.asarray(a) for a in s] for s in siv]
    d['custom_init'] = custom_init
    d.update(cls_extra or {})
    C = type('ZooMulti', (Problem,), d)
    n = len(ms)
    return C([mk(m) for m in ms], vec=list(vecs), dim=ms[0].dim, ele_type=[m.t for m in ms],
             quadrature_order=[order] * n, quadrature_rule=[None] * n,
             dirichlet_bc_info=[bc_info(b) for b in bcs] if bcs is not None else [None] * n,
             location_fns=[in_ids(i) for i in surf_ids] if surf_ids else None)


def flat_residual(prob, sols):
    return onp.concatenate([onp.asarray(r).reshape(-1) for r in prob.compute_residual([np.asarray(s) for s in sols])])


def dense_jacobian(prob, sols):
    """Derivative of the library's own residual (forward mode), dense."""
    x, unf = jax.flatten_util.ravel_pytree([np.asarray(s, dtype=float) for s in sols])
    f = lambda v: jax.flatten_util.ravel_pytree(prob.compute_residual(unf(v)))[0]
    return onp.array(jax.jacfwd(f)(x))


def small_mesh(t, rng, tiny=False, **kw):
    """A mesh small enough for dense oracles."""
    from . import meshes
    from .refelem import ref
    dim = ref(t).dim
    n = rng.integers(1, 3 if tiny or t in ('HEX20', 'HEX27', 'TET10') else (4 if dim == 2 else 3), size=dim)
    if t in ('HEX27', 'HEX20'):
        n = onp.array([1, 1, 2])[rng.permutation(3)]
    if t == 'TET10' or t == 'TET4':
        n = onp.array([1, 1, int(rng.integers(1, 3))])[rng.permutation(3)]
    return meshes.make(t, rng, n=n, **kw)


def split_boundary(m, rng, frac=.5):
    """Boundary faces split in two connected-ish groups: returns (nodes of Dirichlet part, corner nodes of the rest)."""
    bf = m.boundary_faces()
    ks = sorted(bf)
    d = rng.normal(size=m.dim)
    cen = onp.array([m.points[list(k)].mean(0) for k in ks]) @ d
    cut = onp.quantile(cen, frac)
    dn, rest = set(), set()
    for k, c in zip(ks, cen):
        ci, f = bf[k]
        if c <= cut:
            dn.update(int(m.cells[ci][i]) for i in m.ref.face_nodes(f))
        else:
            rest.update(k)
    return sorted(dn), sorted(rest)


def step_budget(n=60):
    """Class attributes that count tangent evaluations and stop a solve that takes absurdly many."""
    from .core import StepBudgetExceeded

    def newton_update(self, sol_list):
        self._vmon_n = getattr(self, '_vmon_n', 0) + 1
        if self._vmon_n > n:
            raise StepBudgetExceeded(f'more than {n} tangent evaluations')
        return Problem.newton_update(self, sol_list)
    return {'newton_update': newton_update}


def dense_solve(A, b):
    import scipy.sparse.linalg as sl
    from .fem import csr
    return sl.spsolve(csr(A).tocsc(), onp.asarray(b))


class Recorder:
    """A user-supplied linear solver that records what it was given and returned."""

    def __init__(self, fn=None, limit=60):
        self.fn, self.limit, self.calls = fn or dense_solve, limit, []

    def __call__(self, A, b, x0, opts):
        from .core import StepBudgetExceeded
        from .fem import csr
        if len(self.calls) >= self.limit:
            raise StepBudgetExceeded(f'more than {self.limit} linear solves')
        x = self.fn(A, b)
        self.calls.append(dict(A=csr(A), b=onp.array(b), x0=None if x0 is None else onp.array(x0), opts=opts, x=onp.array(x)))
        return x


def full_residual(prob, dofs, bcd, split):
    """Library residual with the oracle's own Dirichlet rows. split(flat) -> list of fields; bcd: [(dof, value)]"""
    r = flat_residual(prob, split(onp.asarray(dofs)))
    for k, v in bcd:
        r[k] = dofs[k] - v
    return r
