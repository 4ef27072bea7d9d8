import numpy as np

PROPERTY = 'C25'
RULE = ('one case = a scalar function and a batch of symmetric matrices with a prescribed spectrum (distinct, exactly repeated, nearly repeated, zero, rank-deficient, wide range; any size 1..5 and '
        'scale), evaluated and differentiated through the library in random and coordinate directions (jvp, jacobian, gradients, inside vmap/jit and with a closed-over field) and compared with the spectral '
        'definition and the divided-difference derivative of the prescribed spectrum. Non-trivial: a derivative was compared for a matrix with two or more eigenvalues.')
REQUIRED = ['value', 'derivative', 'jacobian', 'distinct', 'repeated', 'near_repeated', 'zero_matrix', 'zero_eigenvalue', 'diagonal', 'split_value', 'split_derivative', 'rotation', 'rotation_derivative', 'finite', 'energy_gradient',
            'closed_over', 'batched', 'finite_difference', 'plain_variant', 'structural_tangent', 'signed_spectrum']

# name -> (value, derivative, divided difference evaluated without cancellation)
FN = {
    'id': (lambda x: x, lambda x: np.ones_like(x), lambda a, b: np.ones_like(a + b)),
    'const': (lambda x: 0. * x + 3., lambda x: 0. * x, lambda a, b: 0. * (a + b)),
    'sq': (lambda x: x ** 2, lambda x: 2 * x, lambda a, b: a + b),
    'cube': (lambda x: x ** 3, lambda x: 3 * x ** 2, lambda a, b: a * a + a * b + b * b),
    'exp': (np.exp, np.exp, lambda a, b: np.exp((a + b) / 2) * np.where(a == b, 1., np.sinh((a - b) / 2) / np.where(a == b, 1., (a - b) / 2))),
    'sin': (np.sin, np.cos, lambda a, b: np.cos((a + b) / 2) * np.sinc((a - b) / 2 / np.pi)),
    'sqrt': (np.sqrt, lambda x: .5 / np.sqrt(x), lambda a, b: 1. / (np.sqrt(a) + np.sqrt(b))),
    'log': (np.log, lambda x: 1. / x, lambda a, b: np.where(a == b, 1. / b, np.log1p((a - b) / b) / np.where(a == b, 1., a - b))),
    'inv': (lambda x: 1. / x, lambda x: -1. / x ** 2, lambda a, b: -1. / (a * b)),
    'plus': (lambda x: .5 * (x + np.abs(x)), lambda x: (x > 0) * 1., lambda a, b: np.where(a * b > 0, (a > 0) * 1., (np.maximum(a, 0) - np.maximum(b, 0)) / np.where(a == b, 1., a - b))),
    'minus': (lambda x: .5 * (x - np.abs(x)), lambda x: (x < 0) * 1., lambda a, b: np.where(a * b > 0, (a < 0) * 1., (np.minimum(a, 0) - np.minimum(b, 0)) / np.where(a == b, 1., a - b))),
    'plus2': (lambda x: np.maximum(x, 0.) ** 2, lambda x: 2 * np.maximum(x, 0), lambda a, b: np.where(a * b >= 0, np.maximum(a, 0) + np.maximum(b, 0), np.maximum(a, b) ** 2 / np.where(a * b >= 0, 1., np.abs(a - b)))),
}
POS = ('sqrt', 'log', 'inv')
SPECTRA = ['distinct', 'repeated', 'all_equal', 'near', 'zero_one', 'rank_one', 'opposite', 'diagonal', 'diag_repeated', 'wide', 'roundoff']


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    names = list(FN)
    for k in range(len(names) * (4 if q else 40)):
        out.append({'kind': 'fn', 'fn': names[k % len(names)], 'dim': [3, 2, 3, 5, 3, 1, 4][(k + k // len(names)) % 7], 'scale': float(10. ** rng.uniform(-5, 5))})
    for k in range(8 if q else 80):
        out.append({'kind': 'split', 'dim': [3, 2, 3, 4][k % 4], 'scale': float(10. ** rng.uniform(-8, 6))})
    for k in range(4 if q else 30):
        out.append({'kind': 'tangent', 'dim': 2 + k % 2})
    return out


def spectrum(kind, d, rng, positive):
    lam = rng.uniform(.3, 1., d) * (1. if positive else rng.choice([-1., 1.], d))
    if kind in ('distinct', 'diagonal'):
        lam = (np.arange(1, d + 1) / d + rng.uniform(0, .3 / d, d)) * (1. if positive else rng.choice([-1., 1.], d))
    elif kind in ('repeated', 'diag_repeated') and d > 1:
        lam[1] = lam[0]
    elif kind == 'all_equal':
        lam[:] = lam[0]
    elif kind == 'near' and d > 1:
        lam[1] = lam[0] * (1. + 10. ** rng.uniform(-7, -2))
    elif kind == 'roundoff' and d > 1:
        lam[1] = lam[0] * (1. + 10. ** rng.uniform(-16, -10))
    elif kind == 'zero_one' and not positive:
        lam[0] = 0.
    elif kind == 'rank_one' and not positive:
        lam[1:] = 0.
    elif kind == 'opposite' and d > 1 and not positive:
        lam[1] = -lam[0]
    elif kind == 'wide':
        lam = lam * np.logspace(0, -4, d)
    return lam


def tangent_of(name, lam, Q, V):
    """Directional derivative of Q f(lam) Q' by divided differences, on the symmetric part of V."""
    L = FN[name][2](lam[:, None] + 0. * lam[None], lam[None] + 0. * lam[:, None])
    return Q @ (L * (Q.T @ (.5 * (V + V.T)) @ Q)) @ Q.T


def has_kink(name, lam, s):
    return name in ('plus', 'minus') and np.min(np.abs(lam)) < 1e-7 * max(np.max(np.abs(lam)), 1e-300)


def run_case(ctx, case):
    from .. import fem
    import importlib
    E = importlib.import_module('applications.phase_field_fracture.eigen')
    jax, jnp = fem.jax, fem.np
    rng = np.random.default_rng(case['seed'])
    J = {'id': lambda x: x, 'const': lambda x: 0. * x + 3., 'sq': lambda x: x ** 2, 'cube': lambda x: x ** 3, 'exp': jnp.exp, 'sin': jnp.sin, 'sqrt': jnp.sqrt, 'log': jnp.log,
         'inv': lambda x: 1. / x, 'plus': lambda x: .5 * (x + jnp.abs(x)), 'minus': lambda x: .5 * (x - jnp.abs(x)), 'plus2': lambda x: jnp.maximum(x, 0.) ** 2}
    if case['kind'] == 'fn':
        fn_case(ctx, case, rng, E, jax, jnp, J)
    elif case['kind'] == 'split':
        split_case(ctx, case, rng, E, jax, jnp, J)
    else:
        tangent_case(ctx, case, rng, E, fem, J)


def fn_case(ctx, case, rng, E, jax, jnp, J):
    name, d = case['fn'], case['dim']
    s = case['scale'] if name not in ('exp', 'sin') else float(np.clip(case['scale'], 1e-3, 2.))
    f = E.get_eigen_f_custom(J[name])
    jvp = jax.jit(lambda x, v: jax.jvp(f, (x,), (v,)))
    val = jax.jit(f)
    jac = jax.jit(jax.jacfwd(f))
    for kind in SPECTRA:
        positive = name in POS
        lam = spectrum(kind, d, rng, positive) * s
        diag = kind.startswith('diag')
        Q = np.eye(d)[rng.permutation(d)] if diag else np.linalg.qr(rng.normal(size=(d, d)))[0]
        x = Q @ np.diag(lam) @ Q.T
        x = .5 * (x + x.T)
        a = np.abs(lam)
        if np.any(lam < 0) and np.any(lam > 0):
            ctx.event('signed_spectrum')
        F0 = FN[name][0]
        want = Q @ np.diag(F0(lam)) @ Q.T
        D0 = FN[name][1](lam)
        lip = np.max(np.abs(D0)) + np.abs(FN[name][1](np.array([np.max(a)])))[0] + (1. if name in ('plus', 'minus', 'id') else 0.)
        fs = np.max(np.abs(F0(lam))) + lip * np.max(a)
        got = val(jnp.asarray(x))
        ctx.close(got, want, 'value', rtol=0, atol=1e-12 * fs * d)
        ctx.close(E.get_eigen_f_jax(J[name])(jnp.asarray(x)), want, 'plain_variant', rtol=0, atol=1e-12 * fs * d)
        if has_kink(name, lam, s):
            # the directional derivative of a kink is one-sided: only the invariants of run 'split' apply
            ctx.check(np.all(np.isfinite(jac(jnp.asarray(x)))), 'finite')
            ctx.event('zero_eigenvalue')
            continue
        if np.min(a) == 0. and d > 1:
            ctx.event('zero_eigenvalue')
        ds = fs / max(np.max(a), 1e-300)
        rel = 1e-10
        if kind == 'near':    # the quotient of the two computed eigenvalues carries round-off over their gap
            gap = abs(lam[1] - lam[0]) / np.max(a) if d > 1 else 1.
            rel = max(1e-10, 4e-15 / gap) if d > 1 else rel
        if kind == 'roundoff':
            rel = 1e-6
        if kind == 'wide':
            rel = 1e-9
        Dm = np.max(np.abs(FN[name][2](lam[:, None] + 0 * lam[None], lam[None] + 0 * lam[:, None])))
        allowed = rel * max(ds, Dm)
        dirs = [rng.normal(size=(d, d)) for _ in range(2)]
        dirs[0] = .5 * (dirs[0] + dirs[0].T)
        i, j = rng.integers(d), rng.integers(d)
        e = np.zeros((d, d))
        e[i, j] = e[j, i] = 1.
        dirs += [e, np.eye(d), Q @ np.diag(rng.normal(size=d)) @ Q.T]
        for v in dirs:
            v0, dv = jvp(jnp.asarray(x), jnp.asarray(v))
            ctx.close(v0, want, 'value', rtol=0, atol=1e-12 * fs * d)
            ctx.close(dv, tangent_of(name, lam, Q, v), 'derivative', rtol=0, atol=allowed * np.linalg.norm(v))
            ctx.event({'near': 'near_repeated', 'roundoff': 'near_repeated', 'repeated': 'repeated', 'diag_repeated': 'repeated', 'all_equal': 'repeated', 'diagonal': 'diagonal'}.get(kind, 'distinct'))
        T = np.zeros((d,) * 4)
        for k in range(d):
            for l in range(d):
                e = np.zeros((d, d))
                e[k, l] = 1.
                T[:, :, k, l] = tangent_of(name, lam, Q, e)
        Jg = np.asarray(jac(jnp.asarray(x)))
        ctx.close(Jg, T, 'jacobian', rtol=0, atol=allowed)
        if kind in ('distinct', 'repeated', 'all_equal'):
            ctx.close(jax.jacrev(f)(jnp.asarray(x)), T, 'jacobian', rtol=0, atol=allowed)
            W = rng.normal(size=(d, d))
            g = jax.grad(lambda y: jnp.sum(jnp.asarray(W) * f(y) ** 2))(jnp.asarray(x))
            ctx.close(g, np.einsum('ij,ijkl->kl', 2 * W * want, T), 'energy_gradient', rtol=0, atol=30 * allowed * max(np.max(np.abs(want)), 1e-300) * d)
        if kind == 'distinct' and name not in ('plus', 'minus', 'plus2'):
            v = dirs[0]
            h = 1e-4 * np.min(a)
            fd = (np.asarray(val(jnp.asarray(x + h * v))) - np.asarray(val(jnp.asarray(x - h * v)))) / (2 * h)
            ctx.close(fd, tangent_of(name, lam, Q, v), 'finite_difference', rtol=0, atol=1e-5 * d * max(ds, Dm) * np.linalg.norm(v) ** 3)
        R = np.linalg.qr(rng.normal(size=(d, d)))[0]
        xr = R @ x @ R.T
        ctx.close(val(jnp.asarray(xr)), R @ np.asarray(got) @ R.T, 'rotation', rtol=0, atol=1e-11 * fs * d)
        v = dirs[0]
        _, dr = jvp(jnp.asarray(xr), jnp.asarray(R @ v @ R.T))
        ctx.close(dr, R @ np.asarray(jvp(jnp.asarray(x), jnp.asarray(v))[1]) @ R.T, 'rotation_derivative', rtol=0, atol=3 * max(allowed, 1e-9 * ds if kind in ('near', 'roundoff') else 0.) * np.linalg.norm(v))
    if name not in POS:
        z = jnp.zeros((d, d))
        f0, g0 = float(FN[name][0](np.zeros(1))[0]), FN[name][1](np.zeros(1))[0]
        ctx.close(val(z), f0 * np.eye(d), 'value', rtol=0, atol=1e-13)
        Jz = np.asarray(jac(z))
        ctx.check(np.all(np.isfinite(Jz)), 'finite', 'non-finite derivative at zero')
        I4 = .5 * (np.einsum('ik,jl->ijkl', np.eye(d), np.eye(d)) + np.einsum('il,jk->ijkl', np.eye(d), np.eye(d)))
        if name not in ('plus', 'minus'):
            ctx.close(Jz, g0 * I4, 'zero_matrix', rtol=0, atol=1e-12)
    # a batch, the function closing over a per-item field, as the applications use it
    n = 6
    lam = np.array([spectrum(SPECTRA[k % 3], d, rng, name in POS) for k in range(n)]) * s
    Qs = np.array([np.linalg.qr(rng.normal(size=(d, d)))[0] for _ in range(n)])
    X = np.einsum('nij,nj,nkj->nik', Qs, lam, Qs)
    c = rng.uniform(.2, 2., n)
    V = rng.normal(size=(n, d, d))

    def closed(x, c, v):
        h = E.get_eigen_f_custom(lambda t: c ** 2 * J[name](t))
        return jax.jvp(h, (x,), (v,))
    b0, b1 = jax.jit(jax.vmap(closed))(jnp.asarray(X), jnp.asarray(c), jnp.asarray(V))
    for k in range(n):
        fs = np.max(np.abs(FN[name][0](lam[k]))) + np.max(np.abs(lam[k])) * (np.max(np.abs(FN[name][1](lam[k]))) + 1)
        ctx.close(b0[k], c[k] ** 2 * Qs[k] @ np.diag(FN[name][0](lam[k])) @ Qs[k].T, 'closed_over', rtol=0, atol=1e-11 * c[k] ** 2 * fs)
        ctx.close(b1[k], c[k] ** 2 * tangent_of(name, lam[k], Qs[k], V[k]), 'batched', rtol=0, atol=1e-9 * c[k] ** 2 * fs / np.max(np.abs(lam[k])) * d)


def split_case(ctx, case, rng, E, jax, jnp, J):
    d, s = case['dim'], case['scale']
    fp, fm = E.get_eigen_f_custom(J['plus']), E.get_eigen_f_custom(J['minus'])
    I4 = .5 * (np.einsum('ik,jl->ijkl', np.eye(d), np.eye(d)) + np.einsum('il,jk->ijkl', np.eye(d), np.eye(d)))
    jp, jm = jax.jit(jax.jacfwd(fp)), jax.jit(jax.jacfwd(fm))
    for kind in SPECTRA + ['zero', 'tiny_signs', 'denormal']:
        if kind == 'zero':
            lam = np.zeros(d)
        elif kind == 'tiny_signs':
            lam = np.r_[1., rng.choice([-1, 1], d - 1) * 10. ** rng.uniform(-17, -6, d - 1)]
        elif kind == 'denormal':
            lam = rng.choice([-1., 1.], d) * 1e-150 / s
        else:
            lam = spectrum(kind, d, rng, False)
        lam = lam * s
        Q = np.eye(d) if kind.startswith('diag') else np.linalg.qr(rng.normal(size=(d, d)))[0]
        x = Q @ np.diag(lam) @ Q.T
        x = .5 * (x + x.T)
        p, m = np.asarray(fp(jnp.asarray(x))), np.asarray(fm(jnp.asarray(x)))
        sc = max(np.max(np.abs(lam)), 1e-300)
        ctx.close(p + m, x, 'split_value', rtol=0, atol=1e-13 * sc * d)
        ctx.check(np.linalg.eigvalsh(p).min() >= -1e-13 * sc * d and np.linalg.eigvalsh(m).max() <= 1e-13 * sc * d, 'split_value', 'parts not semi-definite')
        ctx.close(np.trace(p @ m), 0., 'split_value', rtol=0, atol=1e-13 * sc ** 2 * d)
        P, M = np.asarray(jp(jnp.asarray(x))), np.asarray(jm(jnp.asarray(x)))
        ctx.check(np.all(np.isfinite(P)) and np.all(np.isfinite(M)), 'finite', f'{kind}: non-finite split derivative')
        if kind == 'denormal':
            continue
        ctx.close(P + M, I4, 'split_derivative', rtol=0, atol=3e-7 if kind in ('near', 'roundoff', 'tiny_signs') else 1e-11)
        # a convex potential: the plus-derivative lies between 0 and the identity
        A = P.reshape(d * d, d * d)
        w = np.linalg.eigvalsh(.5 * (A + A.T))
        ctx.check(w.min() > -1e-6 and w.max() < 1 + 1e-6, 'split_derivative', f'{kind}: derivative of the positive part has eigenvalues {w.min()}..{w.max()}')
        if kind == 'zero':
            ctx.event('zero_matrix')
        if np.min(np.abs(lam)) == 0:
            ctx.event('zero_eigenvalue')
        # homogeneity: D f(x)[x] = f(x)
        ctx.close(np.einsum('ijkl,kl->ij', P, x), p, 'split_derivative', rtol=0, atol=1e-7 * sc)
        if np.min(np.abs(lam)) > 1e-5 * sc:
            v = rng.normal(size=(d, d))
            ctx.close(np.einsum('ijkl,kl->ij', P, v), tangent_of('plus', lam, Q, v), 'derivative', rtol=0, atol=(1e-6 if kind in ('near', 'roundoff') else 1e-9) * np.linalg.norm(v))


def tangent_case(ctx, case, rng, E, fem, J):
    """The split stress inside a finite element problem: residual tangent at zero and at a random field."""
    from .. import zoo, meshes
    jax, jnp, d = fem.jax, fem.np, case['dim']
    t = 'QUAD4' if d == 2 else 'HEX8'
    m = meshes.make(t, rng, n=[2, 2] if d == 2 else [2, 1, 1])
    mu, lm = 1.3, .7
    phi = rng.uniform(0, .9, size=(len(m.cells), 2 ** d))

    def tensor_map(self):
        def stress(g, q):
            e = .5 * (g + g.T)
            f = E.get_eigen_f_custom(lambda x: 2 * mu * ((1 - q) ** 2 * J['plus'](x) + J['minus'](x)))
            tr = jnp.trace(e)
            return lm * ((1 - q) ** 2 * J['plus'](tr) + J['minus'](tr)) * jnp.eye(d) + f(e)
        return stress
    p = zoo.make(m, 'lin', None, d, None, [], iv=phi, cls_extra={'get_tensor_map': tensor_map})
    fe = p.fes[0]
    kp, km = (float(jax.grad(J[k])(0.)) for k in ('plus', 'minus'))    # derivative at the kink itself is the scalar function's
    G = np.asarray(fe.shape_grads)
    W = np.asarray(fe.JxW)
    for sol in (np.zeros((len(m.points), d)), rng.normal(size=(len(m.points), d)) * .1, m.points @ np.diag([.1] * d)):
        p.newton_update([jnp.asarray(sol)])
        A = _dense(p)
        want = np.zeros_like(A)
        for c, cell in enumerate(m.cells):
            for qd in range(W.shape[1]):
                g = sol[cell].T @ G[c, qd]
                e = .5 * (g + g.T)
                lam, Q = np.linalg.eigh(e)
                deg = (1 - phi[c, qd]) ** 2
                H = np.zeros((d,) * 4)
                small = np.max(np.abs(lam)) < 1e-14
                trd = (deg * kp + km if abs(np.trace(e)) < 1e-14 else (deg if np.trace(e) > 0 else 1.))
                for k in range(d):
                    for l in range(d):
                        v = np.zeros((d, d))
                        v[k, l] = 1.
                        vs = .5 * (v + v.T)
                        if small:
                            H[:, :, k, l] = 2 * mu * (deg * kp + km) * vs
                        else:
                            H[:, :, k, l] = 2 * mu * (deg * tangent_of('plus', lam, Q, v) + tangent_of('minus', lam, Q, v))
                        H[:, :, k, l] += lm * trd * (k == l) * np.eye(d)
                K = np.einsum('ai,uivj,bj->aubv', G[c, qd], H, G[c, qd]) * W[c, qd]
                dofs = (cell[:, None] * d + np.arange(d)).reshape(-1)
                want[np.ix_(dofs, dofs)] += K.reshape(len(dofs), -1)
        ctx.close(A, want, 'structural_tangent', rtol=1e-8)


def _dense(p):
    import scipy.sparse
    return scipy.sparse.coo_matrix((np.asarray(p.V).reshape(-1), (np.asarray(p.I).reshape(-1), np.asarray(p.J).reshape(-1))), shape=(p.num_total_dofs_all_vars,) * 2).toarray()
