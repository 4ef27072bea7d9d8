"""Independent (NumPy) evaluation of weak forms: the oracle for residuals.

Geometry and shape functions come from vmon.refelem; only the *reference* quadrature points and weights
are taken from the code under test (C01 decides those), so both sides integrate with the same rule.
"""
import numpy as np
from .refelem import ref


def quad_points(fe):
    """Reference quadrature points/weights of a library FiniteElement, in cell coordinates."""
    r = ref(fe.ele_type)
    return np.asarray(fe.shape_vals) @ r.nodes, np.asarray(fe.quad_weights)


def face_points(fe, lf):
    r = ref(fe.ele_type)
    return np.asarray(fe.face_shape_vals[lf]) @ r.nodes, np.asarray(fe.face_quad_weights[lf])


def cell_geom(t, points, cells, X, W):
    """N (q,n), dN/dx (c,q,n,d), JxW (c,q), x (c,q,d)"""
    r = ref(t)
    N, G = r.N(X), r.dN(X)
    P = np.asarray(points)[np.asarray(cells)]
    J = np.einsum('cni,qnj->cqij', P, G)
    Ji = np.linalg.inv(J)
    return N, np.einsum('qnj,cqji->cqni', G, Ji), np.linalg.det(J) * W, np.einsum('qn,cni->cqi', N, P)


def face_geom(t, points, cells, faces, X_of, W_of, corners_of):
    """Per selected (cell, local face): N (q,n), dN/dx (q,n,d), dA (q), x (q,d), unit normal (q,d)."""
    r = ref(t)
    out = []
    for c, f in faces:
        X, W = X_of(f), W_of(f)
        N, G = r.N(X), r.dN(X)
        P = np.asarray(points)[np.asarray(cells)[c]]
        J = np.einsum('ni,qnj->qij', P, G)
        Ji = np.linalg.inv(J)
        n = np.einsum('j,qji->qi', r.face_normal(corners_of(f)), Ji)   # J^-T n0
        s = np.linalg.norm(n, axis=1)
        out.append((N, np.einsum('qnj,qji->qni', G, Ji), np.linalg.det(J) * s * W, N @ P, n / s[:, None]))
    return out


def lib_face_corners(fe):
    fi = np.asarray(fe.face_inds).reshape(len(fe.face_inds), -1)
    return lambda f: tuple(int(i) for i in fi[f])


def _vm(form, *args):
    import jax, jax.numpy as jnp
    return jax.vmap(form)(*[jax.tree_util.tree_map(jnp.asarray, a) for a in args])


def residual(prob, ms, sols, cell_form=None, face_forms=(), ivs=(), face_ivs=None, points=None, faces=None):
    """Assembled residual of a problem with variables on meshes ms.

    cell_form(us, grads, x, *iv) -> (sources, fluxes) at one quadrature point (lists, one entry per variable)
    face_forms[k](us, grads, x, *iv) -> sources at one face quadrature point
    faces[k]: list of (cell, local face of the code under test)
    """
    fes = prob.fes
    points = [m.points for m in ms] if points is None else points
    res = [np.zeros_like(np.asarray(s, float)) for s in sols]
    sols = [np.asarray(s, float) for s in sols]
    nv = len(ms)
    if cell_form is not None:
        geo = []
        for i in range(nv):
            X, W = quad_points(fes[i])
            geo.append(cell_geom(ms[i].t, points[i], ms[i].cells, X, W))
        us = [np.einsum('qn,cnv->cqv', geo[i][0], sols[i][ms[i].cells]) for i in range(nv)]
        gs = [np.einsum('cqnd,cnv->cqvd', geo[i][1], sols[i][ms[i].cells]) for i in range(nv)]
        x = geo[0][3]
        nc, nq = x.shape[:2]
        fl = lambda a: np.asarray(a).reshape((nc * nq,) + np.asarray(a).shape[2:])
        S, F = _vm(cell_form, [fl(u) for u in us], [fl(g) for g in gs], fl(x), *[fl(v) for v in ivs])
        for i in range(nv):
            N, dN, JxW, _ = geo[i]
            e = np.zeros((nc, N.shape[1], sols[i].shape[1]))
            if S is not None and S[i] is not None:
                e += np.einsum('cqv,qn,cq->cnv', np.asarray(S[i]).reshape(nc, nq, -1), N, JxW)
            if F is not None and F[i] is not None:
                e += np.einsum('cqvd,cqnd,cq->cnv', np.asarray(F[i]).reshape(nc, nq, sols[i].shape[1], -1), dN, JxW)
            np.add.at(res[i], ms[i].cells.reshape(-1), e.reshape(-1, sols[i].shape[1]))
    for k, form in enumerate(face_forms):
        fl = list(faces[k])
        if not fl:
            continue
        geo = [face_geom(ms[i].t, points[i], ms[i].cells, fl, lambda f, i=i: face_points(fes[i], f)[0],
                         lambda f, i=i: face_points(fes[i], f)[1], lib_face_corners(fes[i])) for i in range(nv)]
        U = [np.concatenate([geo[i][j][0] @ sols[i][ms[i].cells[c]] for j, (c, f) in enumerate(fl)]) for i in range(nv)]
        G = [np.concatenate([np.einsum('qnd,nv->qvd', geo[i][j][1], sols[i][ms[i].cells[c]]) for j, (c, f) in enumerate(fl)])
             for i in range(nv)]
        x = np.concatenate([g[3] for g in geo[0]])
        nq = len(geo[0][0][2])
        iv = [np.asarray(v).reshape((-1,) + np.asarray(v).shape[2:]) for v in (face_ivs[k] if face_ivs else ())]
        S = _vm(form, U, G, x, *iv)
        for i in range(nv):
            if S[i] is None:
                continue
            s = np.asarray(S[i]).reshape(len(fl), nq, -1)
            for j, (c, f) in enumerate(fl):
                N, _, dA = geo[i][j][:3]
                np.add.at(res[i], ms[i].cells[c], np.einsum('qv,qn,q->nv', s[j], N, dA))
    return res


def select_faces(fe, m, node_pred):
    """Expected (cell, local face) pairs: every corner node of the face satisfies node_pred(node)."""
    ok = np.array([bool(node_pred(i)) for i in range(len(m.points))])
    cor = lib_face_corners(fe)
    return [(c, f) for c in range(len(m.cells)) for f in range(len(fe.face_inds)) if all(ok[m.cells[c][list(cor(f))]])]


def bc_rows(res_flat, dofs_flat, bcs, scale=1.):
    """Residual with Dirichlet rows: field minus scaled value.  bcs: list of (dof, value); the last entry wins."""
    r = np.array(res_flat, float)
    for d, v in bcs:
        r[d] = dofs_flat[d] - scale * v
    return r
