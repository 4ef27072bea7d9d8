"""Independent reference elements, in the documented (meshio = VTK/Abaqus) node order.

Nothing here uses basix or the code under test: node coordinates are written down from the VTK
node-ordering figures, and shape functions are obtained by inverting the monomial Vandermonde matrix.
"""
import numpy as np, itertools, functools

_Q = [(0, 0), (1, 0), (1, 1), (0, 1)]
_H = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
_T = [(0, 0), (1, 0), (0, 1)]
_TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
EDGES = {
    'TRI': [(0, 1), (1, 2), (2, 0)],
    'QUAD': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'TET': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    'HEX': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
FACES = {  # as corner sets
    'TRI': [(0, 1), (1, 2), (2, 0)],
    'QUAD': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'TET': [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)],
    'HEX': [(0, 3, 7, 4), (1, 2, 6, 5), (0, 1, 5, 4), (3, 2, 6, 7), (0, 1, 2, 3), (4, 5, 6, 7)],
}
CORNERS = {'TRI': _T, 'QUAD': _Q, 'TET': _TET, 'HEX': _H}
TYPES = ['QUAD4', 'QUAD8', 'TRI3', 'TRI6', 'HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10']
MESHIO = {'QUAD4': 'quad', 'QUAD8': 'quad8', 'TRI3': 'triangle', 'TRI6': 'triangle6', 'HEX8': 'hexahedron',
          'HEX20': 'hexahedron20', 'HEX27': 'hexahedron27', 'TET4': 'tetra', 'TET10': 'tetra10'}
DEGREE = {'QUAD4': 1, 'QUAD8': 2, 'TRI3': 1, 'TRI6': 2, 'HEX8': 1, 'HEX20': 2, 'HEX27': 2, 'TET4': 1, 'TET10': 2}
VOL = {'TRI': .5, 'QUAD': 1., 'TET': 1. / 6, 'HEX': 1.}


def shape_of(t):
    return t.rstrip('0123456789')


def _exps(t):
    s = shape_of(t)
    if s in ('TRI', 'TET'):
        d = 2 if s == 'TRI' else 3
        return [e for e in itertools.product(range(3), repeat=d) if sum(e) <= DEGREE[t]]
    d = 2 if s == 'QUAD' else 3
    if t in ('QUAD4', 'HEX8'):
        return list(itertools.product(range(2), repeat=d))
    if t == 'HEX27':
        return list(itertools.product(range(3), repeat=d))
    # quadratic serendipity: superlinear degree at most two
    return [e for e in itertools.product(range(3), repeat=d) if sum(x for x in e if x > 1) <= 2]


class Ref:
    def __init__(self, t):
        self.type, self.shape = t, shape_of(t)
        c = np.array(CORNERS[self.shape], float)
        self.dim, self.corners = c.shape[1], c
        nodes = [c]
        if DEGREE[t] == 2:
            nodes.append(np.array([(c[a] + c[b]) / 2 for a, b in EDGES[self.shape]]))
        if t == 'HEX27':
            nodes.append(np.array([c[list(f)].mean(0) for f in FACES['HEX']]))
            nodes.append(c.mean(0)[None])
        self.nodes = np.vstack(nodes)
        self.nn = len(self.nodes)
        self.exps = np.array(_exps(t))
        assert len(self.exps) == self.nn, (t, len(self.exps), self.nn)
        self.C = np.linalg.inv(self._mono(self.nodes))   # N_j = sum_k mono_k C_kj
        self.edges, self.faces = EDGES[self.shape], FACES[self.shape]
        self.ncorner = len(c)
        self.vol = VOL[self.shape]

    def _mono(self, X):
        return np.prod(X[:, None, :] ** self.exps[None], axis=-1)

    def N(self, X):
        return self._mono(np.asarray(X, float)) @ self.C

    def dN(self, X):
        X = np.asarray(X, float)
        out = []
        for d in range(self.dim):
            e = self.exps.copy()
            f = e[:, d].astype(float)
            e[:, d] = np.maximum(e[:, d] - 1, 0)
            out.append((np.prod(X[:, None, :] ** e[None], axis=-1) * f) @ self.C)
        return np.stack(out, axis=-1)      # (npts, nn, dim)

    def quad(self, n=6):
        """Independent high-order rule on the reference cell: (points, weights)."""
        return quad_rule(self.shape, n)

    def face_nodes(self, corners):
        """All local nodes lying on the facet spanned by the given corner nodes."""
        P = self.corners[list(corners)]
        A = P[1:] - P[0]
        on = []
        for i, x in enumerate(self.nodes):
            r = np.linalg.lstsq(A.T, x - P[0], rcond=None)[0]
            if np.allclose(A.T @ r, x - P[0], atol=1e-12):
                on.append(i)
        return on

    def face_normal(self, corners):
        P = self.corners[list(corners)]
        A = P[1:] - P[0]
        n = np.linalg.svd(A)[2][-1]
        if n @ (P.mean(0) - self.corners.mean(0)) < 0:
            n = -n
        return n

    def face_quad(self, corners, n=6):
        """(points in cell coordinates, area weights) on a facet, independent of the code under test."""
        P = self.corners[list(corners)]
        if self.dim == 2:
            x, w = gauss01(n)
            return P[0] + x[:, None] * (P[1] - P[0]), w * np.linalg.norm(P[1] - P[0])
        if len(P) == 3:
            X, W = quad_rule('TRI', n)
            J = np.stack([P[1] - P[0], P[2] - P[0]])
            return P[0] + X @ J, W * np.linalg.norm(np.cross(*J))
        # quadrilateral: order the corners around the face
        d = np.linalg.norm(P - P[0], axis=1)
        k = np.argsort(d)
        a, b = P[k[1]] - P[0], P[k[2]] - P[0]
        X, W = quad_rule('QUAD', n)
        return P[0] + X @ np.stack([a, b]), W * np.linalg.norm(np.cross(a, b))

    @functools.cached_property
    def symmetries(self):
        """Local node permutations that are orientation-preserving symmetries of the reference cell."""
        out = []
        c = self.corners
        m = c.mean(0)
        k = self.dim + 1 if self.shape in ('TRI', 'TET') else None
        for perm in itertools.permutations(range(len(c)), self.dim + 1):
            base = list(range(self.dim + 1)) if k else ([0, 1, 3] if self.dim == 2 else [0, 1, 3, 4])
            A0 = (c[base[1:]] - c[base[0]]).T
            A1 = (c[list(perm[1:])] - c[perm[0]]).T
            if abs(np.linalg.det(A1)) < 1e-9:
                continue
            M = A1 @ np.linalg.inv(A0)
            b = c[perm[0]] - M @ c[base[0]]
            img = self.nodes @ M.T + b
            idx = []
            for x in img:
                d = np.linalg.norm(self.nodes - x, axis=1)
                j = int(np.argmin(d))
                if d[j] > 1e-9:
                    break
                idx.append(j)
            if len(idx) == self.nn and len(set(idx)) == self.nn and np.linalg.det(M) > 0:
                out.append(tuple(idx))
        return sorted(set(out))


def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


@functools.lru_cache(None)
def quad_rule(shape, n):
    x, w = gauss01(n)
    if shape == 'QUAD':
        X = np.array(list(itertools.product(x, x)))
        W = np.array([a * b for a, b in itertools.product(w, w)])
    elif shape == 'HEX':
        X = np.array(list(itertools.product(x, x, x)))
        W = np.array([a * b * c for a, b, c in itertools.product(w, w, w)])
    elif shape == 'TRI':   # collapsed coordinates
        X, W = [], []
        for (a, wa), (b, wb) in itertools.product(zip(x, w), zip(x, w)):
            X.append((a, b * (1 - a))); W.append(wa * wb * (1 - a))
        X, W = np.array(X), np.array(W)
    else:
        X, W = [], []
        for (a, wa), (b, wb), (c, wc) in itertools.product(zip(x, w), zip(x, w), zip(x, w)):
            X.append((a, b * (1 - a), c * (1 - a) * (1 - b))); W.append(wa * wb * wc * (1 - a) ** 2 * (1 - b))
        X, W = np.array(X), np.array(W)
    return X, W


@functools.lru_cache(None)
def ref(t):
    return Ref(t)


def mono_integral(shape, e):
    """Exact integral of x^e over the reference cell."""
    from math import factorial, prod
    if shape in ('QUAD', 'HEX'):
        return prod(1. / (k + 1) for k in e)
    return prod(factorial(k) for k in e) / factorial(sum(e) + len(e))
