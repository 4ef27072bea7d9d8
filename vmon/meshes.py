"""Random conforming meshes for all element types, independent of the code under test."""
import numpy as np
from .refelem import ref, shape_of, DEGREE

_KUHN = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def _grid(dim, n, size):
    axes = [np.linspace(0, s, k + 1) for k, s in zip(n, size)]
    P = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, dim)
    idx = np.arange(len(P)).reshape([k + 1 for k in n])
    if dim == 2:
        a = idx[:-1, :-1]; b = idx[1:, :-1]; c = idx[1:, 1:]; d = idx[:-1, 1:]
        C = np.stack([a, b, c, d], -1).reshape(-1, 4)
    else:
        s = [slice(None, -1), slice(1, None)]
        off = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
        C = np.stack([idx[s[i], s[j], s[k]] for i, j, k in off], -1).reshape(-1, 8)
    return P, C


def corner_mesh(shape, n, size, rng=None):
    dim = 2 if shape in ('QUAD', 'TRI') else 3
    P, C = _grid(dim, n, size)
    if shape == 'TRI':
        T = []
        for q in C:
            if rng is not None and rng.random() < .5:
                T += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
            else:
                T += [(q[0], q[1], q[3]), (q[1], q[2], q[3])]
        C = np.array(T)
    elif shape == 'TET':
        C = np.array([[h[i] for i in t] for h in C for t in _KUHN])
        X = P[C]
        det = np.linalg.det(X[:, 1:] - X[:, :1])
        assert np.all(det > 0)
    return P, C


def elevate(t, P, C):
    """Add mid-edge (and face, centre) nodes of element type t to a corner mesh."""
    r = ref(t)
    if DEGREE[t] == 1:
        return P.copy(), C.copy()
    key2id, pts, cells = {}, list(P), []
    for c in C:
        row = list(c)
        groups = [tuple(c[list(e)]) for e in r.edges]
        if t == 'HEX27':
            groups += [tuple(c[list(f)]) for f in r.faces] + [tuple(c)]
        for g in groups:
            k = tuple(sorted(int(x) for x in g))
            if k not in key2id:
                key2id[k] = len(pts)
                pts.append(P[list(k)].mean(0))
            row.append(key2id[k])
        cells.append(row)
    return np.array(pts), np.array(cells)


def detJ(t, P, C, n=4):
    r = ref(t)
    X = np.vstack([r.quad(n)[0], r.nodes])
    G = r.dN(X)
    J = np.einsum('cni,qnj->cqij', P[C], G)
    return np.linalg.det(J)


def random_rotation(rng, dim):
    Q, R = np.linalg.qr(rng.normal(size=(dim, dim)))
    Q = Q * np.sign(np.diag(R))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


class M:
    """A mesh with the bookkeeping oracles need: points, cells, type, boundary faces."""

    def __init__(self, t, points, cells):
        self.t, self.points, self.cells = t, np.asarray(points, float), np.asarray(cells, int)
        self.ref = ref(t)
        self.dim = self.ref.dim

    def faces(self):
        """dict: sorted global corner tuple -> list of (cell, facet corner tuple)"""
        out = {}
        for ci, c in enumerate(self.cells):
            for f in self.ref.faces:
                out.setdefault(tuple(sorted(int(c[i]) for i in f)), []).append((ci, f))
        return out

    def boundary_faces(self):
        return {k: v[0] for k, v in self.faces().items() if len(v) == 1}

    def boundary_nodes(self):
        s = set()
        for ci, f in self.boundary_faces().values():
            s.update(int(self.cells[ci][i]) for i in self.ref.face_nodes(f))
        return np.array(sorted(s))

    def volume(self, n=6):
        X, W = self.ref.quad(n)
        J = np.einsum('cni,qnj->cqij', self.points[self.cells], self.ref.dN(X))
        return float(np.sum(np.linalg.det(J) * W))


def make(t, rng, n=None, size=None, distort=.18, curved=0., move=False, permute=True, shift_scale=1.):
    """A random conforming mesh of type t with positive Jacobians.

    distort: corner nodes moved by up to distort*h;  curved: non-corner nodes moved by up to curved*h
    move: random rigid motion;  permute: random node numbering, cell order and local orientation
    """
    shape = shape_of(t)
    dim = ref(t).dim
    if n is None:
        n = rng.integers(1, 4, size=dim) if dim == 2 else rng.integers(1, 3, size=dim)
    if size is None:
        size = rng.uniform(.5, 2., size=dim)
    h = np.min(np.asarray(size) / np.asarray(n))
    for attempt in range(40):
        P, C = corner_mesh(shape, n, size, rng)
        f = .7 ** attempt
        P = P + rng.uniform(-1, 1, size=P.shape) * distort * h * f
        nc = len(P)
        P, C = elevate(t, P, C)
        if curved and DEGREE[t] == 2:
            P[nc:] += rng.uniform(-1, 1, size=P[nc:].shape) * curved * h * f
        d = detJ(t, P, C)
        m = np.abs(d).mean(axis=1, keepdims=True)
        if np.all(d > .12 * m):
            break
    else:
        raise AssertionError('could not make a valid mesh')
    if move:
        Q = random_rotation(rng, dim)
        P = P @ Q.T * shift_scale + rng.uniform(-3, 3, size=dim)
    if permute:
        P, C = renumber(t, P, C, rng)[:2]
    return M(t, P, C)


def renumber(t, P, C, rng, local=True):
    """Random node numbering, cell order, local rotations. Returns (points, cells, node_map old->new, cell_order)."""
    perm = rng.permutation(len(P))           # new index of old node
    P2 = np.empty_like(P)
    P2[perm] = P
    order = rng.permutation(len(C))
    C2 = perm[C[order]]
    if local:
        syms = ref(t).symmetries
        C2 = np.array([c[list(syms[rng.integers(len(syms))])] for c in C2])
    return P2, C2, perm, order
