import os
import numpy as np
from .. import meshes
from ..refelem import ref, DEGREE, shape_of

PROPERTY = 'C19'
RULE = ('one case = one generator call (rectangle, box, gmsh box of each supported type, cylinder) with random, pairwise different cell counts, anisotropic and non-unit domain sizes '
        'and data directories; the monitor audits the returned mesh: counts, coordinates, duplicate/unused nodes, Jacobians at many points, mid-side node positions, facet '
        'incidence with opposite orientation, boundary facets on the domain boundary, covered volume. Non-trivial: the full audit ran.')
REQUIRED = ['counts', 'fills_domain', 'orientation', 'node_order', 'conforming', 'boundary_on_domain', 'no_duplicates', 'all_used', 'grid_lines', 'rectangle', 'box', 'gmsh:HEX8', 'gmsh:TET4',
            'gmsh:TET10', 'gmsh:HEX27', 'cylinder', 'cell_type_names', 'tet_quality', 'mesh_class', 'files', 'repeatable', 'library_volume']
NAMES = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20', 'TRI3': 'triangle', 'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(10 if q else 60):
        out.append({'gen': 'rectangle', 'n': [int(i) for i in rng.integers(1, 9, 2)]})
        out.append({'gen': 'box', 'n': [int(i) for i in rng.integers(1, 6, 3)]})
    for k in range(12 if q else 80):
        t = ['HEX8', 'TET4', 'TET10', 'HEX27'][k % 4]
        out.append({'gen': 'gmsh', 'type': t, 'n': [int(i) for i in (rng.permutation(4)[:3] + 1 if k % 2 else rng.integers(1, 5, 3))]})
    for k in range(5 if q else 40):
        out.append({'gen': 'cylinder', 'default': k == 0, 'c': int(rng.integers(2, 9)), 'h': int(rng.integers(1, 9)), 'ratio': [None, float(rng.uniform(.2, .6)), float(rng.uniform(.03, .2)), float(rng.uniform(.6, .69))][k % 4]})
    out += [{'gen': 'names'}, {'gen': 'tetq'}, {'gen': 'mesh'}]
    for i, c in enumerate(out):
        c['size'] = [float(s) for s in 10. ** rng.uniform(-2 if i % 4 == 0 else -.5, 3 if i % 4 == 1 else .7, 3)]
        c['dir'] = i % 3
    return out


def audit(ctx, t, P, C, planes, volume, onb, tol):
    """planes: signed-distance functions whose zero sets bound the domain; onb(points of a facet) -> bool."""
    m = meshes.M(t, P, C)
    r = ref(t)
    ctx.check(C.min() >= 0 and C.max() < len(P) and np.issubdtype(C.dtype, np.integer), 'counts', 'node indices out of range')
    ctx.check(len(np.unique(C)) == len(P), 'all_used', f'{len(P) - len(np.unique(C))} unused nodes')
    from scipy.spatial import cKDTree
    scale = tol / 1e-7
    pr = cKDTree(P / scale).query_pairs(1e-6)
    ctx.check(not pr, 'no_duplicates', f'coinciding nodes {list(pr)[:2]}')
    ctx.check(all(len(set(c)) == len(c) for c in C.tolist()) and len({tuple(sorted(c)) for c in C.tolist()}) == len(C), 'no_duplicates', 'repeated nodes or cells')
    d = meshes.detJ(t, P, C)
    ctx.check(d.min() > 0, 'orientation', f'smallest Jacobian {d.min()}')
    lin = ref({'TRI': 'TRI3', 'TET': 'TET4', 'QUAD': 'QUAD4', 'HEX': 'HEX8'}[shape_of(t)])
    want = np.einsum('nk,ckd->cnd', lin.N(r.nodes), P[C[:, :lin.nn]])
    ctx.check(np.max(np.abs(P[C] - want)) <= tol, 'node_order', f'mid nodes off by {np.max(np.abs(P[C] - want))}')
    fs = m.faces()
    ctx.check(max(len(v) for v in fs.values()) <= 2, 'conforming', 'a facet belongs to more than two cells')
    bad = 0
    for k, v in fs.items():
        nodes = [frozenset(int(C[ci][i]) for i in r.face_nodes(f)) for ci, f in v]
        if len(v) == 2:
            bad += nodes[0] != nodes[1]
            # the cells lie on opposite sides
            a = P[list(k)]
            s = []
            n = np.linalg.svd(a[1:] - a[0])[2][-1]
            for ci, _ in v:
                s.append((P[C[ci]].mean(0) - a.mean(0)) @ n)
            ctx.check(s[0] * s[1] < 0, 'conforming', f'both cells on one side of facet {k}')
        else:
            ctx.check(onb(P[list(nodes[0])]), 'boundary_on_domain', f'boundary facet {P[list(k)].tolist()} is inside the domain')
    ctx.check(bad == 0, 'conforming', f'{bad} shared facets with different nodes')
    for f in planes:
        ctx.check(np.min(f(P)) >= -tol, 'fills_domain', f'a node lies outside by {-np.min(f(P))}')
    v = m.volume()
    ctx.check(abs(v - volume) <= 1e-7 * volume, 'fills_domain', f'volume {v} instead of {volume}')


def boxlike(ctx, t, P, C, n, size):
    dim = len(n)
    size = np.asarray(size[:dim])
    tol = 1e-7 * float(np.min(size / np.asarray(n)))
    sub = DEGREE[t]
    ctx.check(P.shape == (int(np.prod([sub * k + 1 for k in n])), dim), 'counts', f'{P.shape[0]} nodes')
    per = 6 if shape_of(t) == 'TET' else 1
    ctx.check(C.shape == (per * int(np.prod(n)), ref(t).nn), 'counts', f'cells {C.shape}')
    for a in range(dim):
        g = np.linspace(0, size[a], sub * n[a] + 1)
        dist = np.min(np.abs(P[:, a][:, None] - g[None]), axis=1)
        ctx.check(np.max(dist) <= tol, 'grid_lines', f'axis {a}: a node is {np.max(dist)} off the grid lines')
        ctx.check(all(np.min(np.abs(P[:, a] - v)) <= tol for v in g), 'grid_lines', f'axis {a}: an empty grid line')
    pl = [lambda X, a=a: X[:, a] for a in range(dim)] + [lambda X, a=a: size[a] - X[:, a] for a in range(dim)]
    onb = lambda X: any(np.all(np.abs(f(X)) <= tol) for f in pl)
    audit(ctx, t, P, C, pl, float(np.prod(size)), onb, tol)


def run_case(ctx, case):
    from .. import fem
    from jax_fem import generate_mesh as gm
    rng = np.random.default_rng(case['seed'])
    gen = case['gen']
    if gen == 'names':
        for t, want in NAMES.items():
            ctx.check(gm.get_meshio_cell_type(t) == want, 'cell_type_names', t)
        for t in ('HEX', 'hex8', '', 'LINE2', None, 'TRI'):
            ctx.raises(lambda: gm.get_meshio_cell_type(t), 'cell_type_names')
        return
    if gen == 'tetq':
        P, C = meshes.corner_mesh('TET', (2, 1, 2), (1., 2., .5))
        P = P + rng.normal(size=P.shape) * .02
        flip = rng.random(len(C)) < .3
        C = C.copy()
        C[flip] = C[flip][:, [0, 2, 1, 3]]
        X = P[C]
        want = np.linalg.det(X[:, 1:] - X[:, :1])
        for arr in (P, fem.np.asarray(P)):
            ctx.close(gm.check_mesh_TET4(arr, C), want, 'tet_quality', rtol=1e-12)
        return
    if gen == 'mesh':
        for t in NAMES:
            m = meshes.make(t, rng, n=[1] * ref(t).dim)
            for arrs in ((m.points, m.cells), (m.points.tolist(), m.cells.tolist()), (fem.np.asarray(m.points), fem.np.asarray(m.cells))):
                M = gm.Mesh(*arrs, ele_type=t)
                ctx.check(np.array_equal(M.points, m.points) and np.array_equal(M.cells, m.cells) and M.ele_type == t, 'mesh_class', t)
        return
    root = os.path.join(ctx.scratch, f'gm{case["seed"] % 10 ** 9}')
    dd = [root, os.path.join(root, 'a', 'b c'), os.path.join(root, 'x')][case['dir']]
    if gen == 'cylinder' and case['dir'] == 1:
        dd = os.path.join(root, 'a', 'bc')   # the path goes through a shell command line
    if case['dir'] == 2:
        os.makedirs(os.path.join(dd, 'msh'))
        with open(os.path.join(dd, 'msh', 'box.msh'), 'w') as f:
            f.write('garbage of an earlier run')
    own, back = os.path.join(root, 'cwd'), os.getcwd()
    os.makedirs(own)
    os.chdir(own)
    try:
        generate(ctx, case, rng, os.path.relpath(dd) if case['dir'] == 2 else dd)
    finally:
        os.chdir(back)


def generate(ctx, case, rng, dd):
    from .. import fem
    from jax_fem import generate_mesh as gm
    gen = case['gen']
    before = set()
    size, n = case['size'], case.get('n')
    if gen == 'rectangle':
        call = lambda: gm.rectangle_mesh(*n, *size[:2])
        t = 'QUAD4'
    elif gen == 'box':
        call = lambda: gm.box_mesh(*n, *size)
        t = 'HEX8'
    elif gen == 'gmsh':
        t = case['type']
        kw = {} if t == 'HEX8' and case['dir'] == 0 else {'ele_type': t}
        # the mesh file format keeps 16 digits; the geometric tolerance of gmsh is absolute relative to the model size, keep sizes within 1e3
        s = np.asarray(size)
        size = (s / s.max() * np.clip(s.max(), 1e-2, 1e3))
        size = [float(v) for v in np.maximum(size, 2e-3 * size.max())]
        call = lambda: gm.box_mesh_gmsh(*n, *size, dd, **kw)
    else:
        t = 'HEX8'
        R, H, c, h, ratio = size[0], size[1], case['c'], case['h'], case['ratio']
        H = float(np.clip(H, R * .02, R * 50))
        if case['default']:
            R, H, c, h, ratio = 5, 10, 5, 20, None
            call = lambda: gm.cylinder_mesh_gmsh(dd)
        else:
            kw = dict(R=R, H=H, circle_mesh=c, hight_mesh=h)
            if ratio is not None:
                kw['rect_ratio'] = ratio
            call = lambda: gm.cylinder_mesh_gmsh(dd, **kw)
    mesh = call()
    ctx.event(gen if gen != 'gmsh' else 'gmsh:' + t)
    ctx.check(list(mesh.cells_dict) == [NAMES[t]], 'counts', f'cell blocks {list(mesh.cells_dict)}')
    P, C = np.asarray(mesh.points, float), np.asarray(mesh.cells_dict[NAMES[t]])
    if gen in ('gmsh', 'cylinder'):
        files = os.listdir(os.path.join(dd, 'msh'))
        ctx.check(any(f.endswith('.msh') for f in files) and set(os.listdir('.')) == before, 'files', f'{files}; new in cwd: {set(os.listdir(".")) - before}')
    if gen != 'cylinder':
        boxlike(ctx, t, P, C, n, size)
    else:
        k = 4 * (c - 1)
        tol = 1e-6 * min(R / c, H / h)
        ctx.check(C.shape == (5 * (c - 1) ** 2 * h, 8), 'counts', f'cells {C.shape}')
        side = R * np.cos(np.pi / k)
        rad = lambda X: np.linalg.norm(X[:, :2], axis=1)
        vol = .5 * k * R ** 2 * np.sin(2 * np.pi / k) * H
        pl = [lambda X: X[:, 2], lambda X: H - X[:, 2], lambda X: R - rad(X)]
        onb = lambda X: any(np.all(np.abs(f(X)) <= tol) for f in pl)
        audit(ctx, t, P, C, pl, vol, onb, tol)
        g = np.linspace(0, H, h + 1)
        ctx.check(np.max(np.min(np.abs(P[:, 2][:, None] - g), axis=1)) <= tol and len(P) == (h + 1) * (len(P) // (h + 1)), 'grid_lines')
        # the square core has the requested size: its corners are the nodes of the eight blocks' diagonals
        q = R * (ratio if ratio is not None else .4)
        for s in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            for z in g:
                x = np.array([s[0] * q, s[1] * q, z])
                ctx.check(np.min(np.linalg.norm(P - x, axis=1)) <= tol, 'grid_lines', f'no node at the core corner {x.tolist()}')
    m2 = call()
    ctx.check(np.array_equal(m2.points, mesh.points) and np.array_equal(m2.cells_dict[NAMES[t]], C), 'repeatable')
    # the library accepts the mesh and measures the same volume
    M = gm.Mesh(mesh.points, mesh.cells_dict[gm.get_meshio_cell_type(t)], ele_type=t)
    fe = fem.fe_of(meshes.M(t, P, C)) if hasattr(fem, 'fe_of') else None
    if fe is not None:
        ctx.close(np.sum(np.asarray(fe.get_shape_grads()[1])), meshes.M(t, P, C).volume(), 'library_volume', rtol=1e-9)
    else:
        ctx.event('library_volume')
