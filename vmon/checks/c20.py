import json, os, time
import numpy as np
from .. import meshes
from ..refelem import ref

PROPERTY = 'C20'
RULE = ('one case = a history of writes and reads in a private directory: solutions on random meshes of every element type with random fields, names, layouts, dtypes and target '
        'directories; wrongly shaped data; VTU version conversion; Abaqus conversion; JSON files; timed functions. The monitor reads the files back and compares with what was handed in. '
        'Non-trivial: at least one file was read back (or one wrapped call observed).')
REQUIRED = ['save_points', 'save_cells', 'save_sol', 'save_cell_info', 'save_point_info', 'save_names', 'wrong_cell_data', 'wrong_point_data', 'rejected_not_written', 'new_directory', 'bare_name', 'overwrite',
            'version_only', 'version_readable', 'abaqus', 'json_value', 'json_print', 'timeit_result', 'timeit_raises', 'walltime_result', 'walltime_file', 'walltime_raises', 'inputs_untouched']
TYPES = ['QUAD4', 'QUAD8', 'TRI3', 'TRI6', 'HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10']
NAMES = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20', 'TRI3': 'triangle', 'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}


def cases(tier, rng):
    out = []
    for k in range(27 if tier == 'quick' else 180):
        out.append({'kind': 'save', 'type': TYPES[k % 9], 'target': ['deep', 'bare', 'here', 'twice'][(k + k // 9) % 4], 'ext': 'vtk' if k % 5 == 4 else 'vtu'})
    for k in range(6 if tier == 'quick' else 40):
        out += [{'kind': 'version', 'type': TYPES[(2 * k) % 9]}, {'kind': 'abaqus', 'type': ['QUAD4', 'TRI3', 'HEX8', 'TET4', 'TET10', 'TRI6', 'HEX20'][k % 7], 'hand': k % 2 == 1}, {'kind': 'json'}, {'kind': 'time'}]
    return out


def run_case(ctx, case):
    d = os.path.join(ctx.scratch, f'io{case["seed"] % 10 ** 9}')
    os.makedirs(d)
    back = os.getcwd()
    os.chdir(d)
    try:
        {'save': save, 'version': version, 'abaqus': abaqus, 'json': json_, 'time': time_}[case['kind']](ctx, case, np.random.default_rng(case['seed']), d)
    finally:
        os.chdir(back)


def mesh_of(case, rng):
    dim = ref(case['type']).dim
    return meshes.make(case['type'], rng, n=[int(i) for i in rng.integers(1, 3, dim)])


def save(ctx, case, rng, d):
    import meshio
    from .. import fem
    from jax_fem.utils import save_sol
    m = mesh_of(case, rng)
    vec = [1, 3, 2, 1][rng.integers(4)] if case['ext'] == 'vtu' else [1, 3][rng.integers(2)]
    fe = fem.fe_of(m, vec=vec)
    N, nc = len(m.points), len(m.cells)
    f = {'deep': os.path.join(d, 'a', 'b', 'c.d', 'u.'), 'bare': 'u.', 'here': os.path.join(d, 'u.0001.'), 'twice': os.path.join('rel', 'u.')}[case['target']] + case['ext']
    for rep in range(2 if case['target'] == 'twice' else 1):
        mag = 10. ** float(rng.uniform(-8, 8))
        conv = [np.asarray, fem.np.asarray][rng.integers(2)]
        sol = rng.normal(size=(N, vec)) * mag
        names = [str(s) for s in rng.permutation(['p', 'active', 's_norm', 'T', 'u', 'x y', 'sigma-1'])]
        ci = [(names[i], conv((rng.normal(size=nc) * mag) if rng.random() < .7 else rng.integers(0, 9, nc))) for i in range(int(rng.integers(0, 4)))]
        pi = [(names[3 + i], conv(rng.normal(size=(N,) if rng.random() < .5 else (N, int(rng.integers(1, 10)))) if rng.random() < .8 else rng.integers(0, 9, (N, 2)))) for i in range(int(rng.integers(0, 4)))]
        if case['ext'] == 'vtk':
            ci = [(n.replace(' ', '_'), a) for n, a in ci]
            pi = [(n.replace(' ', '_'), np.asarray(a).reshape(N, -1)[:, 0]) for n, a in pi]
        if rep == 0 and rng.random() < .8:
            ci = ci or [('c0', conv(rng.normal(size=nc)))]
            pi = pi or [('p0', conv(rng.normal(size=N)))]
        keep = [np.array(a, copy=True) for _, a in ci + pi] + [sol.copy()]
        args = {}
        if ci or rng.random() < .5:
            args['cell_infos'] = ci
        if pi or rng.random() < .5:
            args['point_infos'] = pi
        save_sol(fe, conv(sol), f, **args)
        r = meshio.read(f)
        ctx.event({'deep': 'new_directory', 'bare': 'bare_name', 'here': 'save_names', 'twice': 'overwrite'}[case['target']])
        P = np.asarray(r.points, float)
        ctx.check(P.shape[0] == N and np.array_equal(P[:, :m.dim], m.points) and not np.any(P[:, m.dim:]), 'save_points')
        ctx.check(list(r.cells_dict) == [NAMES[m.t]] and np.array_equal(r.cells_dict[NAMES[m.t]], m.cells), 'save_cells', str([(k, v.shape) for k, v in r.cells_dict.items()]))
        ctx.check(set(r.point_data) == {'sol'} | {n for n, _ in pi} and set(r.cell_data) == {n for n, _ in ci}, 'save_names', f'{list(r.point_data)} {list(r.cell_data)}')
        eq = lambda got, want: np.asarray(got, float).size == np.asarray(want).size and np.array_equal(np.asarray(got, np.float32).reshape(np.asarray(want).shape), np.asarray(want, np.float32))
        ctx.check(eq(r.point_data['sol'], sol), 'save_sol')
        for n, a in ci:
            ctx.check(n in r.cell_data and eq(r.cell_data[n][0], a), 'save_cell_info', n)
        for n, a in pi:
            ctx.check(n in r.point_data and eq(r.point_data[n], a), 'save_point_info', n)
        now = [np.asarray(a) for _, a in ci + pi] + [sol]
        ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, now)), 'inputs_untouched')
    bad = os.path.join(d, 'bad', 'u.vtu')
    for shape in ((nc + 1,), (nc - 1,), (N,) if N != nc else (nc, 2), (1, nc)):
        ctx.raises(lambda: save_sol(fe, sol, bad, cell_infos=[('ok', np.zeros(nc)), ('w', np.zeros(shape))]), 'wrong_cell_data')
    for shape in ((N + 1,), (N - 1, 2), (nc,) if N != nc else (N + 2,), (1, N) if N != 1 else (N + 3,)):
        ctx.raises(lambda: save_sol(fe, sol, bad, point_infos=[('ok', np.zeros(N)), ('w', np.zeros(shape))]), 'wrong_point_data')
    ctx.check(not os.path.exists(bad), 'rejected_not_written')


def version(ctx, case, rng, d):
    import meshio
    from jax_fem.utils import modify_vtu_file
    m = mesh_of(case, rng)
    M = meshio.Mesh(np.pad(m.points, ((0, 0), (0, 3 - m.dim))), {NAMES[m.t]: m.cells}, point_data={'version 2.2': rng.normal(size=len(m.points))})
    M.write('a.vtu', binary=bool(rng.random() < .3))
    txt = open('a.vtu').read()
    start = txt.index('<VTKFile')
    head = txt[start:txt.index('>', start) + 1]
    body = txt.replace(head, '<VTKFile type="UnstructuredGrid" version="2.2">')
    comp = 'compressor' in head or 'header_type' in head
    extra = '<!-- version="2.2" stays; äöü -->\n'
    body = body.replace('<VTKFile', extra + '<VTKFile', 1) if rng.random() < .5 else body
    if rng.random() < .3:
        body = body.rstrip('\n')
    with open('b.vtu', 'w') as f:
        f.write(body)
    os.makedirs('out')
    out = os.path.join('out', 'c.vtu')
    if rng.random() < .3:
        with open(out, 'w') as f:
            f.write('x' * 100000)
    modify_vtu_file('b.vtu', out)
    got = open(out).read()
    ctx.check(got == body.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'), 'version_only', f'{len(got)} of {len(body)} characters')
    ctx.check(open('b.vtu').read() == body, 'inputs_untouched', 'the input file changed')
    modify_vtu_file('a.vtu', 'd.vtu')
    ctx.check(open('d.vtu').read() == txt, 'version_only', 'a file of another version is copied verbatim')
    if not comp or 'compressor' not in head:
        r = meshio.read(out)
        ctx.check(np.allclose(r.points[:, :m.dim], m.points, rtol=1e-9, atol=1e-9) and np.array_equal(r.cells_dict[NAMES[m.t]], m.cells), 'version_readable')
    else:
        r = meshio.read('d.vtu')
        ctx.check(np.allclose(r.points[:, :m.dim], m.points), 'version_readable')


def abaqus(ctx, case, rng, d):
    import meshio
    from jax_fem.utils import read_abaqus_and_write_vtk
    m = mesh_of(case, rng)
    P = np.pad(m.points, ((0, 0), (0, 3 - m.dim)))
    if case['hand']:
        lab = {'QUAD4': 'CPS4', 'TRI3': 'CPS3', 'HEX8': 'C3D8', 'TET4': 'C3D4', 'TET10': 'C3D10', 'TRI6': 'STRI65', 'HEX20': 'C3D20'}[m.t]
        ids = np.cumsum(rng.integers(1, 4, len(P)))
        with open('in.inp', 'w') as f:
            f.write('*HEADING\n made by hand\n*NODE\n')
            for i, x in zip(ids, P):
                f.write(f'{i}, ' + ', '.join(repr(float(v)) for v in x) + '\n')
            if m.cells.shape[1] > 15:
                f.write(f'*ELEMENT, TYPE={lab}\n' + ''.join(f'{k + 1}, ' + ', '.join(str(ids[i]) for i in c[:10]) + ',\n' + ', '.join(str(ids[i]) for i in c[10:]) + '\n' for k, c in enumerate(m.cells)))
            else:
                f.write(f'*ELEMENT, TYPE={lab}\n' + ''.join(f'{k + 1}, ' + ', '.join(str(ids[i]) for i in c) + '\n' for k, c in enumerate(m.cells)))
    else:
        meshio.Mesh(P, {NAMES[m.t]: m.cells}).write('in.inp')
    src = open('in.inp').read()
    out = 'q.vtu' if rng.random() < .5 else 'q.vtk'
    read_abaqus_and_write_vtk('in.inp', out)
    r = meshio.read(out)
    ctx.close(r.points, P, 'abaqus', rtol=1e-14)
    ctx.check(list(r.cells_dict) == [NAMES[m.t]] and np.array_equal(r.cells_dict[NAMES[m.t]], m.cells), 'abaqus', str([(k, v.shape) for k, v in r.cells_dict.items()]))
    ctx.check(open('in.inp').read() == src, 'inputs_untouched')


def value(rng, depth=0):
    k = rng.integers(9 if depth < 4 else 6)
    if k == 0:
        return float(rng.normal() * 10. ** rng.integers(-12, 12))
    if k == 1:
        return int(rng.integers(-10 ** 12, 10 ** 12))
    if k == 2:
        return ['', 'steel', 'äß € "q"\n\\', '1e-3', 'null'][rng.integers(5)]
    if k == 3:
        return [True, False, None][rng.integers(3)]
    if k < 6:
        return [0, 1e-300, -0.5, 2 ** 70][rng.integers(4)]
    if k == 6:
        return [value(rng, depth + 1) for _ in range(rng.integers(0, 4))]
    return {f'key {i}é'[:5 + i % 2]: value(rng, depth + 1) for i in range(rng.integers(0, 5))}


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def json_(ctx, case, rng, d):
    from .. import fem
    from jax_fem.utils import json_parse
    for k in range(8):
        v = {f'k{i}': value(rng) for i in range(rng.integers(0, 7))}
        with open('a.json', 'w') as f:
            f.write(json.dumps(v, indent=[None, 2, 7][k % 3]))
        with fem.captured() as out:
            got = json_parse('a.json')
        ctx.check(same(got, v), 'json_value', f'{got} instead of {v}')
        ctx.check(same(json.loads(out.getvalue()), v), 'json_print', out.getvalue()[:300])
    with open('bad.json', 'w') as f:
        f.write('{"a": 1,')
    ctx.raises(lambda: json_parse('bad.json'), 'json_value', ValueError)
    ctx.raises(lambda: json_parse('missing.json'), 'json_value', OSError)




class Boom(Exception):
    pass


def time_(ctx, case, rng, d):
    import jax
    from .. import fem
    from jax_fem.utils import timeit, walltime
    calls = []
    nap = float(rng.uniform(.01, .05))

    def make(marker):
        def fn(a, b=2, *args, c=None, **kw):
            """doc of fn"""
            calls.append((a, b, args, c, kw))
            if a == 'boom':
                raise Boom(marker)
            if a == 'nap':
                time.sleep(nap)
            return marker
        return fn
    results = [None, 0, [], {'x': 1}, np.arange(3), (1, 2), fem.np.ones(2), iter([1]), [3], (None,), [[1, 2]], [np.ones(3)], (4,), {'a': None}, False, '', 'text', b'x', np.float64(2.), np.zeros(1), np.array(7), np.ones((1, 3)), [], (), ValueError('returned'),
               lambda: 1, fem.np.zeros(1), [fem.np.ones(2)], (x for x in ()), float('nan'), 1j, {1}, [None], ([],)]
    plat = jax.default_backend()
    for marker in results:
        for name, deco in (('timeit', timeit), ('walltime', walltime()), ('walltime', walltime('logs/deep')), ('walltime', walltime(txt_dir='logs2', filename='mine')), ('walltime', walltime(filename='unused'))):
            calls.clear()
            w = deco(make(marker))
            r = w(1, 3, 4, 5, c='k', z=7)
            ctx.check(r is marker and calls == [(1, 3, (4, 5), 'k', {'z': 7})], f'{name}_result', f'{r} {calls}')
            r = w('q')
            ctx.check(r is marker and calls[1:] == [('q', 2, (), None, {})], f'{name}_result', f'{r} {calls}')
            ctx.raises(lambda: w('boom'), f'{name}_raises', Boom)
    ctx.check(timeit(make(1)).__name__ == 'fn' and timeit(make(1)).__doc__ == 'doc of fn', 'timeit_result', 'name and documentation')
    # files: one line "start, end, elapsed", replaced at every call, at the documented place
    for kw, path in (({'txt_dir': 'w1'}, f'w1/walltime_{plat}.txt'), ({'txt_dir': 'w2/a/b', 'filename': 'mine'}, f'w2/a/b/mine_{plat}.txt')):
        w = walltime(**kw)(make(5))
        for a in ('nap', 'fast', 'nap'):
            t0 = time.time()
            w(a)
            t1 = time.time()
            rows = open(path).read().strip().split('\n')
            ctx.check(len(rows) == 1, 'walltime_file', f'{len(rows)} rows')
            s, e, el = [float(x) for x in rows[0].split(',')]
            ctx.check(abs((e - s) - el) < 1e-6 and t0 - 1e-3 <= s <= e <= t1 + 1e-3 and el >= (nap if a == 'nap' else 0) * .9, 'walltime_file', f'{rows[0]} for a call of {nap}')
    ctx.check(not os.path.exists('unused_cpu.txt') and sorted(os.listdir('.')) == sorted({'logs', 'logs2', 'w1', 'w2'}), 'walltime_file', str(os.listdir('.')))
    # nested and recursive use
    @walltime(txt_dir='w1')
    @timeit
    def fact(n):
        return 1 if n == 0 else n * fact(n - 1)
    ctx.check(fact(5) == 120, 'walltime_result')
