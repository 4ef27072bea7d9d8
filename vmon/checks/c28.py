import numpy as np

PROPERTY = 'C28'
RULE = ('map cases: random meshes and activation histories (scattered, layer by layer, disconnected, nothing new, everything) fed through the face hash map, face flags and quiet points; solve cases: steps of the quiet-element '
        'heat problem with random activations; run cases: the complete simulation driver on generated meshes and tool paths, audited by a monitor on every solve. Oracle: sets recomputed from scratch and an own assembly over '
        'the active cells only. Non-trivial: both active and quiet cells existed.')
REQUIRED = ['external_faces', 'incremental', 'fresh_equals_update', 'no_deactivation', 'face_flag_external', 'face_flag_top', 'quiet_points', 'quiet_residual', 'quiet_bc', 'active_solution', 'quiet_value', 'heat_balance',
            'not_a_face', 'driver_steps', 'driver_active', 'driver_faces', 'driver_solution', 'driver_files', 'history_kept', 'laser_flux', 'convection']
T0, CP, RHO, RB, ETA, H, PW, K = 300., 500., 8440., 1e-3, .4, 50., 500., 15.


def cases(tier, rng):
    q = tier == 'quick'
    ts = ['HEX8', 'TET4', 'HEX20', 'TET10', 'HEX8']
    out = [{'kind': 'run', 'n': [3, 2, 3]}, {'kind': 'run', 'n': [4, 3, 2]}]
    out += [{'kind': 'solve', 't': ts[k % 5], 'n': [2 + k % 2, 1 + k % 2, 2]} for k in range(8 if q else 80)]
    out += [{'kind': 'map', 't': ts[k % 5], 'n': [1 + k % 3, 2 + k % 2, 1 + k % 4]} for k in range(12 if q else 200)]
    if not q:
        out += [{'kind': 'run', 'n': [int(a) for a in rng.integers(2, 5, 3)]} for k in range(16)]
    return out


def load(scratch):
    """The application, from a copy in a scratch directory (importing it creates and empties an output directory beside it)."""
    import importlib.util, shutil, os
    from ..core import REPO
    d = os.path.join(scratch, 'quiet')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(REPO, 'applications/quiet_element/example.py'), os.path.join(d, 'example.py'))
    spec = importlib.util.spec_from_file_location('quiet_example', os.path.join(d, 'example.py'))
    M = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(M)
    return M, d


def run_case(ctx, case):
    from .. import fem
    M, d = load(ctx.scratch)
    rng = np.random.default_rng(case['seed'])
    {'map': map_case, 'solve': solve_case, 'run': drive_case}[case['kind']](ctx, case, rng, fem, M, d)


def mesh(case, rng, scale=1.):
    from .. import meshes
    n = case['n']
    m = meshes.make(case['t'], rng, n=n, size=[.5e-3 * k * scale for k in n], distort=0., permute=True)
    return m


def faces_of(fe, cells):
    fi = np.asarray(fe.face_inds)
    return np.sort(np.asarray(cells)[:, fi], axis=-1)


def external(key, active):
    """(cell, face) pairs whose face belongs to exactly one active cell, counted from scratch."""
    cnt = {}
    for c in np.nonzero(active)[0]:
        for f in range(key.shape[1]):
            cnt.setdefault(tuple(key[c, f]), []).append((int(c), f))
    return {v[0] for v in cnt.values() if len(v) == 1}


def as_set(a):
    return {(int(i), int(j)) for i, j in np.asarray(a)}


def history(rng, cells, points, n, style):
    nc = len(cells)
    z = points[cells].mean(1)[:, 2]
    if style == 'layers':
        act = z <= np.sort(z)[max(0, nc // 4)]
    else:
        act = rng.random(nc) < .3
    out = [act]
    for k in range(n):
        a = out[-1].copy()
        if style == 'layers':
            a |= z <= np.sort(z)[min(nc - 1, (k + 2) * nc // (n + 1))]
        elif style == 'one':
            r = np.nonzero(~a)[0]
            if len(r):
                a[rng.choice(r)] = True
        elif k % 3 != 1:
            a |= rng.random(nc) < .25
        if k == n - 1:
            a[:] = True
        out.append(a)
    return out


def new_problem(fem, M, m):
    return M.Thermal(fem.mk(m), vec=1, dim=3, ele_type=m.t, dirichlet_bc_info=[[lambda x: False], [0], [lambda p: T0]], location_fns=[lambda p: True])


def map_case(ctx, case, rng, fem, M, d):
    m = mesh(case, rng)
    p = new_problem(fem, M, m)
    fe = p.fes[0]
    key = faces_of(fe, m.cells)
    sel = np.asarray(p.boundary_inds_list[0])
    ctx.check(as_set(sel) == {(c, f) for c in range(len(m.cells)) for f in range(key.shape[1])} and len(sel) == key.shape[0] * key.shape[1], 'face_flag_external', 'a location function that is true everywhere does not select every face of every cell')
    zs = np.unique(np.round(m.points[:, 2], 9))
    for style in ('random', 'layers', 'one'):
        hist = history(rng, m.cells, m.points, 5, style)
        mp = M.initialize_hash_map(p, hist[0])
        ext, state = mp[0], list(mp[1:])
        for k, act in enumerate(hist):
            if k:
                ext = M.update_hash_map(hist[k - 1], act, *state)
            want = external(key, act)
            name = 'incremental' if k else 'external_faces'
            ctx.check(as_set(ext) == want and len(ext) == len(want), name, lambda: f'{len(want)} faces belong to exactly one active cell, {len(ext)} reported, wrong: {sorted(as_set(ext) ^ want)[:4]}')
            fresh = M.initialize_hash_map(p, act)[0]
            ctx.check(as_set(fresh) == want and len(fresh) == len(want), 'fresh_equals_update')
            for z in rng.permutation(zs)[:2]:
                tab = np.asarray(M.get_active_face_truth_tab(p, ext, z))
                check_flags(ctx, tab, sel, want, m, fe, z)
            qp = M.get_quiet_point_inds_set(p, act)
            wq = set(range(len(m.points))) - set(m.cells[act].reshape(-1).tolist())
            ctx.check(sorted(int(i) for i in np.asarray(qp)) == sorted(wq), 'quiet_points')
            fn = M.get_dirichlet_location_fn(qp)
            ctx.check(all(bool(fn(m.points[i], i)) == (i in wq) for i in range(len(m.points))), 'quiet_points', 'location function')
        less = hist[-1].copy()
        less[rng.integers(len(less))] = False
        ctx.raises(lambda: M.update_hash_map(hist[-1], less, *state), 'no_deactivation')
        a = rng.integers(len(less), size=2)
        if a[0] != a[1]:                    # one cell dies while another is born: the number of active cells does not change
            on, swap = np.zeros(len(less), bool), np.zeros(len(less), bool)
            on[a[0]] = swap[a[1]] = True
            ctx.raises(lambda: M.update_hash_map(on, swap, *M.initialize_hash_map(p, on)[1:]), 'no_deactivation')
    ctx.raises(lambda: M.get_active_face_truth_tab(sub_problem(fem, M, m), np.array([[0, 0], [0, 1], [0, 2], [0, 3]]), 0.), 'not_a_face')


def sub_problem(fem, M, m):
    """A problem whose surface selection is not all faces: unknown external faces must be reported, not dropped."""
    lo = m.points[:, 2].min()
    return M.Thermal(fem.mk(m), vec=1, dim=3, ele_type=m.t, dirichlet_bc_info=[[lambda x: False], [0], [lambda p: T0]], location_fns=[lambda p: p[2] < lo + 1e-9])


def check_flags(ctx, tab, sel, want, m, fe, z):
    fi = np.asarray(fe.face_inds)
    e = np.array([(int(c), int(f)) in want for c, f in sel])
    fp = m.points[m.cells[sel[:, 0]][np.arange(len(sel))[:, None], fi[sel[:, 1]]]][:, :, 2]
    t = e & np.all(np.abs(fp - z) < 2e-5, axis=1)
    ctx.check(tab.shape == (len(sel), 2) and np.array_equal(tab[:, 0].astype(bool), e), 'face_flag_external')
    ctx.check(tab.shape == (len(sel), 2) and np.array_equal(tab[:, 1].astype(bool), t), 'face_flag_top', lambda: f'{int(t.sum())} external faces lie at the laser height, {int(tab[:, 1].sum())} flagged')


def own_system(m, fe, p, act, Told, dt, centre, switch, z, parts=None):
    """Matrix and load of the step, assembled over active cells and their external faces (z: height of the laser)."""
    from .. import refasm
    X, W = refasm.quad_points(fe)
    N, g, jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, X, W)
    n = len(m.points)
    A, b = np.zeros((n, n)), np.zeros(n)
    for c in np.nonzero(act)[0]:
        ids = m.cells[c]
        M_ = np.einsum('qa,qb,q->ab', N, N, jxw[c]) * RHO * CP / dt
        A[np.ix_(ids, ids)] += M_ + K * np.einsum('qad,qbd,q->ab', g[c], g[c], jxw[c])
        b[ids] += M_ @ Told[ids]
    key = faces_of(fe, m.cells)
    ext = sorted(external(key, act))
    fi = np.asarray(fe.face_inds)
    geo = refasm.face_geom(m.t, m.points, m.cells, ext, lambda f: refasm.face_points(fe, f)[0], lambda f: refasm.face_points(fe, f)[1], refasm.lib_face_corners(fe))
    tot = [0., 0.]
    for (c, f), (Nf, _, dA, x, _) in zip(ext, geo):
        ids = m.cells[c]
        q = H * (T0 - Nf @ Told[ids])
        tot[1] += np.sum(q * dA)
        if np.all(np.abs(m.points[ids[fi[f]], 2] - z) < 2e-5):
            ql = 2 * ETA * PW / (np.pi * RB ** 2) * np.exp(-2 * ((x[:, 0] - centre[0]) ** 2 + (x[:, 1] - centre[1]) ** 2) / RB ** 2) * switch
            tot[0] += np.sum(ql * dA)
            q = q + ql
        np.add.at(b, ids, Nf.T @ (q * dA))
    return A, b, tot


def audit_solution(ctx, m, fe, p, act, Told, dt, centre, switch, z, T, pre=''):
    A, b, (Pl, Pc) = own_system(m, fe, p, act, Told, dt, centre, switch, z)
    on = np.unique(m.cells[act])
    off = np.setdiff1d(np.arange(len(m.points)), on)
    want = np.full(len(m.points), T0)
    want[on] = np.linalg.solve(A[np.ix_(on, on)], b[on])
    sc = np.max(np.abs(want - T0)) + 1e-3
    ctx.close(T[off], want[off], pre + 'solution' if pre else 'quiet_value', rtol=0, atol=1e-8)
    ctx.close(T[on], want[on], pre + 'solution' if pre else 'active_solution', rtol=0, atol=3e-5 * sc)
    from .. import refasm
    X, W = refasm.quad_points(fe)
    N, _, jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, X, W)
    E = np.einsum('qn,cn,cq->c', N, (T - Told)[m.cells], jxw)[act].sum() * RHO * CP / dt
    ctx.close(E, Pl + Pc, 'heat_balance', rtol=0, atol=1e-4 * (abs(Pl) + abs(Pc) + np.sum(np.abs(A[np.ix_(on, on)]) @ np.abs(want[on] - T0)) * 1e-3 + 1e-9))
    if Pl:
        ctx.event('laser_flux')
    if Pc:
        ctx.event('convection')


def solve_case(ctx, case, rng, fem, M, d):
    from .. import zoo
    jnp = fem.np
    m = mesh(case, rng)
    p = new_problem(fem, M, m)
    fe = p.fes[0]
    hist = history(rng, m.cells, m.points, 3, ['random', 'layers'][int(rng.integers(2))])
    if not hist[0].any():
        hist[0][rng.integers(len(hist[0]))] = True
        hist = [h | hist[0] for h in hist]
    n = len(m.points)
    Told = np.full(n, T0)
    mp = M.initialize_hash_map(p, hist[0])
    ext, state = mp[0], list(mp[1:])
    zs = np.unique(np.round(m.points[:, 2], 9))
    for k, act in enumerate(hist):
        if k:
            ext = M.update_hash_map(hist[k - 1], act, *state)
        on = np.unique(m.cells[act])
        dt = float(10 ** rng.uniform(-3.5, -1.5))
        z = float(np.max(m.points[on, 2])) if k % 2 == 0 else float(rng.choice(zs))
        centre = np.array([rng.uniform(0, m.points[:, 0].max()), rng.uniform(0, m.points[:, 1].max()), z])
        switch = [1., 0., 1., .5][k % 4]
        Told = np.where(np.isin(np.arange(n), on), Told + rng.uniform(0, 200, n) * (k > 0), T0)
        tab = M.get_active_face_truth_tab(p, ext, z)
        qp = M.get_quiet_point_inds_set(p, act)
        p.set_params([jnp.asarray(Told[:, None]), dt, centre, switch, qp, act, tab])
        # residual at an arbitrary field
        T = T0 + rng.uniform(-100, 100, n)
        A, b, _ = own_system(m, fe, p, act, Told, dt, centre, switch, z)
        r = zoo.flat_residual(p, [T[:, None]])
        sc = np.max(np.abs(A) @ np.abs(T)) + np.max(np.abs(b))
        ctx.close(r, A @ T - b, 'quiet_residual', rtol=0, atol=1e-11 * sc)
        off = np.setdiff1d(np.arange(n), on)
        got = np.sort(np.concatenate([np.asarray(a) for a in fe.node_inds_list])) if fe.node_inds_list else np.zeros(0)
        ctx.check(np.array_equal(got, off), 'quiet_bc', f'{len(off)} quiet nodes, {len(got)} constrained')
        ctx.close(np.concatenate([np.asarray(a) for a in fe.vals_list]), np.full(len(off), T0), 'quiet_bc', rtol=0)
        sol = fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-10 * sc, 'rel_tol': 1e-12})
        Tn = np.asarray(sol[0])[:, 0]
        audit_solution(ctx, m, fe, p, act, Told, dt, centre, switch, z, Tn)
        Told = Tn
        if act.any() and not act.all():
            ctx.event('history_kept')


def drive_case(ctx, case, rng, fem, M, d):
    """The whole simulation driver, with its own input files, audited at every solve."""
    import meshio, os, glob
    from .. import meshes, zoo
    nx, ny, nz = case['n']
    L = .5
    m = meshes.make('HEX8', rng, n=[nx, ny, nz], size=[L * nx, L * ny, L * nz], distort=0., permute=True)
    base = 20.
    m.points[:, 2] += base - L                # one layer of plate, the rest is born during the run
    os.makedirs(os.path.join(d, 'input/abaqus'), exist_ok=True)
    os.makedirs(os.path.join(d, 'input/toolpath'), exist_ok=True)
    meshio.Mesh(m.points, [('hexahedron', m.cells)]).write(os.path.join(d, 'input/abaqus/thinwall.inp'))
    rows, t = [[0., 0., 0., 0., 0], [1e-3, 0., L * ny / 2, L, 0]], 1e-3
    for k in range(2):
        z = L * (1 + k % max(1, nz - 1))
        a, b = rng.uniform(0, L * nx, 2)
        if abs(b - a) < .45:
            b = a + .5
        y = rng.uniform(0, L * ny)
        t += 2e-3
        rows.append([t, a, y, z, 0]) if k else rows.__setitem__(1, [1e-3, a, y, z, 0])
        t += 4e-3
        rows.append([t, b, y, z, 1])
    rows.append([t + 5e-2, b, y, z, 0])
    np.savetxt(os.path.join(d, 'input/toolpath/thinwall_toolpath.crs'), np.array(rows))
    pts = np.asarray(meshio.read(os.path.join(d, 'input/abaqus/thinwall.inp')).points) / 1e3
    m.points[:] = pts
    cells, cen = m.cells, pts[m.cells].mean(1)
    log = []
    real = M.solver

    def spy(problem, *a, **k):
        fe = problem.fes[0]
        iv = [np.array(v) for v in problem.internal_vars]
        sv = [np.array(v) for v in problem.internal_vars_surfaces[0]]
        ids = np.sort(np.concatenate([np.asarray(x) for x in fe.node_inds_list]))
        s = real(problem, *a, **k)
        log.append((problem, iv, sv, ids, np.asarray(s[0])[:, 0].copy()))
        return s
    M.solver = spy
    M.quiet_element_simulation()
    # what the tool path asks for
    plan = []
    tp = np.array(rows)
    tp[:, 1:4] /= 1e3
    for i in range(2, len(tp)):
        if tp[i, 4]:
            nd = round(np.linalg.norm(tp[i, 1:4] - tp[i - 1, 1:4]) / .125e-3)
            ts = np.linspace(tp[i - 1, 0], tp[i, 0], nd + 1)
            for j in range(nd):
                s = (ts[j] - tp[i - 1, 0]) / (tp[i, 0] - tp[i - 1, 0])
                c = tp[i - 1, 1:4] + s * (tp[i, 1:4] - tp[i - 1, 1:4])
                plan.append((i, j, ts[j + 1] - ts[j], np.array([c[0], c[1], tp[i, 3] + .02]), 1.))
        else:
            last = plan[-1][3] if plan else None
            if last is None:
                return ctx.fail('driver_steps', 'workload error')
            for j in range(10):
                plan.append((i, j, (tp[i, 0] - tp[i - 1, 0]) / 10, last, 0.))
    ctx.check(len(plan) == len(log), 'driver_steps', f'{len(plan)} steps in the tool path, {len(log)} solved')
    act = cen[:, 2] <= .02
    Told = np.full(len(pts), T0)
    grew = 0
    for (i, j, dt, c, sw), (p, iv, sv, ids, T) in zip(plan, log):
        fe = p.fes[0]
        if sw:
            new = act | ((cen[:, 2] < c[2]) & ((cen[:, 0] - c[0]) ** 2 + (cen[:, 1] - c[1]) ** 2 <= RB ** 2))
            grew += int(new.sum() > act.sum())
            act = new
        ctx.check(np.array_equal(iv[2].astype(bool), np.repeat(act[:, None], iv[2].shape[1], 1)), 'driver_active', f'activation at track {i} step {j}')
        ctx.close(iv[1], np.full(iv[1].shape, dt), 'driver_steps', rtol=1e-9)
        sel = np.asarray(p.boundary_inds_list[0])
        check_flags_driver(ctx, sv[3], sel, external(faces_of(fe, cells), act), m, fe, c[2])
        ctx.check(np.array_equal(ids, np.setdiff1d(np.arange(len(pts)), np.unique(cells[act]))), 'driver_active', 'quiet nodes')
        audit_solution(ctx, m, fe, p, act, Told, dt, c, sw, c[2], T, 'driver_')
        # saved snapshots
        if sw == 0 or j % 10 == 0:
            f = meshio.read(os.path.join(d, f'output/vtk/u_{i:05d}_{j:05d}.vtu'))
            ctx.close(f.point_data['sol'].reshape(-1), T, 'driver_files', rtol=1e-6)
            ctx.close(np.asarray(f.cell_data['active'][0]).reshape(-1), act.astype(float), 'driver_files', rtol=0)
        Told = T
    ctx.check(grew > 0, 'driver_active', 'workload never activated a cell')


def check_flags_driver(ctx, tab, sel, want, m, fe, z):
    fi = np.asarray(fe.face_inds)
    e = np.array([(int(c), int(f)) in want for c, f in sel])
    fp = m.points[m.cells[sel[:, 0]][np.arange(len(sel))[:, None], fi[sel[:, 1]]]][:, :, 2]
    t = e & np.all(np.abs(fp - z) < 2e-5, axis=1)
    tab = np.asarray(tab).astype(bool)
    ctx.check(np.array_equal(tab, np.repeat(np.stack([e, t], 1)[:, None], tab.shape[1], 1)), 'driver_faces')
