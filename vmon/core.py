"""Runner shared by all checks: case scheduling, recording, verdicts, evidence.

A check module (vmon/checks/cXX.py) provides

    PROPERTY   the property id
    RULE       how cases are made, and what makes one non-trivial
    REQUIRED   names of monitor events that must have been observed (else: inconclusive)
    cases(tier, rng)      -> list of dicts (JSON-able), one per case; drawn from rng only
    run_case(ctx, case)   -> drives the real code and reports to the monitors in ctx

Verdicts are three-valued: exit 0 = held on everything observed, exit 1 + VIOLATION line,
exit 2 = inconclusive (a deciding monitor never reached, a worker lost, ...).
"""
import json, os, subprocess, sys, time, shutil, signal, traceback, hashlib, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'known_findings.json')


def child_env():
    e = dict(os.environ)
    e.update(HOME=e.get('HOME', '/root'), LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             MPLBACKEND='Agg', JAX_PLATFORMS='cpu', JAX_ENABLE_COMPILATION_CACHE='false',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             PATH='/opt/venv/bin:' + e.get('PATH', '/usr/bin:/bin'),
             VERIF_REPO=REPO)
    e['PYTHONPATH'] = REPO + ':' + VERIF
    return e


class Violation(Exception):
    def __init__(self, name, detail):
        super().__init__(f'{name}: {detail}')
        self.name, self.detail = name, detail


class Inconclusive(Exception):
    pass


class StepBudgetExceeded(Exception):
    """The code under test used far more logical steps than the workload can need."""


class Ctx:
    """Per-case monitor state: every oracle evaluation is counted under a name."""

    def __init__(self, scratch):
        self.events, self.viol, self.scratch, self.worst = {}, [], scratch, {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def fail(self, name, detail=''):
        self.viol.append((name, str(detail)[:2000]))

    def check(self, ok, name, detail=''):
        self.event(name)
        if not bool(ok):
            self.fail(name, detail() if callable(detail) else detail)
        return bool(ok)

    def close(self, got, want, name, rtol=1e-8, atol=0., scale=None):
        """|got - want| <= atol + rtol*scale, elementwise; scale defaults to max|want| (a global scale)."""
        import numpy as np
        self.event(name)
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(name, f'shape {got.shape} instead of {want.shape}')
            return False
        if got.size == 0:
            return True
        if scale is None:
            scale = np.max(np.abs(want))
        bound = atol + rtol * scale
        err = np.abs(got - want)
        if not np.all(np.isfinite(got)):
            self.fail(name, f'non-finite values, e.g. at {np.argwhere(~np.isfinite(got))[0].tolist()}')
            return False
        w = float(np.max(err / np.maximum(bound, 1e-300)))
        self.worst[name] = max(self.worst.get(name, 0.), w)
        if w > 1.:
            k = np.unravel_index(np.argmax(err), err.shape)
            self.fail(name, f'max error {err[k]:.3e} at {tuple(int(i) for i in k)} (got {got[k]:.12g}, want {want[k]:.12g}), '
                            f'allowed {float(np.max(bound)):.3e}')
            return False
        return True

    def raises(self, fn, name, exc=Exception):
        self.event(name)
        try:
            r = fn()
        except StepBudgetExceeded:
            raise
        except exc:
            return True
        self.fail(name, f'no error raised; returned {str(r)[:200]}')
        return False


def seed_of(prop, seed, *extra):
    h = hashlib.sha256(repr((prop, int(seed)) + extra).encode()).digest()
    return int.from_bytes(h[:8], 'little')


def load(prop):
    import importlib
    return importlib.import_module('vmon.checks.' + prop.lower())


def all_cases(mod, tier, seed):
    import numpy as np
    rng = np.random.default_rng(seed_of(mod.PROPERTY, seed, tier))
    cs = mod.cases(tier, rng)
    for i, c in enumerate(cs):
        c['seed'] = seed_of(mod.PROPERTY, seed, tier, i) % (2 ** 32)
    return cs


# ------------------------------------------------------------------ worker

def run_one(mod, case, scratch):
    import contextlib
    ctx = Ctx(scratch)
    t0 = time.time()
    status = 'ok'
    try:
        mod.run_case(ctx, case)
    except Violation as v:
        ctx.fail(v.name, v.detail)
    except Inconclusive as e:
        status = 'inconclusive: ' + str(e)
    except StepBudgetExceeded as e:
        ctx.fail('step_budget', str(e))
    except (Exception, SystemExit):
        ctx.fail('unexpected_exception', traceback.format_exc()[-1800:])
    return {'status': status, 'events': ctx.events, 'viol': ctx.viol, 'worst': ctx.worst, 't': time.time() - t0}


def worker(prop, tier, seed, scratch, wid):
    out = open(os.path.join(scratch, f'res.{wid}.jsonl'), 'w')
    mod = load(prop)
    cs = all_cases(mod, tier, seed)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    deadline = float(os.environ.get('VMON_DEADLINE', '1e18'))
    for i, c in enumerate(cs):
        if os.path.exists(os.path.join(scratch, 'stop')):
            break
        if time.time() > deadline:
            break
        try:
            os.close(os.open(os.path.join(scratch, f'claim.{i}'), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        except FileExistsError:
            continue
        d = os.path.join(scratch, f'w{wid}_{i}')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(scratch, f'start.{wid}'), 'w') as f:
            f.write(f'{i} {time.time()}')
        r = run_one(mod, c, d)
        r['i'] = i
        shutil.rmtree(d, ignore_errors=True)
        out.write(json.dumps(r) + '\n')
        out.flush()
        if r['viol']:
            open(os.path.join(scratch, 'stop'), 'w').close()
    os.remove(os.path.join(scratch, f'start.{wid}')) if os.path.exists(os.path.join(scratch, f'start.{wid}')) else None
    out.write(json.dumps({'end': True}) + '\n')
    out.close()
    os._exit(0)


# ------------------------------------------------------------------ parent

def main(prop, tier=None, seed=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = load(prop)
    cs = all_cases(mod, tier, seed)
    nw = min(getattr(mod, 'WORKERS', 8), len(cs), int(os.environ.get('VMON_WORKERS', '8')))
    case_limit = getattr(mod, 'CASE_LIMIT', 300 if tier == 'quick' else 1500)
    total_limit = 840 if tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f'vmon_{prop}_')
    env = child_env()
    if tier != 'quick':
        env['VMON_DEADLINE'] = str(time.time() + float(os.environ.get('VMON_BUDGET', '1500')))
    procs = []
    hang = None
    try:
        for w in range(nw):
            err = open(os.path.join(scratch, f'err.{w}'), 'w')
            procs.append(subprocess.Popen([PY, '-B', os.path.join(HERE, 'main.py'), prop, '--worker', str(w), '--tier', tier,
                                           '--seed', str(seed), '--scratch', scratch], env=env, cwd=scratch,
                                          stdout=subprocess.DEVNULL, stderr=err, start_new_session=True))
        stop_seen = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            for w, p in enumerate(procs):
                if p.poll() is None:
                    try:
                        i, ts = open(os.path.join(scratch, f'start.{w}')).read().split()
                    except (OSError, ValueError):
                        continue
                    if now - float(ts) > case_limit:
                        hang = (int(i), now - float(ts))
            if os.path.exists(os.path.join(scratch, 'stop')):
                stop_seen = stop_seen or now
                if now - stop_seen > 3:   # a violation is already recorded: do not wait for the others
                    break
            if hang or now - t0 > total_limit:
                break
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
    res, ends = {}, 0
    for w in range(nw):
        f = os.path.join(scratch, f'res.{w}.jsonl')
        for line in (open(f) if os.path.exists(f) else ()):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r.get('end'):
                ends += 1
            else:
                res[r['i']] = r
    errs = [open(os.path.join(scratch, f'err.{w}')).read()[-1500:] for w in range(nw)]
    shutil.rmtree(scratch, ignore_errors=True)

    known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == prop] if os.path.exists(KNOWN) else []
    events, worst = {}, {}
    violations, seen_known, inconcl = [], {}, []
    for i in sorted(res):
        r = res[i]
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0), v)
        if r['status'] != 'ok':
            inconcl.append((i, r['status']))
        for name, detail in r['viol']:
            hit = [k for k in known if k['monitor'] == name and all(cs[i].get(a) == b for a, b in k.get('case', {}).items())]
            if hit:
                seen_known[hit[0]['what']] = True
            else:
                violations.append((i, name, detail))
    if hang and not violations:
        violations.append((hang[0], 'no_progress', f'the call did not return within {hang[1]:.0f} s; '
                           f'every case of this check needs a small fraction of that'))
    done = len(res)
    nontriv = {hashlib.sha256(json.dumps(cs[i], sort_keys=True).encode()).hexdigest()
               for i, r in res.items() if r['events']}
    missing = [n for n in mod.REQUIRED if not events.get(n)]
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE,
                       'samples': [cs[i] for i in sorted(res)[:: max(1, len(res) // 5)]][:6],
                       'cases_planned': len(cs), 'oracle_evaluations': sum(events.values()),
                       'monitor_events': dict(sorted(events.items())),
                       'largest_error_over_allowed': {k: round(v, 6) for k, v in sorted(worst.items())},
                       'case_seconds_max': round(max([r['t'] for r in res.values()], default=0), 2)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': len(violations), 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop} {tier} seed={seed}: {done}/{len(cs)} cases, {sum(events.values())} oracle evaluations, '
          f'{len(violations)} violations, {wall:.1f} s')
    if violations:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{prop}_{tier}_{seed}_{violations[0][0]}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case_index': violations[0][0], 'case': cs[violations[0][0]],
                       'violations': violations[:20],
                       'replay_cmd': f'{PY} -B {HERE}/main.py {prop} --tier {tier} --seed {seed} --case {violations[0][0]}'}, f, indent=1)
        for i, name, detail in violations[:6]:
            print(f'  case {i} {json.dumps(cs[i])}: {name}: {detail}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if tier == 'quick' and done < len(cs) or ends < nw:
        print(f'INCONCLUSIVE: {done}/{len(cs)} cases finished, {ends}/{nw} workers ended normally')
        print('\n'.join(e for e in errs if e)[:3000])
        return 2
    if inconcl:
        print('INCONCLUSIVE cases:', inconcl[:5])
        return 2
    if missing:
        print('INCONCLUSIVE: monitors never reached:', missing)
        return 2
    return 0


def replay(prop, tier, seed, index):
    """Run one case in this process (debugging, replay of a witness)."""
    env = child_env()
    if os.environ.get('VMON_CHILD') != '1':
        env['VMON_CHILD'] = '1'
        return subprocess.call([PY, '-B', os.path.join(HERE, 'main.py'), prop, '--tier', tier, '--seed', str(seed), '--case', str(index)], env=env)
    mod = load(prop)
    case = all_cases(mod, tier, seed)[index]
    d = tempfile.mkdtemp(prefix='vmon_replay_')
    try:
        r = run_one(mod, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(case))
    print(json.dumps({k: r[k] for k in ('status', 'events', 't', 'worst')}))
    for name, detail in r['viol']:
        print('VIOL', name, detail)
    return 1 if r['viol'] else 0
