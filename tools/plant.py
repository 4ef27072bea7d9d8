"""Plant a bug: plant.py SPEC.py  ->  /verif/seeded/<id>/ after confirming it in a scratch copy.
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo='python source run with cwd /repo')].
Confirms: patch applies, imports build, stable tests pass (--notest skips), demo 0 without and nonzero with; then runs checks (--checks C01,C02 default: own property).
"""
import sys, os, subprocess, json, shutil, runpy, argparse, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run in the repository's root: exit 0 if the property holds on this input, nonzero if it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PATH="/opt/venv/bin:$PATH"
exec /opt/venv/bin/python -B "$here/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(b, a):
    wt = tempfile.mkdtemp(prefix='plant_'); shutil.rmtree(wt)
    sh(f'cp -a /repo {wt}')
    rep = {'id': b['id']}
    try:
        for f, old, new in b['edits']:
            p = os.path.join(wt, f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {wt} diff').stdout
        d = os.path.join(V, 'seeded', b['id']) if not a.dry else tempfile.mkdtemp(prefix='plantd_')
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write("import jax\njax.config.update('jax_enable_x64', True)\n" + b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo'); r1 = sh(f'timeout 300 bash {d}/demo.sh', cwd=wt)
        rep['demo'] = (r0.returncode, r1.returncode)
        if r0.returncode or not r1.returncode:
            rep['demo_out'] = [(r.stdout[-600:], r.stderr[-1200:]) for r in (r0, r1)]
        else:
            rep['why'] = (r1.stderr.strip().splitlines() or ['?'])[-1][:200]
        if not a.notest:
            # like /opt/vp/test.sh but in the copy
            import re; s = re.sub(r'/repo\b', wt, open('/opt/vp/test.sh').read())
            open(wt + '.test.sh', 'w').write(s)
            t = sh(f'PYTHONPATH={wt} bash {wt}.test.sh {wt}.json'); rep['tests'] = t.stdout.strip().splitlines()[-1:] or t.stderr[-300:]
            for x in (wt + '.test.sh', wt + '.json'):
                if os.path.exists(x): os.remove(x)
        for c in (a.checks.split(',') if a.checks else [b['property']]):
            r = sh(f'VERIF_REPO={wt} {PY} -B {V}/vmon/main.py {c} --seed {a.seed}')
            rep[c] = (r.returncode, r.stdout[:700] if r.returncode else '')
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print(json.dumps(rep, indent=1)); sys.stdout.flush()
    if not a.dry:
        import fcntl; lk = open('/tmp/.catchlock', 'w'); fcntl.flock(lk, 2)
        cf = os.path.join(V, 'tools', 'catch.json'); cj = json.load(open(cf))
        got = [k for k in rep if k.startswith('C') and k[1:].isdigit() and rep[k][0] == 1]
        cj[b['id']] = sorted(set(cj.get(b['id'], [])) | set(got)); json.dump(cj, open(cf, 'w'), indent=1, sort_keys=True)
    return rep
if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('--notest', action='store_true'); ap.add_argument('--dry', action='store_true')
    ap.add_argument('--checks'); ap.add_argument('--jobs', type=int, default=1); ap.add_argument('--only'); ap.add_argument('--seed', default='1')
    a = ap.parse_args()
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in runpy.run_path(a.spec)['BUGS'] if not a.only or b['id'] in a.only.split(',')]
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(lambda b: plant(b, a), todo))
