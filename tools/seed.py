"""seed.py SPEC.py [ID..]: build seeded/<id>/ from a list BUGS of dicts
(id, property, edits=[(file, old, new[, nth])], demo (python source), needs, breaks); each is confirmed in a scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL='C.UTF-8', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
DEMO = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
allok = True
for b in spec['BUGS']:
    if want and b['id'] not in want:
        continue
    d = tempfile.mkdtemp(prefix='seed')
    try:
        w = d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', w])
        out = d + '/' + b['id']
        os.makedirs(out)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        demo = lambda: subprocess.run(['bash', out + '/demo.sh'], cwd=w, env=ENV, capture_output=True, text=True)
        r = demo()
        clean = r.returncode
        if clean:
            print(b['id'], 'CLEAN DEMO FAILS', r.stderr[-600:])
        for e in b['edits']:
            f = w + '/pympc/' + e[0]
            s = open(f).read()
            parts = s.split(e[1])
            n = e[3] if len(e) > 3 else 0
            assert len(parts) > 1, (b['id'], 'not found', e[1])
            if len(parts) > 2 and len(e) < 4:
                print(b['id'], 'ambiguous', len(parts) - 1)
            open(f, 'w').write(e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:]))
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        open(out + '/patch.diff', 'w').write(diff)
        r = demo()
        broken = r.returncode
        t = open('/opt/vp/test.sh').read().replace('/repo', w).replace('/opt/vp/reports', d + '/rep')
        open(d + '/test.sh', 'w').write(t)
        subprocess.run(['bash', d + '/test.sh', d + '/o.json'], capture_output=True)
        o = json.load(open(d + '/o.json'))
        passed = set(o.get('passed') or [k for k, v in o.items() if v in ('passed', True)])
        bad = stable - passed
        c = subprocess.run([sys.executable, HERE + '/run.py', b['property'], '--scratch'], env=dict(os.environ, PA_REPO=w), capture_output=True, text=True)
        lines = [l[:240] for l in c.stdout.splitlines() if 'replay=' not in l]
        ok = clean == 0 and broken != 0 and not bad
        print('%s: demo clean %s patched %s; stable tests failing %d %s; check %s exit %d  %s' % (b['id'], clean, broken, len(bad), sorted(bad)[:3], b['property'], c.returncode, lines[:1]))
        if ok:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            dst = os.path.join(HERE, 'seeded', b['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        else:
            allok = False
            print(r.stderr[-300:])
    finally:
        shutil.rmtree(d)
sys.exit(0 if allok else 1)
