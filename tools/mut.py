"""mut.py PROP FILE OLD NEW [N]: run a check against a scratch copy of /repo with one textual replacement (development aid)."""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/pympc', d + '/pympc')
p = os.path.join(d, 'pympc', f)
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
parts = s.split(old)
assert len(parts) > 1, 'text not found'
if len(parts) > 2 and len(sys.argv) <= 5:
    print('occurs %d times' % (len(parts) - 1))
s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
open(p, 'w').write(s)
for prop in props.split(','):
    r = subprocess.run([sys.executable, '/verif/run.py', prop, '--scratch'] + sys.argv[6:], env=dict(os.environ, PA_REPO=d), capture_output=True, text=True)
    out = [l[:330] for l in r.stdout.splitlines() if 'replay=' not in l]
    print(prop, 'exit', r.returncode, *out[:60 if '-v' in sys.argv else 5], sep='\n  ')
    if r.returncode not in (0, 1):
        print(r.stderr[-1500:])
shutil.rmtree(d)
