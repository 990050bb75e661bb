"""Run the check of each planted change (scratch copies; never /repo itself).  tools/allseeds.py [ID..]"""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))


def one(i):
    d = ROOT + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        shutil.copytree('/repo/pympc', t + '/pympc')
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t, d + '/patch.diff'], cwd='/', capture_output=True, text=True)
        if r.returncode:
            return i, prop, 'patch: ' + r.stderr[:100]
        r = subprocess.run(['python3', ROOT + '/run.py', prop, 'quick', '--scratch'], env=dict(os.environ, PA_REPO=t), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, prop, ('caught' if r.returncode == 1 and v else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-200:]))
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(2) as ex:
    for z in ex.map(one, ids):
        print(*z, flush=True)
