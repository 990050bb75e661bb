#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--only NAME]: decide one property on the current source of /repo."""
import traceback
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
import json
import multiprocessing
import time
sys.setrecursionlimit(12000)


def worker(job):
    name, tier = job
    from pa import check
    o = next(x for x in check.OBS if x.name == name and x.prop == sys.argv[1])
    return check.run_ob(PROG, o, tier)


def main():
    global PROG
    prop = sys.argv[1]
    tier = next((a for a in sys.argv[2:] if a in ('quick', 'thorough')), os.environ.get('VERIF_TIER') or 'quick')
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    t0 = time.time()
    from pa import check, model
    PROG = model.Program()
    importlib.import_module('checks.' + prop)
    obs = [o for o in check.OBS if o.prop == prop and (tier == 'thorough' or not o.thorough) and (only is None or only in o.name)]
    jobs = [(o.name, tier) for o in obs]
    if '--serial' in sys.argv:
        res = [worker(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
            res = pool.map(worker, jobs, chunksize=1)
    return report(prop, tier, res, time.time() - t0, PROG, only)


def report(prop, tier, res, wall, prog, only):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    missing = [r['missing'] for r in res if r['missing']]
    viol, quiet = [], []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for r in res:
        for rule, construct, msg, detail in r['findings']:
            key = '%s|%s|%s' % (prop, r['name'], rule)
            k = next((x for x in known.get('findings', []) if x['property'] == prop and x['key'] == key), None)
            if k:
                quiet.append((k, msg))
            else:
                viol.append((key, r['name'], rule, construct, msg, detail))
    props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}
    out = []
    for n, (key, name, rule, construct, msg, detail) in enumerate(viol):
        path = os.path.join(HERE, 'evidence', 'replay', '%s_%d%s.json' % (prop, n, '_s' if '--scratch' in sys.argv else ''))
        loc = prog.where(construct)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'title': props[prop]['title'], 'obligation': name, 'rule': rule, 'construct': construct,
                       'location': loc, 'finding': msg, 'detail': detail,
                       'rerun': 'cd /verif && python3 run.py %s %s --only %r' % (prop, tier, name)}, f, indent=1, default=str)
        print('%s: %s [%s] %s' % (loc, construct, rule, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        out.append({'key': key, 'construct': construct, 'location': loc, 'what': msg[:600]})
    for k, msg in quiet:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nob = sum(len(r['proved']) + len(r['undecided']) + len(r['findings']) for r in res)
    ndis = sum(len(r['proved']) for r in res)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other',
          'coverage': {'kind': 'static analysis of /repo source (abstract interpretation, nothing executed)',
                       'explanation': 'Obligations decided from the syntax tree of /repo by abstract interpretation: the term computed for all arguments is '
                       'compared with the term of the reference definition. "normal form": the terms are equal for all sizes and values; "dataflow": '
                       'decided on the abstract heap; "n points": the terms agree under random interpretation at n exact rational points (sizes and '
                       'values drawn from VERIF_SEED-independent streams), so they are equal with high probability for the sizes drawn. '
                       'An undecided obligation raises no alarm and gives no assurance.',
                       'obligations': nob, 'discharged': ndis,
                       'undecided': [{'obligation': r['name'], 'what': w, 'why': y} for r in res for w, y in r['undecided']],
                       'functions_analysed': sorted({a for r in res for a in r['analysed']}),
                       'n_functions_analysed': len({a for r in res for a in r['analysed']}),
                       'loops_summarised': sum(r['loops'] for r in res), 'calls_analysed': sum(r['calls'] for r in res),
                       'files': sorted(prog.files()),
                       'rules': [{'obligation': r['name'], 'anchors': r['anchors'], 'proved': ['%s (%s)' % x for x in r['proved']],
                                  'wall_s': round(r['wall'], 2)} for r in res]},
          'violations': out, 'known_findings': [k['what'] for k, _ in quiet],
          'assumptions': ['numpy, scipy and solver library calls behave as modelled in pa/np*.py, pa/solvermodel.py, pa/programs.py',
                          'real arithmetic (no rounding)'],
          'wall_s': round(wall, 2)}
    if only is None and '--scratch' not in sys.argv:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    und = nob - ndis - len(viol) - len(quiet)
    print('%s: %d obligations, %d proved, %d undecided, %d violated, %.1f s' % (prop, nob, ndis, und, len(viol), wall))
    if '-v' in sys.argv:
        for r in res:
            print('  %-50s %5.1fs proved %d %s' % (r['name'], r['wall'], len(r['proved']), '' if not r['undecided'] else r['undecided']))
            if r['error']:
                print(r['error'])
    if viol:
        return 1
    if missing:
        print('ERROR: not found in the source: %s' % ', '.join(missing))
        return 2
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
