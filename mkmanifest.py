"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = ('static analysis: abstract interpretation of /repo\'s syntax trees (symbolic matrix/heap domain, loop closed forms), '
        'result terms compared with a reference definition by normal form and random interpretation of terms')
T = {
    'C01': 'static effect analysis: abstract heap writes (aliasing, in-place numpy ops) per public entry point against a whitelist of documented mutators',
    'C02': 'static analysis: abstract interpretation of query-mutate-query histories, compared with a fresh object',
    'C03': 'static analysis: abstract interpretation of every optimisation-based query over infeasible, unbounded and degenerate cases (None-able solver results tracked to their uses), result terms compared with the documented answer',
    'C20': 'static effect analysis over the syntax tree: module, class and default-argument state, random sources, writes outside self',
}
NA = {
    'C22': 'numerical optimality of what Gurobi/Drake/PNNLS/Qhull return depends on floating point and on binary solvers; no source in /repo decides it',
    'C23': 'coverage of the feasible set by explicit_solve depends on step_size against run-time facet geometry; no static bound exists (it is indeed not guaranteed)',
    'C24': 'termination and cost of explicit_solve, mcais and projection depend on spectra and run-time geometry that no static argument in reach bounds',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': T.get(i, TECH), 'level': 'other',
                       'level_note': 'static analysis: obligations proved for all symbolic sizes/values or for the unrolled sizes named in the evidence; '
                                     'undecided obligations raise no alarm'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction: not claimed yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, fractions"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
