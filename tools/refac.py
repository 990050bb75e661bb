#!/usr/bin/env python3
"""Apply behaviour-preserving rewrites of functions in scratch copies and run the checks on them (they must stay quiet).

usage: refac.py SPEC.py [--checks C01,C02] [ID ..]
SPEC defines REFACS = {id: [(file relative to pympc/, 'Class.function', new source of the function[, extra source put before it])]}.
"""
import ast, importlib.util, os, shutil, subprocess, sys, tempfile, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace(src, qual, new, before=''):
    t = ast.parse(src)
    body = t.body
    node = None
    for part in qual.split('.'):
        node = next(x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part)
        body = node.body
    lo = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    lines = src.split('\n')
    ind = ' ' * node.col_offset
    put = lambda s: textwrap.indent(textwrap.dedent(s).strip('\n'), ind).split('\n')
    return '\n'.join(lines[:lo] + (put(before) + [''] if before else []) + put(new) + lines[node.end_lineno:])


def main():
    a = sys.argv[1:]
    checks = None
    if '--checks' in a:
        i = a.index('--checks'); checks = a[i + 1].split(','); del a[i:i + 2]
    sp = importlib.util.spec_from_file_location('spec', a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    ids = a[1:] or list(m.REFACS)
    checks = checks or sorted(f[:-3] for f in os.listdir(VERIF + '/checks') if f[0] == 'C')
    for i in ids:
        d = tempfile.mkdtemp(prefix='refac_')
        try:
            subprocess.check_call(['cp', '-a', '/repo/.', d])
            for e in m.REFACS[i]:
                p = os.path.join(d, 'pympc', e[0])
                src = open(p).read()
                if e[1] is None:
                    assert src.count(e[2]) >= 1, e[2]
                    src = src.replace(e[2], e[3])
                else:
                    src = replace(src, *e[1:])
                ast.parse(src)
                open(p, 'w').write(src)
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'pympc'], cwd=d, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
            print(i, 'tests:', r.stdout.strip().split('\n')[-1][:100], flush=True)
            for c in checks:
                r = subprocess.run([sys.executable, VERIF + '/run.py', c, 'quick', '--scratch'], env=dict(os.environ, PA_REPO=d), capture_output=True, text=True)
                last = (r.stdout.strip().split('\n') or [''])[-1]
                if r.returncode or ' 0 undecided' not in last:
                    print('   ', c, 'exit', r.returncode, last[:150], flush=True)
                    if r.returncode:
                        print('       ', [l[:260] for l in r.stdout.split('\n') if 'pympc' in l][:3], flush=True)
            print(i, 'done', flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
