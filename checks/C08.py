"""C08: the named solver or discretization method runs, with the data it was given."""
from pa.check import *

SV = 'pympc.optimization.solvers.'
KW = dict(dims=SMALL, n=30)
ROLES = {'linear_program': ('f', 'A', 'b', 'C', 'd'), 'quadratic_program': ('H', 'f', 'A', 'b', 'C', 'd'),
         'mixed_integer_quadratic_program': ('nc', 'H', 'f', 'A', 'b', 'C', 'd')}


def backend(mod, fn):
    def h(I, fi, env):
        rest = tuple(sorted((str(k), I.freeze(v)) for k, v in env.items() if k not in ROLES[fn]))
        return Opq('backend', (Const(mod + '.' + fn),) + tuple(I.freeze(env.get(r, NONE)) for r in ROLES[fn]) + (Const(str(rest)),))
    return h


BACK = {SV + mod + '.' + fn: backend(mod, fn) for mod in ('pnnls', 'gurobi', 'drake') for fn in ROLES if (mod, fn) != ('pnnls', 'mixed_integer_quadratic_program')}


def real():
    return dict({PR + fn: None for fn in ROLES}, **BACK)


def args(I, fn, eq):
    a = {'nc': dim('nc', 0), 'H': mat(I, 'H', nx, nx), 'f': mat(I, 'f', nx), 'A': mat(I, 'A', m, nx), 'b': mat(I, 'b', m),
         'C': mat(I, 'C', p, nx) if eq else NONE, 'd': mat(I, 'd', p) if eq else NONE}
    return [a[r] for r in ROLES[fn]]


DEFAULT = {'linear_program': 'pnnls', 'quadratic_program': 'pnnls', 'mixed_integer_quadratic_program': 'gurobi'}
for fn in ROLES:
    for eq in (True, False):
        for solver in (None, 'pnnls', 'gurobi', 'drake', 'nosuch', ''):
            for how in ('positional', 'keyword'):
                @ob('C08', '%s solver=%s%s %s' % (fn, solver, ' equalities' if eq else '', how), [PR + fn])
                def _(k, fn=fn, eq=eq, solver=solver, how=how):
                    mod = DEFAULT[fn] if solver is None else solver
                    good = SV + mod + '.' + fn in BACK
                    if good:
                        k.need(SV + mod + '.' + fn)

                    def go(I):
                        av = args(I, fn, eq)
                        if not eq:
                            av = av[:-2]
                        if how == 'positional':
                            if solver is not None:
                                av = args(I, fn, eq) + [Const(solver)]
                            return run(I, I.prog.find(PR + fn), *av)
                        kw = {r: v for r, v in zip(ROLES[fn], av)}
                        if solver is not None:
                            kw['solver'] = Const(solver)
                        return run(I, I.prog.find(PR + fn), **kw)
                    a = k.actual(go, real())
                    src = ('from pympc.optimization.solvers.%s import %s as g\ndef f(*a):\n    return g(*a)\n' % (mod, fn)) if good else \
                        'def f(*a):\n    raise ValueError()\n'
                    e = k.spec(src, lambda I: tuple(args(I, fn, eq)), opaque=real())
                    k.same(a, e, 'backend called', **KW)

# ------------------------------------------------------------------ discretization methods
DM = 'pympc.dynamics.discretization_methods.'


def method_h(name):
    def h(I, fi, env):
        key = (name,) + tuple(I.freeze(env.get(r, NONE)) for r in ('A', 'B', 'c', 'h'))
        return Tup([I.new_arr(Mat.fn(('disA',) + key, (nx, nx))), I.new_arr(Mat.fn(('disB',) + key, (nx, nu))),
                    I.new_arr(Mat.fn(('disc',) + key, (nx,)))])
    return h


DH = {DM + x: method_h(x) for x in ('zero_order_hold', 'explicit_euler')}
VIEW = '''
def f(cls, a, kw):
    S = cls.from_continuous(*a, **kw)
    return S.A, S.B, %s
'''
for cls in ('LinearSystem', 'AffineSystem'):
    for meth in (None, 'zero_order_hold', 'explicit_euler', 'nosuch'):
        for how in ('positional', 'keyword'):
            @ob('C08', '%s.from_continuous method=%s %s' % (cls, meth, how), [DS + cls + '.from_continuous'])
            def _(k, cls=cls, meth=meth, how=how):
                lin_ = cls == 'LinearSystem'

                def data(I):
                    return [mat(I, 'A', nx, nx), mat(I, 'B', nx, nu)] + ([] if lin_ else [mat(I, 'c', nx)]) + [scalar('h')]
                src = 'from pympc.dynamics.discrete_time_systems import %s as cls\ndef f(*a, **kw):\n    S = cls.from_continuous(*a, **kw)\n    return S.A, S.B%s\n' % (
                    cls, '' if lin_ else ', S.c')

                def go(I):
                    kw = {}
                    a = data(I)
                    if meth is not None:
                        if how == 'positional':
                            a.append(Const(meth))
                        else:
                            kw['method'] = Const(meth)
                    return run(I, snippet(k.prog, src), *a, **kw)
                a = k.actual(go, DH)
                mod = meth or 'zero_order_hold'
                if mod == 'nosuch':
                    ssrc = 'def f(*a):\n    raise ValueError()\n'
                elif lin_:
                    ssrc = 'import numpy as np\nfrom %s import %s as g\ndef f(A, B, h):\n    return g(A, B, np.zeros(A.shape[0]), h)[:2]\n' % (DM[:-1], mod)
                else:
                    ssrc = 'from %s import %s as g\ndef f(A, B, c, h):\n    return g(A, B, c, h)\n' % (DM[:-1], mod)
                e = k.spec(ssrc, lambda I: tuple(data(I)), opaque=DH)
                k.same(a, e, 'method applied', scales={'h': ('pos',)}, **KW)


# ------------------------------------------------------------------ symbolic systems: the method named is the one applied
from checks.C12 import sym, JAC, SRC, LINEAR


def symbolic(k, cls, meth, how):
    view = 'from pympc.dynamics.discrete_time_systems import %s as cls\ndef f(*a, **kw):\n    S = cls.from_symbolic_continuous(*a, **kw)\n    return S.A, S.B\n' % cls

    def go(I):
        a, kw = list(sym(I)) + [scalar('h')], {}
        if meth is not None:
            if how == 'positional':
                a.append(Const(meth))
            else:
                kw['method'] = Const(meth)
        return run(I, snippet(k.prog, view), *a, **kw)
    lin_ = LINEAR if cls == 'LinearSystem' else ''
    if meth == 'nosuch':
        src = JAC + '\ndef f(x, u, e, h):\n    raise ValueError()\n'
    else:
        src = JAC + SRC[meth or 'zero_order_hold'].replace('def f(', 'def dis(') + '\ndef f(x, u, e, h):\n    A, B, c = g(x, u, e)\n' + lin_ + '    return dis(A, B, c, h)[:2]\n'
    return k.actual(go), k.spec(src, lambda I: sym(I) + (scalar('h'),))


SKW = dict(dims=SMALL, n=40, scales={'h': ('pos',)})
for cls in ('LinearSystem', 'AffineSystem'):
    for meth, how in ((None, ''), ('zero_order_hold', 'positional'), ('explicit_euler', 'positional'), ('explicit_euler', 'keyword'), ('nosuch', 'keyword')):
        @ob('C08', '%s.from_symbolic_continuous method=%s %s' % (cls, meth, how), [DS + cls + '.from_symbolic_continuous'])
        def _(k, cls=cls, meth=meth, how=how):
            a, e = symbolic(k, cls, meth, how)
            n = len(k.findings)
            k.same(a, e, 'method applied', **SKW)
            if len(k.findings) > n and meth not in (None, 'nosuch'):
                # a failure of every method is not a matter of selecting it
                o = [m for m in SRC if m != meth][0]
                b, f = symbolic(k, cls, o, how)
                if J.compare(b, f, **SKW).verdict == J.DIFFERENT:
                    del k.findings[n:]
                    k.unsure('method applied', 'all the methods fail: see C12')
