"""C12: discretized and symbolic systems are the stated ones."""
from pa.check import *

DM = 'pympc.dynamics.discretization_methods.'
KW = dict(dims=SMALL, n=80, scales={'h': ('pos', 'pos', 'neg', 'tiny', 'zero')})

EULER = '''
import numpy as np
def f(A, B, c, h):
    if h < 0:
        raise ValueError()
    return np.eye(A.shape[0]) + h*A, h*B, h*c
'''
ZOH = '''
import numpy as np
from scipy.linalg import expm
def f(A, B, c, h):
    if h < 0:
        raise ValueError()
    n, m = B.shape
    M = np.zeros((n + m + 1, n + m + 1))
    M[:n, :n] = A
    M[:n, n:n+m] = B
    M[:n, n+m] = c
    E = expm(h*M)
    return E[:n, :n], E[:n, n:n+m], E[:n, n+m]
'''
SRC = {'explicit_euler': EULER, 'zero_order_hold': ZOH}


def data(I, c=True):
    return (mat(I, 'A', nx, nx), mat(I, 'B', nx, nu)) + ((mat(I, 'c', nx),) if c else ()) + (scalar('h'),)


for name in SRC:
    @ob('C12', name, [DM + name])
    def _(k, name=name):
        a = k.actual(lambda I: run(I, I.prog.find(DM + name), *data(I)))
        e = k.spec(SRC[name], data)
        k.same(a, e, **KW)

    for cls in ('LinearSystem', 'AffineSystem'):
        @ob('C12', '%s.from_continuous %s' % (cls, name), [DS + cls + '.from_continuous'])
        def _(k, name=name, cls=cls):
            l = cls == 'LinearSystem'
            view = 'from pympc.dynamics.discrete_time_systems import %s as cls\ndef f(*a):\n    S = cls.from_continuous(*a)\n    return S.A, S.B%s, S.nx, S.nu\n' % (
                cls, '' if l else ', S.c')
            a = k.actual(lambda I: run(I, snippet(k.prog, view), *(data(I, not l) + (Const(name),))))
            src = SRC[name].replace('def f(', 'def g(')
            if l:
                src += '\ndef f(A, B, h):\n    S = g(A, B, np.zeros(A.shape[0]), h)\n    return S[0], S[1], B.shape[0], B.shape[1]\n'
            else:
                src += '\ndef f(A, B, c, h):\n    S = g(A, B, c, h)\n    return S[0], S[1], S[2], B.shape[0], B.shape[1]\n'
            e = k.spec(src, lambda I: data(I, not l))
            k.same(a, e, **KW)


# ------------------------------------------------------------------ symbolic systems
def sym(I):
    return Opq('symvec', 'x', nx), Opq('symvec', 'u', nu), Opq('symexpr', 'e', nx)


JAC = '''
import numpy as np
def g(x, u, e):
    A = np.array(e.jacobian(x)).astype(np.float64)
    B = np.array(e.jacobian(u)).astype(np.float64)
    o = {xi: 0 for xi in x}
    o.update({ui: 0 for ui in u})
    c = np.array(e.subs(o)).astype(np.float64).flatten()
    return A, B, c
'''
LINEAR = '''
    if not np.allclose(c, np.zeros(c.size)):
        raise ValueError()
'''
NAMES = {'zero_order_hold': 'zoh', 'explicit_euler': 'eul'}
for cls in ('LinearSystem', 'AffineSystem'):
    l = cls == 'LinearSystem'

    @ob('C12', cls + '.from_symbolic', [DS + cls + '.from_symbolic'])
    def _(k, cls=cls, l=l):
        view = 'from pympc.dynamics.discrete_time_systems import %s as cls\ndef f(*a):\n    S = cls.from_symbolic(*a)\n    return S.A, S.B%s, S.nx, S.nu\n' % (cls, '' if l else ', S.c')
        a = k.actual(lambda I: run(I, snippet(k.prog, view), *sym(I)))
        src = JAC + '\ndef f(x, u, e):\n    A, B, c = g(x, u, e)\n' + (LINEAR if l else '') + '    return A, B%s, A.shape[0], B.shape[1]\n' % ('' if l else ', c')
        e = k.spec(src, sym)
        k.same(a, e, **KW)

    for meth in (None, 'zero_order_hold', 'explicit_euler'):
        @ob('C12', '%s.from_symbolic_continuous %s' % (cls, meth), [DS + cls + '.from_symbolic_continuous'])
        def _(k, cls=cls, l=l, meth=meth):
            view = 'from pympc.dynamics.discrete_time_systems import %s as cls\ndef f(*a):\n    S = cls.from_symbolic_continuous(*a)\n    return S.A, S.B%s, S.nx, S.nu\n' % (cls, '' if l else ', S.c')
            a = k.actual(lambda I: run(I, snippet(k.prog, view), *(sym(I) + (scalar('h'),) + ((Const(meth),) if meth else ()))))
            src = JAC + SRC[meth or 'zero_order_hold'].replace('def f(', 'def dis(') + '\ndef f(x, u, e, h):\n    A, B, c = g(x, u, e)\n' + (LINEAR if l else '') + \
                '    A, B, c = dis(A, B, %s, h)\n' % ('np.zeros(A.shape[0])' if l else 'c') + '    return A, B%s, A.shape[0], B.shape[1]\n' % ('' if l else ', c')
            e = k.spec(src, lambda I: sym(I) + (scalar('h'),))
            k.same(a, e, **KW)
