"""C09: polyhedra hold exactly the constraints they were given."""
from pa.check import *

KW = dict(dims=SMALL, n=50, view=J.set_view)


def idx(I):
    return indices(I, s, nx)


def two(I, n2=None, eq2=True):
    return poly(I), poly(I, eq2, n=n2, pre='Q', mm=s, pp=q)


def after(I, P1, name, *a, **k):
    r = method(I, P1, name, *a, **k)
    return r if r.dead else Result(I, P1, r.st, r.raises, False)


def case(name, anchor, act, src, args, **kw):
    @ob('C09', name, [anchor])
    def _(k):
        a = k.actual(act)
        e = k.spec('import numpy as np\n' + src, args)
        k.same(a, e, **dict(KW, **kw))


def pargs(I, eq=True):
    z = (mat(I, 'PA', m, nx), mat(I, 'Pb', m))
    return z + (mat(I, 'PC', p, nx), mat(I, 'Pd', p)) if eq else z


case('Polyhedron(A,b,C,d)', PO + '.__init__', lambda I: new(I, PO, *pargs(I)), 'def f(A,b,C,d): return A,b,C,d', pargs)
case('Polyhedron(A,b)', PO + '.__init__', lambda I: new(I, PO, *pargs(I, False)), 'def f(A,b): return A,b', lambda I: pargs(I, False))

SEL = '''
def sel(idx, n):
    S = np.zeros((len(idx), n))
    for i in range(len(idx)):
        S[i, idx[i]] = 1.
    return S
'''
for kind, a, b in (('inequality', 'A', 'b'), ('equality', 'C', 'd')):
    for with_idx in (False, True):
        cols = s if with_idx else nx

        def act(I, kind=kind, with_idx=with_idx, cols=cols):
            P1 = poly(I)
            extra = (idx(I),) if with_idx else ()
            return after(I, P1, 'add_' + kind, mat(I, 'NA', q, cols), mat(I, 'Nb', q), *extra)
        body = 'np.vstack((A, NA%s)), np.concatenate((b, Nb)), C, d' if kind == 'inequality' else \
            'A, b, np.vstack((C, NA%s)), np.concatenate((d, Nb))'
        src = SEL + 'def f(A,b,C,d,NA,Nb%s): return %s' % (',idx' if with_idx else '', body % ('.dot(sel(idx, A.shape[1]))' if with_idx else ''))
        case('add_%s%s' % (kind, ' indices' if with_idx else ''), PO + '.add_' + kind, act, src,
             lambda I, with_idx=with_idx, cols=cols: pargs(I) + (mat(I, 'NA', q, cols), mat(I, 'Nb', q)) + ((idx(I),) if with_idx else ()))

BOUND = {
    'add_lower_bound': 'np.vstack((A, -S)), np.concatenate((b, -lo)), C, d',
    'add_upper_bound': 'np.vstack((A, S)), np.concatenate((b, hi)), C, d',
    'add_bounds': 'np.vstack((A, -S, S)), np.concatenate((b, -lo, hi)), C, d',
}
FROM = {
    'from_lower_bound': '-S, -lo',
    'from_upper_bound': 'S, hi',
    'from_bounds': 'np.vstack((-S, S)), np.concatenate((-lo, hi))',
}
VAR = {'lower_bound': ('lo',), 'upper_bound': ('hi',), 'bounds': ('lo', 'hi')}
for name, body in list(BOUND.items()) + list(FROM.items()):
    vs = VAR[name.split('_', 1)[1]]
    for with_idx in (False, True):
        n = s if with_idx else nx
        isadd = name.startswith('add')

        def act(I, name=name, vs=vs, with_idx=with_idx, n=n, isadd=isadd):
            a = [mat(I, v, n) for v in vs]
            if isadd:
                return after(I, poly(I), name, *(a + ([idx(I)] if with_idx else [])))
            return run(I, I.prog.find(PO + '.' + name), *(a + ([idx(I), nx] if with_idx else [])))

        def args(I, vs=vs, with_idx=with_idx, n=n, isadd=isadd):
            z = pargs(I) if isadd else ()
            return z + tuple(mat(I, v, n) for v in vs) + (nx,) + ((idx(I),) if with_idx else ())
        src = SEL + 'def f(%s%s,n%s):\n    S = %s\n    return %s' % (
            'A,b,C,d,' if isadd else '', ','.join(vs), ',idx' if with_idx else '', 'sel(idx, n)' if with_idx else 'np.eye(n)', body)
        case(name + (' indices' if with_idx else ''), PO + '.' + name, act, src, args)

# a bound given as a number constrains the single named component
for name in BOUND:
    vs = VAR[name.split('_', 1)[1]]

    def act(I, name=name, vs=vs):
        i = I.new_list([One(elem('i0', 0))])
        ELEM_RANGE['i0'] = lambda pt, ix: (0, int(pt.atom(('dim', 'nx'), {})))
        return after(I, poly(I), name, *([scalar(v) for v in vs] + [i]))

    def args(I, vs=vs):
        ELEM_RANGE['i0'] = lambda pt, ix: (0, int(pt.atom(('dim', 'nx'), {})))
        return pargs(I) + tuple(scalar(v) for v in vs) + (nx, elem('i0', 0))
    src = '''
def f(A,b,C,d,%s,n,i):
    S = np.zeros((1, n)); S[0, i] = 1.
    %s
    return %s''' % (','.join(vs), '\n    '.join('%s = np.array([%s])' % (v, v) for v in vs), BOUND[name])
    case(name + ' number', PO + '.' + name, act, src, args)

case('intersection', PO + '.intersection', lambda I: (lambda z: method(I, z[0], 'intersection', z[1]))(two(I)),
     'def f(A,b,C,d,A2,b2,C2,d2): return np.vstack((A,A2)), np.concatenate((b,b2)), np.vstack((C,C2)), np.concatenate((d,d2))',
     lambda I: pargs(I) + (mat(I, 'QA', s, nx), mat(I, 'Qb', s), mat(I, 'QC', q, nx), mat(I, 'Qd', q)))
PROD = '''
def bd(X, Y):
    Z = np.zeros((X.shape[0]+Y.shape[0], X.shape[1]+Y.shape[1]))
    Z[:X.shape[0], :X.shape[1]] = X
    Z[X.shape[0]:, X.shape[1]:] = Y
    return Z
def f(A,b,C,d,A2,b2,C2,d2): return bd(A,A2), np.concatenate((b,b2)), bd(C,C2), np.concatenate((d,d2))
'''
case('cartesian_product', PO + '.cartesian_product', lambda I: (lambda z: method(I, z[0], 'cartesian_product', z[1]))(two(I, nu)),
     PROD, lambda I: pargs(I) + (mat(I, 'QA', s, nu), mat(I, 'Qb', s), mat(I, 'QC', q, nu), mat(I, 'Qd', q)))
case('cartesian_product without equalities', PO + '.cartesian_product',
     lambda I: method(I, poly(I, False), 'cartesian_product', poly(I, False, n=nu, pre='Q', mm=s)),
     PROD.replace('def f(A,b,C,d,A2,b2,C2,d2)', 'def f(A,b,A2,b2)').replace(', bd(C,C2), np.concatenate((d,d2))', ''),
     lambda I: pargs(I, False) + (mat(I, 'QA', s, nu), mat(I, 'Qb', s)))
case('normalize', PO + '.normalize', lambda I: after(I, poly(I), 'normalize'), 'def f(A,b,C,d): return A,b,C,d', pargs)


# symbolic constraints: expressions g(x) <= 0 and h(x) = 0, affine in x
def sym(I, name='e', rows=None):
    return Opq('symvec', 'x', nx), Opq('symexpr', name, s if rows is None else rows)


SYM = '''
def f(x, e%s):
    A = np.array(e.jacobian(x)).astype(np.float64)
    b = -np.array(e.subs({xi: 0 for xi in x})).astype(np.float64).flatten()
    %s
    return %s
'''
SYM2 = '''C = np.array(e2.jacobian(x)).astype(np.float64)
    d = -np.array(e2.subs({xi: 0 for xi in x})).astype(np.float64).flatten()'''
case('from_symbolic inequalities', PO + '.from_symbolic', lambda I: run(I, I.prog.find(PO + '.from_symbolic'), *sym(I)), SYM % ('', '', 'A, b'), lambda I: sym(I))
case('from_symbolic equalities', PO + '.from_symbolic',
     lambda I: run(I, I.prog.find(PO + '.from_symbolic'), *(sym(I) + sym(I, 'e2', q)[1:])), SYM % (', e2', SYM2, 'A, b, C, d'),
     lambda I: sym(I) + sym(I, 'e2', q)[1:])
for kind in ('inequality', 'equality'):
    body = 'np.vstack((PA, A)), np.concatenate((Pb, b)), PC, Pd' if kind == 'inequality' else 'PA, Pb, np.vstack((PC, A)), np.concatenate((Pd, b))'
    case('add_symbolic_' + kind, PO + '.add_symbolic_' + kind,
         lambda I, kind=kind: after(I, poly(I), 'add_symbolic_' + kind, *sym(I)),
         SYM % (', PA, Pb, PC, Pd', '', body), lambda I: sym(I) + pargs(I))
