"""C07: malformed problem data are rejected with a ValueError."""
from pa.check import *

R1, R2, K1, K2, R3 = dim('r1'), dim('r2'), dim('k1'), dim('k2', 0), dim('r3')
DIMS = dict(SMALL, r1=(1, 2, 3), r2=(1, 2, 3, 4), k1=(1, 2, 3), k2=(0, 1, 2), nx=(1, 2, 3), r3=(1, 2, 3, 4), sm=(1, 2, 3))
RAISE = 'def f(*a):\n    raise ValueError()\n'
DM = 'pympc.dynamics.discretization_methods.'
SV = 'pympc.optimization.solvers.'


def rejects(name, anchor, go, bad, opaque=None, scales=None, n=80):
    """go(I) runs the construct; bad(pt): the sampled data are malformed."""
    @ob('C07', name, [anchor])
    def _(k):
        op = opaque() if callable(opaque) else opaque
        a = k.actual(go, opaque=op)
        e = k.spec(RAISE, lambda I: ())
        k.same(a, e, 'rejected with ValueError', rule='accepted', dims=DIMS, n=n, scales=scales, pre=lambda pt: bad(pt) if bad else True)


def D(pt, *names):
    return [int(pt.atom(('dim', x), {})) for x in names]


def ne(a, b):
    return lambda pt: D(pt, a)[0] != D(pt, b)[0]


def both(f, g):
    return lambda pt: f(pt) or g(pt)


def ctor(qual, f):
    return lambda I: new(I, qual, *f(I))


def call(qual, f):
    return lambda I: run(I, I.prog.find(qual), *f(I))


def meth(mk, name, f):
    return lambda I: method(I, mk(I), name, *f(I))


# ------------------------------------------------------------------ polyhedra
M = mat
rejects('Polyhedron rows of A and b', PO + '.__init__', ctor(PO, lambda I: (M(I, 'A', R1, nx), M(I, 'b', R2))), ne('r1', 'r2'))
rejects('Polyhedron rows of A and b, with equalities', PO + '.__init__',
        ctor(PO, lambda I: (M(I, 'A', R1, nx), M(I, 'b', R2), M(I, 'C', p, nx), M(I, 'd', p))), ne('r1', 'r2'))
rejects('Polyhedron rows of C and d', PO + '.__init__',
        ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m), M(I, 'C', R1, nx), M(I, 'd', R2))), ne('r1', 'r2'))
rejects('Polyhedron b a column', PO + '.__init__', ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m, ONE))), None)
rejects('Polyhedron d a column', PO + '.__init__',
        ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m), M(I, 'C', p, nx), M(I, 'd', p, ONE))), None)
rejects('Polyhedron b a matrix', PO + '.__init__', ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m, R1))), None)
rejects('Polyhedron d a matrix', PO + '.__init__', ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m), M(I, 'C', p, nx), M(I, 'd', p, R1))), None)
rejects('Polyhedron C without d', PO + '.__init__', ctor(PO, lambda I: (M(I, 'A', m, nx), M(I, 'b', m), M(I, 'C', p, nx))), None)
rejects('Polyhedron d without C', PO + '.__init__',
        lambda I: new(I, PO, M(I, 'A', m, nx), M(I, 'b', m), d=M(I, 'd', p)), None)
for what in ('inequality', 'equality'):
    for ix in (False, True):
        q1 = (lambda I: (indices(I, K2, nx),)) if ix else (lambda I: ())
        nm = ' indices' if ix else ''
        cols = 'k2' if ix else 'nx'
        rejects('add_%s rows%s' % (what, nm), PO + '.add_' + what,
                meth(poly, 'add_' + what, lambda I, q1=q1, ix=ix: (M(I, 'A1', R1, K2 if ix else nx), M(I, 'b1', R2)) + q1(I)), ne('r1', 'r2'))
        rejects('add_%s columns%s' % (what, nm), PO + '.add_' + what,
                meth(poly, 'add_' + what, lambda I, q1=q1: (M(I, 'A1', R1, K1), M(I, 'b1', R1)) + q1(I)), ne('k1', cols))
for ix in (False, True):
    q1 = (lambda I: (indices(I, K2, nx),)) if ix else (lambda I: ())
    nm = ' indices' if ix else ''
    cols = 'k2' if ix else 'nx'
    for what in ('lower', 'upper'):
        rejects('add_%s_bound size%s' % (what, nm), PO + '.add_%s_bound' % what,
                meth(poly, 'add_%s_bound' % what, lambda I, q1=q1: (M(I, 'l', R1),) + q1(I)), ne('r1', cols))
        rejects('add_%s_bound number%s' % (what, nm), PO + '.add_%s_bound' % what,
                meth(poly, 'add_%s_bound' % what, lambda I, q1=q1: (scalar('l0'),) + q1(I)), lambda pt, cols=cols: D(pt, cols)[0] != 1)
    rejects('add_bounds sizes%s' % nm, PO + '.add_bounds',
            meth(poly, 'add_bounds', lambda I, q1=q1: (M(I, 'l', R1), M(I, 'h', R2)) + q1(I)), both(ne('r1', cols), ne('r2', cols)))
    rejects('from_bounds sizes%s' % nm, PO + '.from_bounds',
            call(PO + '.from_bounds', lambda I, ix=ix: (M(I, 'l', R1), M(I, 'h', R2)) + ((indices(I, K2, nx), nx) if ix else ())),
            both(ne('r1', 'r2'), ne('r1', 'k2')) if ix else ne('r1', 'r2'))
for what, arg in (('from_lower_bound', lambda I: (M(I, 'l', R1),)), ('from_upper_bound', lambda I: (M(I, 'l', R1),)),
                  ('from_bounds', lambda I: (M(I, 'l', R1), M(I, 'h', R1)))):
    rejects(what + ' indices without a dimension', PO + '.' + what, call(PO + '.' + what, lambda I, arg=arg: arg(I) + (indices(I, R1, nx),)), None)
for what in ('from_lower_bound', 'from_upper_bound'):
    rejects(what + ' size', PO + '.' + what, call(PO + '.' + what, lambda I: (M(I, 'l', R1), indices(I, K2, nx), nx)), ne('r1', 'k2'))
    rejects(what + ' size, dimension given', PO + '.' + what, call(PO + '.' + what, lambda I: (M(I, 'l', R1), NONE, nx)), ne('r1', 'nx'))
rejects('from_bounds size, dimension given', PO + '.from_bounds', call(PO + '.from_bounds', lambda I: (M(I, 'l', R1), M(I, 'h', R1), NONE, nx)), ne('r1', 'nx'))

# ------------------------------------------------------------------ projection (emptiness and boundedness as functions of the set)
proj = lambda eq: lambda I: method(I, poly(I, eq), 'project_to', I.new_list([One(ZERO)]))


def hull_handler(I, fi, env):
    return Tup([I.new_arr(Mat.atom('hE', (dim('hr'), ONE))), I.new_arr(Mat.atom('hf', (dim('hr'),))), I.new_arr(Mat.atom('hv', (dim('hv'), ONE)))])


def geoh():
    return dict(geo_handlers(), **{'pympc.geometry.polyhedron.convex_hull_method': hull_handler})


for eq in (False, True):
    @ob('C07', 'project_to empty, unbounded or lower-dimensional polyhedron%s' % (' with equalities' if eq else ''), [PO + '.project_to'])
    def _(k, eq=eq):
        a = k.actual(proj(eq), opaque=geoh())
        e = k.spec('''
def f(P):
    e, b = P.empty, P.bounded
    if e or not b or P.C.shape[0] > 0:
        raise ValueError()
    return e, b
''', lambda I: (poly(I, eq),), opaque=geo_handlers())
        pre = lambda pt: e.at(Point(pt.seed, pt.dims, SCQ))[0] == 'raise'
        k.same(a, e, 'rejected with ValueError', rule='accepted', dims=DIMS, n=200, scales=SCQ, pre=pre)
SCQ = {}
from pa.point import Point

# ------------------------------------------------------------------ systems
SYS = {'LinearSystem': False, 'AffineSystem': True}
for cls, hasc in SYS.items():
    cc = (lambda I, r=None: (M(I, 'c', nx if r is None else r),)) if hasc else (lambda I, r=None: ())
    tail = {cls + ' constructor': (DS + cls + '.__init__', DS + cls, lambda I: (), True),
            cls + '.from_continuous': (DS + cls + '.from_continuous', DS + cls + '.from_continuous', lambda I: (scalar('h'),), False),
            cls + '.from_continuous euler': (DS + cls + '.from_continuous', DS + cls + '.from_continuous', lambda I: (scalar('h'), Const('explicit_euler')), False)}
    if hasc:
        for meth_ in ('explicit_euler', 'zero_order_hold'):
            tail[meth_] = (DM + meth_, DM + meth_, lambda I: (scalar('h'),), False)
    for nm, (anchor, qual, extra, isctor) in tail.items():
        mk = (lambda q, f: ctor(q, f)) if isctor else (lambda q, f: call(q, f))
        SCH = {'h': ('pos',)}
        rejects(nm + ' A not square', anchor, mk(qual, lambda I, cc=cc, ex=extra: (M(I, 'A', R1, R2), M(I, 'B', R1, nu)) + cc(I, R1) + ex(I)), ne('r1', 'r2'), scales=SCH)
        rejects(nm + ' rows of A and B', anchor, mk(qual, lambda I, cc=cc, ex=extra: (M(I, 'A', R1, R1), M(I, 'B', R2, nu)) + cc(I, R1) + ex(I)), ne('r1', 'r2'), scales=SCH)
        if hasc:
            rejects(nm + ' rows of A and c', anchor, mk(qual, lambda I, ex=extra: (M(I, 'A', R1, R1), M(I, 'B', R1, nu), M(I, 'c', R2)) + ex(I)), ne('r1', 'r2'), scales=SCH)
            rejects(nm + ' c a column', anchor, mk(qual, lambda I, ex=extra: (M(I, 'A', R1, R1), M(I, 'B', R1, nu), M(I, 'c', R1, ONE)) + ex(I)), None, scales=SCH)
        if not isctor:
            rejects(nm + ' negative time step', anchor, mk(qual, lambda I, cc=cc, ex=extra: (M(I, 'A', nx, nx), M(I, 'B', nx, nu)) + cc(I) + ex(I)), None, scales={'h': ('neg',)})

PW = DS + 'PieceWiseAffineSystem'


def asys(I, i, a, b):
    return fobj(I, DS + 'AffineSystem', A=farr('A', a, a, idx=(i,)), B=farr('B', a, b, idx=(i,)), c=farr('c', a, idx=(i,)), nx=P(a), nu=P(b))


def adom(I, i, n):
    return fobj(I, PO, A=farr('DA', m, n, idx=(i,)), b=farr('Db', m, idx=(i,)), C=farr('DC', p, n, idx=(i,)), d=farr('Dd', p, idx=(i,)), **poly_caches(I))


def lists(ns, sysf, nd_, domf):
    return lambda I: new(I, PW, seq(I, ns, lambda i: sysf(I, i)), seq(I, nd_, lambda i: domf(I, i)))


rejects('PWA number of modes', PW + '.__init__', lists(sm, lambda I, i: asys(I, i, nx, nu), R1, lambda I, i: adom(I, i, nx + nu)), ne('sm', 'r1'))
for S in (2, 3):
    for bad in range(1, S):
        sel = lambda I, i, a, b, bad=bad: b if i == P(bad) else a
        rejects('PWA states %d/%d' % (bad, S), PW + '.__init__',
                lists(S, lambda I, i, sel=sel: asys(I, i, sel(I, i, R1, R2), nu), S, lambda I, i: adom(I, i, R1 + nu)), ne('r1', 'r2'))
        rejects('PWA inputs %d/%d' % (bad, S), PW + '.__init__',
                lists(S, lambda I, i, sel=sel: asys(I, i, nx, sel(I, i, R1, R2)), S, lambda I, i: adom(I, i, nx + R1)), ne('r1', 'r2'))
        rejects('PWA domain dimension %d/%d' % (bad, S), PW + '.__init__',
                lists(S, lambda I, i: asys(I, i, nx, nu), S, lambda I, i, sel=sel: adom(I, i, sel(I, i, nx + nu, R1))), lambda pt: D(pt, 'r1')[0] != sum(D(pt, 'nx', 'nu')))
    rejects('PWA all domains of another dimension %d' % S, PW + '.__init__',
            lists(S, lambda I, i: asys(I, i, nx, nu), S, lambda I, i: adom(I, i, R1)), lambda pt: D(pt, 'r1')[0] != sum(D(pt, 'nx', 'nu')))

# ------------------------------------------------------------------ programs with only one of C and d
ROLES = {'linear_program': ('f', 'A', 'b'), 'quadratic_program': ('H', 'f', 'A', 'b'), 'mixed_integer_quadratic_program': ('nc', 'H', 'f', 'A', 'b')}


def pargs(I, fn):
    a = {'nc': dim('nc', 0), 'H': M(I, 'H', nx, nx), 'f': M(I, 'f', nx), 'A': M(I, 'A', m, nx), 'b': M(I, 'b', m)}
    return {r: a[r] for r in ROLES[fn]}


for mod in ('pnnls', 'gurobi', 'drake', None):
    for fn in ROLES:
        if mod == 'pnnls' and fn == 'mixed_integer_quadratic_program':
            continue
        q1 = (SV + mod + '.' if mod else PR) + fn
        for c in (True, False):
            # through programs.py: with the default solver
            rejects('%s %s without %s' % (mod or 'programs', fn, 'd' if c else 'C'), q1,
                    lambda I, q1=q1, fn=fn, c=c: run(I, I.prog.find(q1), **dict(pargs(I, fn), **({'C': M(I, 'C', p, nx)} if c else {'d': M(I, 'd', p)}))), None,
                    opaque=None if mod else {PR + x: None for x in ROLES})

# ------------------------------------------------------------------ explicit solution not stored
MP = CC + 'ModelPredictiveController'
for what in ('feedforward_explicit', 'feedback_explicit', 'plot_state_space_partition', 'plot_optimal_value_function'):
    rejects(what + ' before storing', MP + '.' + what,
            lambda I, what=what: method(I, mpc(I).val, what, *((mat(I, 'x', nx),) if what.startswith('feed') else ())), None, n=20)
