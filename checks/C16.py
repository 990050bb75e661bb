"""C16: explicit lookups answer only from a region covering the point; guesses and first inputs."""
from pa.check import *

KW = dict(dims=SMALL, n=150, scales=SPD, view=J.set_view)
Q = PP + 'MultiParametricQuadraticProgram'
E = PP + 'ExplicitSolution'
M1 = CC + 'ModelPredictiveController'


def regions(I, T):
    """A list of T critical regions (explicit when T is a number)."""
    def one(i):
        g = lambda n, *sh: I.thaw(farr(n, *sh, idx=(P(i),)))
        pol = new(I, PO, g('cA', elem('mi', i), nx), g('cb', elem('mi', i))).val
        r = new(I, PP + 'CriticalRegion', I.new_list([]), dic(I, **{'x': g('ux', nu, nx), '0': g('u0', nu)}),
                dic(I, **{'x': g('px', m, nx), '0': g('p0', m)}),
                dic(I, **{'xx': g('Vxx', nx, nx), 'x': g('Vx', nx), '0': scalar_i('V0', i)}), pol)
        return r.val
    CTX.low[('elem', 'mi')] = 1
    return I.new_list([One(one(P(i))) for i in range(T)])


def scalar_i(name, i):
    return alg.scalar_poly(Mat.atom(name, (), (P(i),)))


def data(I, T):
    f = lambda n, *sh: I.new_list([One(I.thaw(farr(n, *[z(i) if callable(z) else z for z in sh], idx=(P(i),)))) for i in range(T)])
    mi = lambda i: elem('mi', P(i))
    return (f('cA', mi, nx), f('cb', mi), f('ux', nu, nx), f('u0', nu), f('px', m, nx), f('p0', m), f('Vxx', nx, nx), f('Vx', nx),
            I.new_list([One(scalar_i('V0', i)) for i in range(T)]))


LOOK = '''
import numpy as np
def f(cA, cb, ux, u0, px, p0, Vxx, Vx, V0, x):
    for i in range(len(cA)):
        if np.all(cA[i].dot(x) - cb[i] <= 1.e-7):
            return ux[i].dot(x) + u0[i], px[i].dot(x) + p0[i], .5*x.dot(Vxx[i]).dot(x) + Vx[i].dot(x) + V0[i]
    return None, None, None
'''
GET = '''
def f(E, x):
    return E.u(x), E.p(x), E.V(x)
'''
for T in (1, 2, 3):
    @ob('C16', 'ExplicitSolution.u/p/V with %d regions' % T, [E + '.u', E + '.p', E + '.V'])
    def _(k, T=T):
        a = k.actual(lambda I: run(I, snippet(k.prog, GET), new(I, E, regions(I, T)).val, mat(I, 'x', nx)))
        e = k.spec(LOOK, lambda I: data(I, T) + (mat(I, 'x', nx),))
        k.same(a, e, **KW)

    @ob('C16', 'ExplicitSolution.get_critical_region with %d regions' % T, [E + '.get_critical_region'])
    def _(k, T=T):
        a = k.actual(lambda I: run(I, snippet(k.prog, '''
def f(E, x):
    cr = E.get_critical_region(x)
    if cr is None:
        return None
    return cr.u(x), cr.p(x), cr.V(x)
'''), new(I, E, regions(I, T)).val, mat(I, 'x', nx)))
        e = k.spec(LOOK.replace('return None, None, None', 'return None'), lambda I: data(I, T) + (mat(I, 'x', nx),))
        k.same(a, e, **KW)

# ------------------------------------------------------------------ controllers
CTL = '''
def f(c, E, x):
    c.explicit_solution = E
    return c.feedforward_explicit(x), c.feedback_explicit(x)
'''
CTLS = '''
import numpy as np
def f(cA, cb, ux, u0, px, p0, Vxx, Vx, V0, x, N, nu):
    for i in range(len(cA)):
        if np.all(cA[i].dot(x) - cb[i] <= 1.e-7):
            u = ux[i].dot(x) + u0[i]
            V = .5*x.dot(Vxx[i]).dot(x) + Vx[i].dot(x) + V0[i]
            us = []
            for t in range(N):
                us.append(u[t*nu:(t+1)*nu])
            return (us, V), us[0]
    return (None, None), None
'''
NOP = {M1 + '._condense_program': lambda I, fi, env: NONE}


def ctl(I, T):
    D = new(I, PO, mat(I, 'DA', m, nx + nu), mat(I, 'Db', m)).val
    XN = new(I, PO, mat(I, 'XA', s, nx), mat(I, 'Xb', s)).val
    return new(I, M1, lin(I), P(T), mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu), mat(I, 'P', nx, nx), D, XN).val


def with_inputs(f, n):
    """Regions for n inputs in total."""
    def g(I, *a):
        global nu
        old = nu
        globals()['nu'] = n
        try:
            return f(I, *a)
        finally:
            globals()['nu'] = old
    return g


for R, T in ((1, 1), (2, 2), (1, 3), (1, N)):
    @ob('C16', 'explicit controller, %d regions, horizon %s' % (R, T), [M1 + '.feedforward_explicit', M1 + '.feedback_explicit'])
    def _(k, R=R, T=T):
        a = k.actual(lambda I: run(I, snippet(k.prog, CTL), ctl(I, T), new(I, E, with_inputs(regions, nu * P(T))(I, R)).val, mat(I, 'x', nx)), NOP)
        e = k.spec(CTLS, lambda I: with_inputs(data, nu * P(T))(I, R) + (mat(I, 'x', nx), P(T), nu))
        k.same(a, e, **KW)

IMP = '''
def f(c, M, x):
    c.mpqp = M
    return c.feedforward(x), c.feedback(x)
'''
IMPS = '''
def f(M, x, N, nu):
    sol = M.solve(x)
    if sol['min'] is None:
        return (None, None), None
    us = []
    for t in range(N):
        us.append(sol['argmin'][t*nu:(t+1)*nu])
    return (us, sol['min']), us[0]
'''


def mpqp_n(I, n):
    return new(I, Q, dic(I, uu=mat(I, 'Huu', n, n), ux=mat(I, 'Hux', n, nx), xx=mat(I, 'Hxx', nx, nx)),
               dic(I, u=mat(I, 'fu', n), x=mat(I, 'fx', nx)), mat(I, 'g'), dic(I, u=mat(I, 'Au', m, n), x=mat(I, 'Ax', m, nx)), mat(I, 'b', m)).val


for T in (1, 2, N):
    @ob('C16', 'implicit controller, horizon %s' % T, [M1 + '.feedforward', M1 + '.feedback'])
    def _(k, T=T):
        a = k.actual(lambda I: run(I, snippet(k.prog, IMP), ctl(I, T), mpqp_n(I, nu * P(T)), mat(I, 'x', nx)), NOP)
        e = k.spec(IMPS, lambda I: (mpqp_n(I, nu * P(T)), mat(I, 'x', nx), P(T), nu))
        k.same(a, e, **KW)


# ------------------------------------------------------------------ storing
def h_explicit(I, fi, env):
    return Opq('explicit', tuple(I.freeze(env.get(x, NONE)) for x in ('self', 'step_size', 'verbose')))


STORE = '''
def f(c, M, h):
    c.mpqp = M
    a = c.explicit_solution
    c.store_explicit_solution()
    b = c.explicit_solution
    c.store_explicit_solution(step_size=h)
    d = c.explicit_solution
    c.store_explicit_solution(verbose=True)
    return a, b, d, c.explicit_solution
'''
STORES = '''
def f(M, h):
    return None, M.explicit_solve(), M.explicit_solve(step_size=h), M.explicit_solve(verbose=True)
'''


@ob('C16', 'store_explicit_solution', [M1 + '.store_explicit_solution', Q + '.explicit_solve'])
def _(k):
    op = {Q + '.explicit_solve': h_explicit}
    a = k.actual(lambda I: run(I, snippet(k.prog, STORE), ctl(I, 2), mpqp_n(I, 2 * nu), scalar('h')), dict(NOP, **op))
    e = k.spec(STORES, lambda I: (mpqp_n(I, 2 * nu), scalar('h')), opaque=op)
    k.same(a, e, **KW)


# ------------------------------------------------------------------ solving at a point, with a guess
def h_region(I, fi, env):
    """The critical region of an active set: None, or functions of the active set."""
    act = env['active_set']
    fa = I.freeze(act)
    g = lambda n, *sh: I.new_arr(Mat.fn((n, fa), sh))
    pol = new(I, PO, g('crA', s, nx), g('crb', s)).val
    cr = new(I, PP + 'CriticalRegion', act, dic(I, **{'x': g('crux', nu, nx), '0': g('cru0', nu)}),
             dic(I, **{'x': g('crpx', m, nx), '0': g('crp0', m)}),
             dic(I, **{'xx': g('crVxx', nx, nx), 'x': g('crVx', nx), '0': alg.scalar_poly(Mat.fn(('crV0', fa), ()))}), pol).val
    return gamma(Cond(('nolicq', fa)), NONE, cr)


OPR = {Q + '.explicit_solve_given_active_set': h_region}
POINT = '''
def f(M, x, *a):
    cr = M.explicit_solve_given_point(x, *a)
    if cr is None:
        return None
    return cr.u(x), cr.p(x), cr.V(x), cr.A, cr.b
'''
POINTS = '''
def f(M, x, *a):
    cr = None
    if len(a) > 0:
        c = M.explicit_solve_given_active_set(a[0])
        if c is not None and c.contains(x):
            cr = c
    if cr is None:
        sol = M.solve(x)
        if sol['min'] is None:
            return None
        cr = M.explicit_solve_given_active_set(sol['active_set'])
    if cr is None:
        return None
    return cr.u(x), cr.p(x), cr.V(x), cr.A, cr.b
'''
GUESS = {'no guess': lambda I: (), 'guess': lambda I: (I.new_list([One(ZERO)]),), 'empty guess': lambda I: (I.new_list([]),),
         'any guess': lambda I: (active_set(I),)}
for gn in GUESS:
    @ob('C16', 'explicit_solve_given_point, ' + gn, [Q + '.explicit_solve_given_point'])
    def _(k, gn=gn):
        a = k.actual(lambda I: run(I, snippet(k.prog, POINT), mpqp(I), mat(I, 'x', nx), *GUESS[gn](I)), OPR)
        e = k.spec(POINTS, lambda I: (mpqp(I), mat(I, 'x', nx)) + GUESS[gn](I), opaque=OPR)
        k.same(a, e, **KW)
