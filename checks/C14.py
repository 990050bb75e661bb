"""C14: the hybrid MPC program encodes the mode logic with the stated big-Ms, and its solution is unpacked step by step."""
from pa.check import *

HM = CC + 'HybridModelPredictiveController'
DIMS = dict(SMALL, nx=(1, 2), nu=(1, 2), s=(1, 2), q=(0, 1), mi=(1, 2))
SOLVED = dict(SPD, **{'?empty': 0., '?unbdir': 0.})     # all the big-M programs have a solution
KW = dict(dims=DIMS, n=24, scales=SOLVED, view=J.set_view)

SET_OF = '''
import numpy as np
def f(c):
    M = c.mpmiqp
    return np.hstack((M.A['u'], M.A['z'], M.A['d'], M.A['x'])), M.b
'''
COST_OF = '''
def f(c, u, z, x):
    M = c.mpmiqp
    return .5*u.dot(M.H['uu']).dot(u) + .5*z.dot(M.H['zz']).dot(z) + z.dot(M.H['zx']).dot(x) + .5*x.dot(M.H['xx']).dot(x)
'''
# rows in (u, z, d, x0); z(t) stacks the auxiliary states of the modes, x(t+1) is their sum
ROWS = '''
import numpy as np
from pympc.optimization.programs import linear_program
def low(f, DA, Db, DC, Dd):
    sol = linear_program(f, DA, Db, DC, Dd)
    if sol['min'] is None:
        raise ValueError('no bigM')
    return sol['min']
def bigM(A, B, c, DA, Db, DC, Dd):
    S = len(A)
    al, be, ga = [], [], []
    for i in range(S):
        F = np.hstack((A[i], B[i]))
        G, g = np.vstack((DA[i], DC[i], -DC[i])), np.concatenate((Db[i], Dd[i], -Dd[i]))
        ali, bei, gai = [], [], []
        for j in range(S):
            D = (DA[j], Db[j], DC[j], Dd[j])
            ali.append(np.array([low(F[k], *D) for k in range(F.shape[0])]) + c[i])
            bei.append(np.array([-low(-F[k], *D) for k in range(F.shape[0])]) + c[i])
            gai.append(np.array([-low(-G[k], *D) for k in range(G.shape[0])]) - g)
        al.append(ali)
        be.append(bei)
        ga.append(gai)
    return al, be, ga
def f(A, B, c, DA, Db, DC, Dd, XA, Xb, XC, Xd, nx, nu, N):
    S = len(A)
    al, be, ga = bigM(A, B, c, DA, Db, DC, Dd)
    E, r, T, h = [], [], [], []
    for t in range(N):
        def row(x, u, zs, ds):
            # a block row: coefficients of x(t), u(t), list of (mode, matrix) for z(t), list of (mode, column) for d(t)
            n = x.shape[0]
            R = np.zeros((n, nu*N + nx*S*N + S*N + nx))
            R[:, nu*t:nu*(t+1)] = u
            for i in range(S):
                o = nu*N + nx*S*t + nx*i
                if zs[i] is not None:
                    R[:, o:o+nx] = zs[i]
                if ds[i] is not None:
                    R[:, nu*N + nx*S*N + S*t + i] = ds[i]
                if t > 0:
                    o = nu*N + nx*S*(t-1) + nx*i
                    R[:, o:o+nx] = x
            if t == 0:
                R[:, nu*N + nx*S*N + S*N:] = x
            return R
        zx, zu = np.zeros((nx, nx)), np.zeros((nx, nu))
        for i in range(S):
            I = [np.eye(nx) if j == i else None for j in range(S)]
            mI = [-np.eye(nx) if j == i else None for j in range(S)]
            none = [None]*S
            # al_ii d_i <= z_i <= be_ii d_i
            E.append(row(zx, zu, mI, [al[i][i] if j == i else None for j in range(S)]))
            r.append(np.zeros(nx))
            E.append(row(zx, zu, I, [-be[i][i] if j == i else None for j in range(S)]))
            r.append(np.zeros(nx))
            # A_i x + B_i u + c_i - sum be_ij d_j <= z_i <= A_i x + B_i u + c_i - sum al_ij d_j
            E.append(row(-A[i], -B[i], I, [al[i][j] if j != i else None for j in range(S)]))
            r.append(c[i])
            E.append(row(A[i], B[i], mI, [-be[i][j] if j != i else None for j in range(S)]))
            r.append(-c[i])
            # domain of mode i, relaxed by ga_ij when mode j is selected
            G, g = np.vstack((DA[i], DC[i], -DC[i])), np.concatenate((Db[i], Dd[i], -Dd[i]))
            E.append(row(G[:, :nx], G[:, nx:], none, [-ga[i][j] if j != i else None for j in range(S)]))
            r.append(g)
        # exactly one mode
        one = np.zeros((1, nu*N + nx*S*N + S*N + nx))
        one[:, nu*N + nx*S*N + S*t:nu*N + nx*S*N + S*(t+1)] = np.ones((1, S))
        T.append(one)
        h.append(np.ones(1))
    last = np.zeros((nx, nu*N + nx*S*N + S*N + nx))
    for i in range(S):
        o = nu*N + nx*S*(N-1) + nx*i
        last[:, o:o+nx] = np.eye(nx)
    E.append(XA.dot(last))
    r.append(Xb)
    T.append(XC.dot(last))
    h.append(Xd)
    return np.vstack(E), np.concatenate(r), np.vstack(T), np.concatenate(h)
'''
COST = '''
import numpy as np
def f(Q, R, P, u, z, x, nx, nu, N, S):
    V = 0.
    for t in range(N):
        v = u[nu*t:nu*(t+1)]
        V = V + .5*x.dot(Q).dot(x) + .5*v.dot(R).dot(v)
        x = np.zeros(nx)
        for i in range(S):
            x = x + z[nx*S*t+nx*i:nx*S*t+nx*(i+1)]
    return V + .5*x.dot(P).dot(x)
'''


def lists(I, S, eq=True):
    f = lambda n, *sh: I.new_list([One(I.thaw(farr(n, *[z(i) if callable(z) else z for z in sh], idx=(P(i),)))) for i in range(S)])
    mi, pi = (lambda i: elem('mi', P(i))), (lambda i: elem('pi', P(i)) if eq else ZERO)
    return (f('A', nx, nx), f('B', nx, nu), f('c', nx), f('DA', mi, nx + nu), f('Db', mi), f('DC', pi, nx + nu), f('Dd', pi))


def terminal(I):
    return mat(I, 'XA', s, nx), mat(I, 'Xb', s), mat(I, 'XC', q, nx), mat(I, 'Xd', q)


def build(I, S, T, eq):
    r = hmpc(I, eq, S, T)
    if r.dead:
        raise DeadPath()
    return r


for S, T, eq in ((1, 1, True), (1, 2, True), (2, 1, True), (2, 2, False), (2, 2, True), (3, 1, False), (3, 2, False)):
    @ob('C14', 'constraints, %d modes, horizon %d%s' % (S, T, ', equalities' if eq else ''), [HM], limit=240)
    def _(k, S=S, T=T, eq=eq):
        a = k.actual(lambda I: run(I, lambda: I.call_func(snippet(k.prog, SET_OF), [build(I, S, T, eq).val], {})))
        e = k.spec(ROWS, lambda I: lists(I, S, eq) + terminal(I) + (nx, nu, P(T)))
        k.same(a, e, 'constraints', **KW)


def h_min(I, fi, env):
    """A linear program that has a solution; its minimum is a function of the data."""
    key = tuple(NONE if env.get(y) is None else I.freeze(env[y]) for y in ('f', 'A', 'b', 'C', 'd'))
    A = I.arr(env['A'])
    if not isinstance(A, Mat):
        return I.top('program')
    vals = {'min': alg.scalar_poly(Mat.fn(('lpmin',) + key, ())), 'argmin': I.new_arr(Mat.fn(('lparg',) + key, (A.shape[1],)))}
    return I.alloc(DictC({Const(y): v for y, v in vals.items()}))


LPMIN = {'pympc.optimization.programs.linear_program': h_min}
for S, T, eq in ((1, 4, True), (2, 3, True), (3, 2, False), (2, 5, False)):
    @ob('C14', 'constraints given the big-Ms, %d modes, horizon %d' % (S, T), [HM], limit=240)
    def _(k, S=S, T=T, eq=eq):
        def deep(I):
            I.unroll = max(I.unroll, S + 1, T + 1)
        a = k.actual(lambda I: deep(I) or run(I, lambda: I.call_func(snippet(k.prog, SET_OF), [build(I, S, T, eq).val], {})), LPMIN)
        e = k.spec(ROWS, lambda I: deep(I) or lists(I, S, eq) + terminal(I) + (nx, nu, P(T)), opaque=LPMIN)
        k.same(a, e, 'constraints', **dict(KW, n=8, need=4))


@ob('C14', 'missing big-Ms', [HM], limit=240)
def _(k):
    a = k.actual(lambda I: run(I, lambda: I.call_func(snippet(k.prog, SET_OF), [build(I, 2, 1, False).val], {})))
    e = k.spec(ROWS, lambda I: lists(I, 2, False) + terminal(I) + (nx, nu, P(1)))
    k.same(a, e, 'rejected when a big-M program has no solution', **dict(KW, n=60, scales=dict(SPD, **{'?empty': .1, '?unbdir': .04})))


for S, T in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 2)):
    @ob('C14', 'cost, %d modes, horizon %d' % (S, T), [HM], limit=200)
    def _(k, S=S, T=T):
        a = k.actual(lambda I: run(I, lambda: I.call_func(snippet(k.prog, COST_OF), [build(I, S, T, False).val, mat(I, 'u', nu * T),
                                                          mat(I, 'z', nx * S * T), mat(I, 'x', nx)], {})), NOBIG)
        e = k.spec(COST, lambda I: (mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu), mat(I, 'P', nx, nx), mat(I, 'u', nu * T),
                                    mat(I, 'z', nx * S * T), mat(I, 'x', nx), nx, nu, P(T), P(S)))
        k.same(a, e, 'cost', **KW)


# the cost does not involve the big-Ms: zero ones of the right sizes keep that part of the analysis small
def zero_bigM(I, fi, env):
    Sys = I.getattr(env['self'], 'S')
    S = I.getattr(Sys, 'nm')
    n = int(S.const()) if isinstance(S, Poly) and S.const() is not None else None
    if n is None:
        return I.top('modes')

    def table(rows):
        return I.new_list([One(I.new_list([One(I.new_arr(Mat.zeros((rows(i), ONE)))) for j in range(n)])) for i in range(n)])
    if fi.name.endswith('dynamics'):
        return Tup([table(lambda i: nx), table(lambda i: nx)])
    return table(lambda i: elem('mi', P(i)))


NOBIG = {HM + '._get_bigM_dynamics': zero_bigM, HM + '._get_bigM_domains': zero_bigM}

MI = PP + 'MultiParametricMixedIntegerQuadraticProgram'
SOLVE_OF = '''
def f(M, x):
    sol = M.solve(x)
    return sol['min'], sol['u'], sol['z'], sol['d']
'''
SOLVE = '''
import numpy as np
from pympc.optimization.programs import mixed_integer_quadratic_program
def f(Huu, Hzz, Hzx, Hxx, Au, Az, Ad, Ax, b, x):
    nu, nz, nd = Au.shape[1], Az.shape[1], Ad.shape[1]
    H = np.zeros((nu + nz + nd, nu + nz + nd))
    H[:nu, :nu] = Huu
    H[nu:nu+nz, nu:nu+nz] = Hzz
    f = np.zeros(nu + nz + nd)
    f[nu:nu+nz] = Hzx.dot(x)
    sol = mixed_integer_quadratic_program(nu + nz, H, f, np.hstack((Au, Az, Ad)), b - Ax.dot(x))
    if sol['min'] is None:
        return None, None, None, None
    v = sol['argmin']
    return sol['min'] + .5*x.dot(Hxx).dot(x), v[:nu], v[nu:nu+nz], v[nu+nz:nu+nz+nd]
'''


def midata(I):
    return (mat(I, 'Huu', nu, nu), mat(I, 'Hzz', nz, nz), mat(I, 'Hzx', nz, nx), mat(I, 'Hxx', nx, nx),
            mat(I, 'Au', m, nu), mat(I, 'Az', m, nz), mat(I, 'Ad', m, nd), mat(I, 'Ax', m, nx), mat(I, 'b', m))


@ob('C14', 'mixed-integer program solved at a point', [MI + '.solve'])
def _(k):
    a = k.actual(lambda I: run(I, snippet(k.prog, SOLVE_OF), mpmiqp(I), mat(I, 'x', nx)))
    e = k.spec(SOLVE, lambda I: midata(I) + (mat(I, 'x', nx),))
    k.same(a, e, **dict(KW, scales=SPD, n=60))


def mi_sized(I, S, T):
    a, b, c = nu * P(T), nx * P(S) * P(T), P(S) * P(T)
    M = new(I, MI, dic(I, uu=mat(I, 'Huu', a, a), zz=mat(I, 'Hzz', b, b), zx=mat(I, 'Hzx', b, nx), xx=mat(I, 'Hxx', nx, nx)),
               dic(I, u=mat(I, 'Au', m, a), z=mat(I, 'Az', m, b), d=mat(I, 'Ad', m, c), x=mat(I, 'Ax', m, nx)), mat(I, 'b', m)).val
    I.setattr(M, 'modes', P(S))
    return M


def h_solve(I, fi, env):
    """The solution at a point as functions of it; the mode indicators have one entry equal to one per step."""
    x = I.freeze(env['x'])
    A = I.getattr(env['self'], 'A')
    sz = lambda y: I.arr(I.getitem(A, Const(y))).shape[1]
    none = Cond(('nosol', x))
    vals = {'min': alg.scalar_poly(Mat.fn(('solmin', x), ()))}
    for y in 'uz':
        vals[y] = I.new_arr(Mat.fn(('sol' + y, x), (sz(y),)))
    vals['d'] = I.new_arr(Mat.fn(('onehot', I.getattr(env['self'], 'modes'), x), (sz('d'),)))
    return I.alloc(DictC({Const(y): gamma(none, NONE, v) for y, v in vals.items()}))


FF_OF = '''
def f(c, M, x):
    c.mpmiqp = M
    return c.feedforward(x), c.feedback(x)
'''
FF = '''
import numpy as np
def f(M, x, N, S, nx, nu):
    sol = M.solve(x)
    if sol['min'] is None:
        return (None, None, None, None), None
    u, xs, ms = [], [x], []
    for t in range(N):
        u.append(sol['u'][nu*t:nu*(t+1)])
        y = np.zeros(nx)
        for i in range(S):
            y = y + sol['z'][nx*S*t+nx*i:nx*S*t+nx*(i+1)]
        xs.append(y)
        k = None
        for i in range(S):
            if k is None and sol['d'][S*t+i] > .5:
                k = i
        ms.append(k)
    return (u, xs, ms, sol['min']), u[0]
'''


for S, T in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)):
    @ob('C14', 'feedforward, %d modes, horizon %d' % (S, T), [HM + '.feedforward', HM + '.feedback'])
    def _(k, S=S, T=T):
        op = dict(NOBIG, **{MI + '.solve': h_solve, HM + '._condense_program': lambda I, fi, env: NONE})
        a = k.actual(lambda I: run(I, snippet(k.prog, FF_OF), build(I, S, T, False).val, mi_sized(I, S, T), mat(I, 'x', nx)), op)
        e = k.spec(FF, lambda I: (mi_sized(I, S, T), mat(I, 'x', nx), P(T), P(S), nx, nu), opaque=op)
        k.same(a, e, **dict(KW, n=150))
