"""Symbolic arguments shared by the checks: systems, polyhedra, programs, controllers."""
from . import alg
from .drive import *
from .vals import *
from .poly import Poly, P, ZERO, ONE, CTX, fresh
from .point import ELEM_RANGE

DS = 'pympc.dynamics.discrete_time_systems.'
PO = 'pympc.geometry.polyhedron.Polyhedron'
PP = 'pympc.optimization.parametric_programs.'
PR = 'pympc.optimization.programs.'
CC = 'pympc.control.controllers.'

nx, nu, N, s, m, p = dim('nx'), dim('nu'), dim('N'), dim('s'), dim('m'), dim('p')
q, sm, nz, nd = dim('q'), dim('sm', 1), dim('nz'), dim('nd')
SMALL = {'nx': (1, 2, 2), 'nu': (1, 1, 2), 'N': (1, 2, 3), 's': (1, 2), 'm': (1, 2, 3), 'p': (1, 1, 2), 'q': (1, 2),
         'sm': (2, 2, 3), 'nz': (1, 2), 'nd': (1, 2)}
alg.SYM.update(['Q', 'R', 'P', 'Huu', 'Hxx', 'Hzz', 'H'])
SPD = {k: ('spd',) for k in ('Q', 'R', 'P', 'Huu', 'Hzz', 'H')}


def lin(I):
    return new(I, DS + 'LinearSystem', mat(I, 'A', nx, nx), mat(I, 'B', nx, nu)).val


def aff(I):
    return new(I, DS + 'AffineSystem', mat(I, 'A', nx, nx), mat(I, 'B', nx, nu), mat(I, 'c', nx)).val


def poly(I, eq=True, n=None, pre='P', mm=None, pp=None):
    n = nx if n is None else n
    mm, pp = m if mm is None else mm, p if pp is None else pp
    a = [mat(I, pre + 'A', mm, n), mat(I, pre + 'b', mm)]
    if eq:
        a += [mat(I, pre + 'C', pp, n), mat(I, pre + 'd', pp)]
    return new(I, PO, *a).val


def us(I, name='u'):
    return family(I, N, lambda i: farr(name, nu, idx=(i,)), name=name)


def elem(name, i):
    return Poly.atom(('elem', name, P(i)))


def modes(I, name='ms', n=None):
    ELEM_RANGE[name] = lambda pt, idx: (0, int(pt.atom(('dim', 'sm'), {})))
    return family(I, N if n is None else n, lambda i: elem(name, i))


def indices(I, n, bound, name='idx'):
    """A list of n indices, each in range(bound)."""
    b = P(bound)
    ELEM_RANGE[name] = lambda pt, idx: (0, pt.int(b, {}))
    return family(I, n, lambda i: elem(name, i))


def dic(I, **k):
    return I.alloc(DictC({Const(a): b for a, b in k.items()}))


def mpqp(I):
    return new(I, PP + 'MultiParametricQuadraticProgram',
               dic(I, uu=mat(I, 'Huu', nu, nu), ux=mat(I, 'Hux', nu, nx), xx=mat(I, 'Hxx', nx, nx)),
               dic(I, u=mat(I, 'fu', nu), x=mat(I, 'fx', nx)), mat(I, 'g'),
               dic(I, u=mat(I, 'Au', m, nu), x=mat(I, 'Ax', m, nx)), mat(I, 'b', m)).val


def active_set(I, n=None, name='act'):
    n = m if n is None else n
    v = fresh('a')
    CTX.ranges[v] = (ZERO, n)
    return I.new_list([Rep(n, v, Poly.atom(v), Cond(('in', name, Poly.atom(v))))])


def mpmiqp(I):
    return new(I, PP + 'MultiParametricMixedIntegerQuadraticProgram',
               dic(I, uu=mat(I, 'Huu', nu, nu), zz=mat(I, 'Hzz', nz, nz), zx=mat(I, 'Hzx', nz, nx), xx=mat(I, 'Hxx', nx, nx)),
               dic(I, u=mat(I, 'Au', m, nu), z=mat(I, 'Az', m, nz), d=mat(I, 'Ad', m, nd), x=mat(I, 'Ax', m, nx)),
               mat(I, 'b', m)).val


def mpc(I, eq=True):
    D = new(I, PO, mat(I, 'DA', m, nx + nu), mat(I, 'Db', m), *([mat(I, 'DC', p, nx + nu), mat(I, 'Dd', p)] if eq else [])).val
    XN = new(I, PO, mat(I, 'XA', s, nx), mat(I, 'Xb', s), *([mat(I, 'XC', q, nx), mat(I, 'Xd', q)] if eq else [])).val
    return new(I, CC + 'ModelPredictiveController', lin(I), N, mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu), mat(I, 'P', nx, nx), D, XN)


def fobj(I, qual, **f):
    return FObj(I.prog.find(qual), tuple(sorted(f.items())))


CACHES = ('_empty', '_bounded', '_radius', '_center', '_vertices')


def poly_caches(I):
    """Private fields that a newly built polyhedron holds besides its constraints."""
    P1 = new(I, PO, mat(I, 'tmpA', ONE, ONE), mat(I, 'tmpb', ONE)).val
    f = I.cell(P1).f
    return {k: I.freeze(v) for k, v in f.items() if k not in ('A', 'b', 'C', 'd')}


def hyb(I, eq=True, S=None):
    """A piecewise affine system with S (default: symbolic sm) modes and domains of different sizes."""
    S = sm if S is None else S
    sysl = seq(I, S, lambda i: fobj(I, DS + 'AffineSystem', A=farr('A', nx, nx, idx=(i,)), B=farr('B', nx, nu, idx=(i,)),
                                        c=farr('c', nx, idx=(i,)), nx=nx, nu=nu))
    pc = poly_caches(I)
    dom = seq(I, S, lambda i: fobj(I, PO, A=farr('DA', elem('mi', i), nx + nu, idx=(i,)), b=farr('Db', elem('mi', i), idx=(i,)),
                                       C=farr('DC', elem('pi', i) if eq else ZERO, nx + nu, idx=(i,)),
                                       d=farr('Dd', elem('pi', i) if eq else ZERO, idx=(i,)), **pc))
    CTX.low[('elem', 'mi')] = 1
    CTX.low[('elem', 'pi')] = 0
    return new(I, DS + 'PieceWiseAffineSystem', sysl, dom)


def term_set(I, eq=True):
    return new(I, PO, mat(I, 'XA', s, nx), mat(I, 'Xb', s), *([mat(I, 'XC', q, nx), mat(I, 'Xd', q)] if eq else [])).val


def hmpc(I, eq=True, S=None, T=None):
    h = hyb(I, eq, S)
    return new(I, CC + 'HybridModelPredictiveController', h.val, N if T is None else P(T), mat(I, 'Q', nx, nx), mat(I, 'R', nu, nu), mat(I, 'P', nx, nx), term_set(I))


def seq(I, T, f):
    """List of T elements: a family for a symbolic T, an explicit list for a number."""
    if isinstance(T, int):
        return I.new_list([One(I.thaw(f(P(i)))) for i in range(T)])
    return family(I, T, f)


def scalar(name):
    """A number given by the caller."""
    return alg.scalar_poly(Mat.atom(name, ()))


# ---------------------------------------------------------------- abstract polyhedron queries
def _reg(I, o):
    from .programs import region
    ms = [I.arr(I.getattr(o, x)) for x in ('A', 'b', 'C', 'd')]
    if not all(isinstance(x, Mat) for x in ms):
        return None
    return region(*ms)


def geo_handlers():
    """Emptiness, boundedness, Chebyshev data as functions of the set (for the callers of these queries)."""
    from .programs import empty

    def q(f):
        def h(I, fi, env):
            def g(o):
                R = _reg(I, o)
                return I.top('query') if R is None else f(I, R, I.arr(I.getattr(o, 'A')))
            return I.lift(g, env['self'])
        return h
    none = lambda R: Cond(('norad', R))
    return {PO + '.empty': q(lambda I, R, A: empty(R)), PO + '.bounded': q(lambda I, R, A: Cond(('bnd', R))),
            PO + '.radius': q(lambda I, R, A: gamma(none(R), NONE, alg.scalar_poly(Mat.fn(('cheb', R), ())))),
            PO + '.center': q(lambda I, R, A: gamma(none(R), NONE, I.new_arr(Mat.fn(('chebc', R), (A.shape[1],)))))}
