"""Entry points of the analysis: build symbolic arguments and run a function of the program on them."""
import ast
from . import model as MD
from .poly import Poly, P, ZERO, ONE, CTX, fresh
from .alg import Mat
from .vals import *
from .interp import Interp, DeadPath, Limit, State
from . import alg


def dim(name, lo=1):
    """A symbolic size, at least lo."""
    a = ('dim', name)
    CTX.low[a] = lo
    return Poly.atom(a)


def mat(I, name, *shape, idx=()):
    """A caller's array."""
    sh = tuple(P(s) for s in shape)
    m = Mat.atom(name, sh, tuple(idx))
    if not sh:
        return m
    r = I.alloc(ArrC(m, frozenset([('in', name)])))
    I.origin[r.id] = ('in', name)
    return r


def farr(name, *shape, idx=()):
    sh = tuple(P(s) for s in shape)
    m = Mat.atom(name, sh, tuple(idx))
    return FArr(m, frozenset([('in', name)])) if sh else m


def family(I, n, f, kind='list', name='list'):
    """A list of n elements, element i frozen value f(i)."""
    v = fresh('e')
    CTX.ranges[v] = (ZERO, P(n))
    r = I.new_list([Rep(P(n), v, f(Poly.atom(v)))], kind)
    I.origin[r.id] = ('in', name)
    return r


class Result(object):
    def __init__(self, I, val, st, raises, dead):
        self.I, self.val, self.st, self.raises, self.dead = I, val, st, raises, dead

    def frozen(self):
        return self.I.freeze(self.val)


def run(I, fn, *args, **kwargs):
    """Call FuncInfo / bound method; returns Result (dead when no normal exit)."""
    n0 = len(I.raises)
    st = I.st
    try:
        v = fn(*args, **kwargs) if callable(fn) and not isinstance(fn, (MD.FuncInfo, Val)) else I.call_func(fn, list(args), kwargs)
        return Result(I, v, I.st, I.raises[n0:], False)
    except DeadPath:
        I.set_state(st)
        return Result(I, None, None, I.raises[n0:], True)


def method(I, obj, name, *args, **kwargs):
    return run(I, lambda: I.call_method(I.getattr(obj, name), list(args), kwargs))


def new(I, qual, *args, **kwargs):
    """Construct an instance of a class of the program."""
    ci = I.prog.find(qual)
    return run(I, lambda: I.construct(ci, list(args), kwargs))


def snippet(prog, src, name='f', mod='spec'):
    """FuncInfo of a function given as source, resolved against a scratch module importing numpy as np."""
    tree = ast.parse(src)
    m = MD.Module(mod, '<spec>', '<spec %s>' % mod, tree)
    prog._index(m, tree.body)
    return prog.resolve_in(m, name)
