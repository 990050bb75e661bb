"""Random interpretation of abstract values.

Two abstract values (normal forms computed by the interpreter from the source) that are not syntactically equal are
compared by interpreting the *terms* at sampled points: sizes become small integers, the atomic matrices small
rational matrices, uninterpreted functions deterministic pseudo-random functions of their interpreted arguments.
Nothing of the analysed program runs here; only the algebraic terms are interpreted.
"""
import random
from fractions import Fraction
from math import isqrt
from .poly import Poly, P, ZERO, ONE, CTX, PSV
from . import alg, exact
from .alg import Mat, PIV
from .vals import *

F = Fraction
MAXN = 130


class EvalError(Exception):
    """The term has no value at this point (or none that this interpretation can give)."""


class EvalTop(EvalError):
    """The term contains an unknown value."""


class Singular(EvalError):
    pass


ELEM_RANGE = {}      # name of an integer family -> function(Point, idx) giving (lo, hi)


def stable(x):
    """Hash key of nested plain data with numbers rounded."""
    if isinstance(x, (tuple, list)):
        return tuple(stable(y) for y in x)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x)
        return ('q', round(x * 10 ** 9))
    if isinstance(x, frozenset):
        return ('fs',) + tuple(sorted((stable(y) for y in x), key=repr))
    if isinstance(x, dict):
        return tuple(sorted(((stable(k), stable(v)) for k, v in x.items()), key=repr))
    return x


def sqrtq(x):
    if x < 0:
        raise EvalError('sqrt of a negative number')
    k = 10 ** 30
    n = isqrt((x.numerator * k * k) // x.denominator)
    return F(n, k)


# ---------------------------------------------------------------- plain rational matrices (lists of rows)
def eig2(M):
    """Eigenvalues (None when not real) and their moduli, for triangular or 2 x 2 matrices."""
    n = len(M)
    if all(M[i][j] == 0 for i in range(n) for j in range(i)) or all(M[i][j] == 0 for i in range(n) for j in range(i + 1, n)):
        return [(M[i][i], abs(M[i][i])) for i in range(n)]
    if n != 2:
        raise EvalError('eigenvalues')
    t, d = M[0][0] + M[1][1], M[0][0] * M[1][1] - M[0][1] * M[1][0]
    D = t * t - 4 * d
    if D < 0:
        a = sqrtq(d)
        return [(None, a), (None, a)]
    r = sqrtq(D)
    return [((t + r) / 2, abs(t + r) / 2), ((t - r) / 2, abs(t - r) / 2)]


def mzero(r, c):
    return [[F(0)] * c for _ in range(r)]


def mmul(A, B):
    if not A:
        return []
    k = len(B)
    if len(A[0]) != k and not (k == 0 and len(A[0]) == 0):
        raise EvalError('shapes')
    c = len(B[0]) if B else 0
    out = []
    for row in A:
        r = [F(0)] * c
        for j, a in enumerate(row):
            if a:
                bj = B[j]
                for t in range(c):
                    if bj[t]:
                        r[t] += a * bj[t]
        out.append(r)
    return out


def mtr(A, c=None):
    if not A:
        return [[] for _ in range(c or 0)]
    return [list(x) for x in zip(*A)]


def meye(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def minv(A):
    n = len(A)
    M = [list(r) + e for r, e in zip(A, meye(n))]
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            raise Singular('singular matrix')
        M[i], M[p] = M[p], M[i]
        f = M[i][i]
        M[i] = [x / f for x in M[i]]
        for r in range(n):
            if r != i and M[r][i]:
                g = M[r][i]
                M[r] = [x - g * y for x, y in zip(M[r], M[i])]
    return [r[n:] for r in M]


def rref(A, ncols):
    M = [list(r) for r in A]
    piv = []
    r = 0
    for c in range(ncols):
        p = next((k for k in range(r, len(M)) if M[k][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        f = M[r][c]
        M[r] = [x / f for x in M[r]]
        for k in range(len(M)):
            if k != r and M[k][c]:
                g = M[k][c]
                M[k] = [x - g * y for x, y in zip(M[k], M[r])]
        piv.append(c)
        r += 1
        if r == len(M):
            break
    return M, piv


def pinvq(A, n):
    """Exact pseudoinverse of a matrix with n columns."""
    if not A or not n:
        return [[F(0)] * len(A) for _ in range(n)]
    M, piv = rref(A, n)
    if not piv:
        return [[F(0)] * len(A) for _ in range(n)]
    B = [[row[j] for j in piv] for row in A]          # A = B C, full ranks
    C = M[:len(piv)]
    Bt, Ct = mtr(B), mtr(C)
    return mmul(mmul(Ct, minv(mmul(C, Ct))), mmul(minv(mmul(Bt, B)), Bt))


class Arr(object):
    """Value of an array: ndim, shape, rows (column layout for vectors)."""
    __slots__ = ('shape', 'm')

    def __init__(self, shape, m):
        self.shape, self.m = shape, m

    def __repr__(self):
        return 'array%s %s' % (tuple(self.shape), [[str(x) for x in r] for r in self.m])

    def key(self):
        return ('arr', self.shape, tuple(map(tuple, self.m)))


class Point(object):
    def __init__(self, seed, dims=None, scales=None):
        self.seed = seed
        self.dims = dict(dims or {})
        self.log = set()
        self.xover = [None]
        self.cache = {}
        self.scales = scales or {}
        self.fuel = 400000
        self.guards = None       # outcomes of each condition, where they are recorded
        self.mode = self.dims.get('?mode')
        self.xseen = 0
        self.dec = None
        self.exact = bool(self.scales.get('?exact'))

    # ------------------------------------------------------------ pseudo-random functions
    def h(self, *key):
        k = stable(key)
        return hash((self.seed, k)) & 0xffffffffffff

    def rnd(self, *key):
        return random.Random(self.h(*key))

    def opaque(self, head, *args):
        self.log.add((head if isinstance(head, str) else repr(head)))
        return self.rnd('opq', head, *args)

    def number(self, r):
        return F(r.randint(-24, 24), r.choice((1, 1, 2, 4)))

    def atom_matrix(self, name, idx, r, c):
        """Entries of a caller's matrix."""
        base = name
        g = self.rnd('scale', base)
        if callable(self.scales.get(base)):
            return self.scales[base](self.rnd('m', name, idx, r, c), r, c)
        kinds = self.scales.get(base) or ('mix', 'mix', 'mix', 'pos', 'neg', 'zero', 'tiny')
        kind = g.choice(kinds)
        q = self.rnd('m', name, idx, r, c)
        if self.mode == 'unit' and kind in ('mix', 'tiny'):
            kind = 'unit'
        elif self.mode == 'zeros' and kind in ('mix', 'tiny', 'unit') and g.random() < .6:
            kind = 'zero'
        elif self.mode == 'ones' and kind in ('mix', 'tiny', 'unit', 'pos', 'upos'):
            kind = 'one'
        elif self.mode == 'big' and kind in ('mix', 'tiny'):
            kind = 'big'

        def one():
            v = F(q.randint(-6, 6), q.choice((1, 2)))
            if kind == 'pos':
                return abs(v) + F(1, 2)
            if kind == 'neg':
                return -abs(v) - F(1, 2)
            if kind == 'zero':
                return F(0)
            if kind == 'one':
                return F(1)
            if kind == 'big':
                return v * 1000
            if kind == 'tiny':
                return v / 100
            if kind == 'unit':
                return F(q.randint(-1, 1))
            if kind == 'upos':
                return F(q.randint(0, 2))
            if kind == 'far':
                return F(10 ** 9 if q.random() < .3 else q.randint(0, 2))
            return v
        if kind == 'spd':
            # diagonally dominant symmetric
            M = [[F(0)] * c for _ in range(r)]
            for i in range(r):
                for j in range(i):
                    M[i][j] = M[j][i] = F(q.randint(-1, 1), 2)
            for i in range(r):
                M[i][i] = F(q.randint(2 * r, 2 * r + 5))
            return M
        M = [[one() for _ in range(c)] for _ in range(r)]
        if name in alg.SYM and r == c:
            for i in range(r):
                for j in range(i):
                    M[i][j] = M[j][i]
        return M

    # ------------------------------------------------------------ polynomials
    def poly(self, p, env):
        s = F(0)
        for m, c in p.t.items():
            x = c
            for a, e in m:
                if e < 0:
                    v = self.atom(a, env)
                    if v == 0:
                        raise EvalError('division by zero')
                    x = x * v ** e
                else:
                    x = x * self.atom(a, env) ** e
            s += x
        return s

    def int(self, p, env):
        v = self.poly(P(p), env)
        if v.denominator != 1:
            raise EvalError('not an integer')
        return int(v)

    def size(self, p, env):
        n = self.int(p, env)
        if n < 0 or n > MAXN:
            raise EvalError('size %d' % n)
        return n

    def atom(self, a, env):
        if a in env:
            return F(env[a])
        k = a[0]
        if k == 'v':
            raise EvalError('free index %s' % (a,))
        if k == 'dim':
            if a[1] not in self.dims:
                lo = CTX.low.get(a, 0)
                if str(a[1]).startswith('TOP'):
                    raise EvalTop('size')
                self.dims[a[1]] = lo + self.rnd('dim', a[1]).choice((0, 1, 1, 2))
            return F(self.dims[a[1]])
        if k == 'ps':
            s = F(0)
            for j in range(self.size(a[2], env)):
                s += self.poly(a[1], dict(env, **{}) | {PSV: j})
            return s
        if k == 'elem':
            idx = tuple(self.key(x, env) for x in a[2:])
            r = self.rnd('elem', a[1], idx)
            if '=' + str(a[1]) in self.dims:       # all the elements alike
                return F(self.dims['=' + a[1]])
            if a[1] in ELEM_RANGE:
                lo, hi = ELEM_RANGE[a[1]](self, idx)
                if hi <= lo:
                    raise EvalError('empty index range')
                return F(r.randrange(lo, hi))
            lo = CTX.low.get(('elem', a[1]), 1)
            return F(lo + r.choice((0, 0, 1, 2)))
        if k == 'len':
            return self.length(a, env)
        if k == 'first':
            n, v, c = a[1:4]
            for i in range(self.size(n, env)):
                if self.cond(c, env | {v: i}):
                    return F(i)
            raise EvalError('no first')
        if k == 'ind':
            return F(int(self.cond(a[1], env)))
        if k == 'nnlsres':
            return sqrtq(self.nnls(a[1], a[2], env)[1])
        if k == 'gattr':
            return self.gattr(a[1], a[2], a[3] if len(a) > 3 else None, env)
        if k == 'gval':
            return self.gval(a[1], a[2], env).m[0][0]
        if k == 'int':
            if a[1] == 'status':
                return F(self.program(a[2], env)['status'])
            if a[1] == 'solcount':
                # a solver that stops early may hold a solution that is not optimal
                t = self.program(a[2], env)['status']
                return F(1 if t == 2 else (0 if t in (1, 3, 4, 5) else self.rnd('solcount').choice((0, 1, 1, 2))))
            if a[1] == 'gattr':
                return self.gattr(a[2], a[3], a[4], env)
            if a[1] == 'nth':
                e, n, v, c = a[2:6]
                e = self.int(e, env)
                hits = [i for i in range(self.size(n, env)) if self.cond(c, env | {v: i})]
                if not -len(hits) <= e < len(hits):
                    raise EvalError('nth')
                return F(hits[e])
            if a[1] in ('floordiv', 'mod'):
                x, y = self.poly(a[2], env), self.poly(a[3], env)
                if y == 0:
                    raise EvalError('division by zero')
                return F(x // y) if a[1] == 'floordiv' else F(x % y)
            if a[1] == 'trunc':
                return F(int(self.poly(a[2], env)))
            if alg.contains_top(a):
                raise EvalTop('int')
            return F(self.opaque(('int',) + a[1:2], self.key(a[2:], env)).randint(0, 2))
        if k == 'recip':
            v = self.poly(P(a[1]), env)
            if v == 0:
                raise EvalError('division by zero')
            return 1 / v
        if k == 'sqrt':
            return sqrtq(self.num(a[1], env))
        if k == 'powr':
            x, y = self.num(a[1], env), self.num(a[2], env)
            if y.denominator == 1 and abs(y) < 20:
                return x ** int(y)
            return abs(self.number(self.opaque('powr', x, y)))
        if k == 'abs':
            return abs(self.num(a[1], env))
        if k == 'sign' and len(a) == 2:
            x = self.num(a[1], env)
            return F((x > 0) - (x < 0))
        if k == 'sc':
            return self.num(a[1], env)
        if k in ('maxv', 'minv'):
            m = self.mat(a[1], env)
            xs = [x for r in m.m for x in r]
            if not xs:
                raise EvalError('max of nothing')
            return max(xs) if k == 'maxv' else min(xs)
        if k in ('maximum', 'minimum') and len(a) == 3:
            x, y = self.num(a[1], env), self.num(a[2], env)
            return max(x, y) if k == 'maximum' else min(x, y)
        if k == 'norm' and len(a) == 2 or k == 'norm' and a[2:] == (P(2),):
            m = self.mat(a[1], env)
            if len(m.shape) == 1:
                return sqrtq(sum((x * x for r in m.m for x in r), F(0)))
        if k == 'num' and a[1] in ('max', 'min'):
            v = self.conc(a[2], env)
            if isinstance(v, tuple) and v[0] == 'list' and v[2]:
                return max(v[2]) if a[1] == 'max' else min(v[2])
        if k == 'eps':
            return F(1, 10 ** 12)
        if k == 'rand':
            return abs(self.number(self.opaque('rand', a[1:]))) + 1
        if alg.contains_top(a):
            raise EvalTop('number')
        r = self.opaque(k, self.key(a[1:], env))
        v = self.number(r)
        return abs(v) + F(1, 8) if k in ('norm', 'det') else v

    def length(self, a, env):
        if a[1] == 'rank':
            m = self.mat(a[2], env)
            return F(len(rref(m.m, m.shape[1] if len(m.shape) > 1 else 1)[1]))
        if a[1] in ('argmax', 'argmin'):
            v = [x for row in self.mat(a[2], env).m for x in row]
            if not v:
                raise EvalError('argmax of nothing')
            return F(v.index(max(v) if a[1] == 'argmax' else min(v)))
        if a[1] == 'filter':
            n, v, c = a[2:5]
            return F(sum(1 for i in range(self.size(n, env)) if self.cond(c, env | {v: i})))
        if self.exact and a[1] == 'hsi' and a[2] == 'intersections':
            return F(len(self.corners(a[3], a[4], env)))
        if a[1] == 'min':
            return min(self.poly(a[2], env), self.poly(a[3], env))
        if alg.contains_top(a):
            raise EvalTop('length')
        if a[1] == 'set':
            v = self.conc(a[2], env)
            if isinstance(v, tuple) and v[0] == 'list':
                return F(len({repr(stable(x)) for x in v[2]}))
        if a[1] == 'note':
            xs = self.notelist(a[2], env)
            if xs is not None:
                return F(len(xs))
        return F(self.opaque('len', self.key(a[1:], env)).randint(1, 2))

    @staticmethod
    def aint(x):
        if isinstance(x, Fraction) and x.denominator == 1:
            return int(x)
        raise EvalError('not an integer')

    def notelist(self, note, env):
        """Items of a list known only as an expression over other lists, or None."""
        if isinstance(note, (FList, Gamma)):
            v = self.conc(note, env)
            return list(v[2]) if isinstance(v, tuple) and v[0] == 'list' else None
        if not isinstance(note, Opq):
            return None
        op, a = note.name, note.args
        if op == 'listnote':
            return self.notelist(a[1], env)
        if op not in ('sorted', 'set', 'setBitAnd', 'setBitOr', 'setSub', 'setBitXor', 'lappend', 'lremove', 'lextend', 'lpop',
                      'linsert', 'lreverse', 'lsort'):
            return None
        xs = self.notelist(a[0], env)
        if xs is None:
            return None
        try:
            if op in ('sorted', 'lsort'):
                return sorted(xs)
            if op == 'set':
                return sorted(set(xs))
            if op.startswith('set'):
                ys = self.notelist(a[1], env)
                if ys is None:
                    return None
                x, y = set(xs), set(ys)
                return sorted({'setBitAnd': x & y, 'setBitOr': x | y, 'setSub': x - y, 'setBitXor': x ^ y}[op])
            args = [self.conc(y, env) for y in a[1:]]
            if op == 'lextend':
                return xs + list(args[0][2])
            if op == 'lpop':
                xs.pop(*[self.aint(y) for y in args])
            elif op == 'linsert':
                xs.insert(self.aint(args[0]), args[1])
            else:
                getattr(xs, op[1:])(*args)
            return xs
        except (TypeError, ValueError, IndexError):
            raise EvalError('list operation')

    # ------------------------------------------------------------ matrices
    def num(self, x, env):
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Mat):
            m = self.mat(x, env)
            if m.shape != ():
                raise EvalError('not a scalar')
            return m.m[0][0]
        v = self.conc(x, env)
        if isinstance(v, Fraction):
            return v
        raise EvalError('not a number')

    def mat(self, x, env):
        if isinstance(x, Poly):
            return Arr((), [[self.poly(x, env)]])
        if not isinstance(x, Mat):
            if isinstance(x, FArr):
                return self.mat(x.val, env)
            v = self.conc(x, env)
            if isinstance(v, Arr):
                return v
            raise EvalError('not a matrix')
        fv = x.free_vars()
        ck = (x, tuple(sorted((v, env[v]) for v in fv if v in env)), env.get(('prev',)) and env[('prev',)].key(), self.xover[-1], self.dec)
        if ck in self.cache:
            res, xs = self.cache[ck]
            self.xseen = max(self.xseen, xs)
            return res
        xold, self.xseen = self.xseen, 0
        shape = tuple(self.size(s, env) for s in x.shape)
        r = shape[0] if shape else 1
        c = shape[1] if len(shape) > 1 else 1
        out = mzero(r, c)
        for (w, b, g), co in x.terms.items():
            self.term(co, w, b, g, env, out, r, c)
        res = Arr(shape, out)
        self.cache[ck] = (res, self.xseen)
        self.xseen = max(self.xseen, xold)
        return res

    def term(self, co, w, b, g, env, out, r, c):
        if b:
            v, lo, hi = b[0]
            for i in range(self.int(lo, env), self.int(hi, env)):
                self.fuel -= 1
                if self.fuel < 0:
                    raise EvalError('fuel')
                self.term(co, w, b[1:], g, env | {v: i}, out, r, c)
            return
        for x in g:
            if self.poly(x, env) < 0:
                return
        k = self.poly(co, env)
        if k == 0:
            return
        M = self.word(w, env, r, c)
        for i in range(r):
            for j in range(c):
                if M[i][j]:
                    out[i][j] += k * M[i][j]

    def word(self, w, env, r, c):
        if not w:
            if r != c:
                raise EvalError('identity shape')
            return meye(r)
        M = None
        rr = None
        for l in w:
            L, lr, lc = self.letter(l, env)
            if M is None:
                M, rr, cc = L, lr, lc
            else:
                if cc != lr:
                    raise EvalError('shapes %d %d' % (cc, lr))
                M = mmul(M, L) if cc else mzero(rr, lc)
                cc = lc
        if rr != r or cc != c:
            raise EvalError('shape of product %s is %s, not %s' % (alg.show_word(w)[:80], (rr, cc), (r, c)))
        return M

    def letter(self, l, env):
        k = l[0]
        self.fuel -= 5
        if self.fuel < 0:
            raise EvalError('fuel')
        if k == 'm':
            r, c = self.size(l[3], env), self.size(l[4], env)
            if l[1] == '$x':
                o = self.xover[-1]
                if o is None:
                    raise EvalError('free point')
                self.xseen = max(self.xseen, r)
                M = [[F(1 if i == o else 0)] for i in range(r)]
                return (mtr(M, 1), 1, r) if l[5] else (M, r, 1)
            if isinstance(l[1], tuple) and l[1] == ('prev',):
                if ('prev',) not in env:
                    raise EvalError('prev')
                a = env[('prev',)]
                M = a.m
            elif isinstance(l[1], tuple) and l[1][0] == 'carry':
                raise EvalTop('carry')
            elif isinstance(l[1], tuple) and l[1][0] == 'decvar':
                if self.dec is None:
                    raise EvalError('decision variable')
                off = self.int(l[1][2], env)
                if off + r > len(self.dec) or c != 1:
                    raise EvalError('decision variable')
                M = [[x] for x in self.dec[off:off + r]]
            elif isinstance(l[1], tuple) and l[1][0] == 'chol':
                try:
                    M = exact.cholesky(self.mat(l[1][1], env).m, sqrtq)
                except exact.NotLinear:
                    raise Singular('cholesky')
            else:
                M = self.atom_matrix(l[1], tuple(self.key(x, env) for x in l[2]), r, c)
            if l[6]:
                M = minv(M)
            if l[5]:
                return mtr(M, c), c, r
            return M, r, c
        if k == 'E':
            tot, off, ln = self.size(l[1], env), self.int(l[2], env), self.size(l[3], env)
            if off < 0 or off + ln > tot:
                raise EvalError('slice out of range')
            M = mzero(tot, ln)
            for i in range(ln):
                M[off + i][i] = F(1)
            return (mtr(M, ln), ln, tot) if l[4] else (M, tot, ln)
        if k == 'R':
            n, kk = self.size(l[2], env), self.size(l[3], env)
            rows = self.selection(l[1], n, kk, env)
            M = mzero(len(rows), n)
            for i, j in enumerate(rows):
                if not -n <= j < n:
                    raise EvalError('index')
                M[i][j] = F(1)
            return (mtr(M, n), n, kk) if l[4] else (M, kk, n)
        if k == '1':
            n = self.size(l[1], env)
            return ([[F(1)] * n], 1, n) if l[2] else ([[F(1)] for _ in range(n)], n, 1)
        if k == 'PI':
            hi, lo = self.int(l[2], env), self.int(l[3], env)
            M = None
            for i in range(hi, lo - 1, -1):
                for x in l[1]:
                    L, lr, lc = self.letter(x, env | {PIV: i})
                    if M is None:
                        M, rr, cc = L, lr, lc
                    else:
                        M, cc = mmul(M, L), lc
            if M is None:
                n = self.size(alg.rows(l), env)
                M, rr, cc = meye(n), n, n
            return (mtr(M, cc), cc, rr) if l[4] else (M, rr, cc)
        if k == 'pow':
            n = self.int(l[2], env)
            r = self.size(alg.rows(l), env)
            B = self.word(l[1], env, r, r)
            if n < 0:
                B, n = minv(B), -n
            M = meye(r)
            for _ in range(n):
                M = mmul(M, B)
            return M, r, r
        if k == 'inv':
            a = self.mat(l[1], env)
            M = minv(a.m)
            return (mtr(M), len(M), len(M)) if l[2] else (M, len(M), len(M))
        if k == 'null':
            a = self.mat(l[1], env)
            r, c = self.size(l[2], env), self.size(l[3], env)
            M = self.kernel(a, r)
            if len(M) and len(M[0]) != c or (not M and c):
                raise EvalError('kernel size')
            return (mtr(M, c), c, r) if l[4] else (M, r, c)
        if k == 'f':
            r, c = self.size(l[2], env), self.size(l[3], env)
            M = self.fn(l[1], r, c, env)
            if len(M) != r or (r and len(M[0]) != c):
                raise EvalError('shape of %s' % (l[1][0],))
            return (mtr(M, c), c, r) if l[4] else (M, r, c)
        raise EvalError(k)

    def kernel(self, a, n):
        M, piv = rref(a.m, n)
        free = [c for c in range(n) if c not in piv]
        out = mzero(n, len(free))
        for j, f in enumerate(free):
            out[f][j] = F(1)
            for i, p in enumerate(piv):
                out[p][j] = -M[i][f]
        if self.scales.get('?ortho'):
            cols = []
            for j in range(len(free)):
                v = [out[i][j] for i in range(n)]
                for u in cols:
                    k = sum(a * b for a, b in zip(u, v))
                    v = [a - k * b for a, b in zip(v, u)]
                s = sqrtq(sum(a * a for a in v))
                cols.append([a / s for a in v])
            out = [[cols[j][i] for j in range(len(free))] for i in range(n)]
        return out

    def selection(self, s, n, k, env):
        if s[0] == 'lst':
            rows = [self.int(s[1], env | {s[2]: j}) for j in range(k)]
        elif s[0] == 'filter':
            m, v, val, c = s[1:5]
            rows = [self.int(val, env | {v: i}) for i in range(self.size(m, env)) if self.cond(c, env | {v: i})]
        elif s[0] == 'compl':
            if s[1][0] != 'lst':
                rest = self.selection(s[1], n, n - k, env)
            else:
                rest = None
                for ln in range(0, n + 1):
                    x = set(self.int(s[1][1], env | {s[1][2]: j}) for j in range(ln))
                    if len(x) == n - k and ln == n - k:
                        rest = x
                if rest is None:
                    raise EvalError('complement')
            rows = [i for i in range(n) if i not in set(rest)]
        elif s[0] == 'note':
            if alg.contains_top(s):
                raise EvalTop('selection')
            xs = self.notelist(s[1], env)
            if xs is not None:
                rows = [self.aint(x) for x in xs]
                if len(rows) != k:
                    raise EvalError('selection length')
                return rows
            r = self.opaque('note', self.key(s[1], env))
            if k > n:
                raise EvalError('selection')
            rows = sorted(r.sample(range(n), k))
        else:
            raise EvalError('selection')
        if len(rows) != k:
            raise EvalError('selection length')
        return rows

    def fn(self, f, r, c, env):
        h = f[0] if isinstance(f, tuple) else f
        if h == 'paren':
            return self.mat(f[1], env).m
        if h == 'if':
            return self.mat(f[2] if self.cond(f[1], env) else f[3], env).m
        if h == 'sym' and f[1] == 'at':
            # value of a symbolic expression at a point: often zero, or almost zero
            q = self.opaque(h, self.key(f[1:], env))
            kind = q.choice(('zero', 'tiny', 'any', 'any', 'one'))
            k1 = q.randrange(max(1, r))
            val = lambda i: F(0) if kind == 'zero' else (F(q.choice((-1, 1)), 10 ** 10) if kind == 'tiny' else
                                                         (self.number(q) if kind == 'any' or i == k1 else F(0)))
            return [[val(i) for _ in range(c)] for i in range(r)]
        if h == 'expm':
            # any analytic function respects the block structure: the first terms of the series
            M = self.mat(f[1], env).m
            S, T = meye(r), meye(r)
            for k in range(1, 5):
                T = [[x / k for x in row] for row in mmul(T, M)]
                S = [[x + y for x, y in zip(p, q)] for p, q in zip(S, T)]
            return S
        if h == 'nnls':
            return [[x] for x in self.nnls(f[1], f[2], env)[0]]
        if h == 'gx':
            return [[x] for x in self.program(f[1], env)['x']]
        if h == 'gval':
            return self.gval(f[1], f[2], env).m
        if h == 'pinv':
            return pinvq(self.mat(f[1], env).m, r)
        if h == 'onehot':
            # groups of f[1] binaries, one of them (almost) one and the others (almost) zero
            n = self.int(f[1], env)
            q = self.opaque(h, self.key(f[2:], env))
            out = []
            for t in range(r // n):
                k = q.randrange(n)
                out += [[F(int(i == k)) + F(q.choice((-1, 0, 1)), 10 ** 7)] for i in range(n)]
            return out
        if self.exact and h in ('optmin', 'optarg') and isinstance(f[1], tuple) and f[1][0] in ('LP', 'QP'):
            z = self.exact_lp(f[1], env)
            if z is not None:
                return [[z[1]]] if h == 'optmin' else [[x] for x in z[2]]
        if h in ('optmin', 'optarg') and isinstance(f[1], tuple) and f[1][0] == 'LP':
            v, s = self.direction(f[1][1], env)
            q = self.opaque('optarg', 'LP', v, self.key(f[1][2], env))
            x = [self.number(q) for _ in v]
            if h == 'optmin':
                self.log.add(h)
                return [[s * sum((a * b for a, b in zip(v, x)), F(0))]]
            return [[a] for a in x]
        if h in ('optmin', 'optarg') and isinstance(f[1], tuple) and f[1][0] in ('QP', 'MIQP'):
            H, g = f[1][-3:-1]
            v = [z for row in self.mat(g, env).m for z in row]
            q = self.opaque('optarg', self.key(f[1], env))
            x = [self.number(q) for _ in v]
            if h == 'optmin':
                self.log.add(h)
                M = self.mat(H, env).m
                return [[sum((x[i] * M[i][j] * x[j] for i in range(len(x)) for j in range(len(x))), F(0)) / 2 +
                         sum((a * b for a, b in zip(v, x)), F(0))]]
            return [[a] for a in x]
        if h == 'abs' and len(f[1].terms) == 1:
            (w, b1, g1), co = next(iter(f[1].terms.items()))
            if len(w) == 1 and not b1 and not g1 and w[0][0] == 'f' and w[0][1][0] == 'eigvals' and co in (ONE, -ONE):
                ev = eig2(self.mat(w[0][1][1], env).m)
                return [[a] for _, a in ev]
        if h == 'eigvals':
            ev = eig2(self.mat(f[1], env).m)
            if any(x is None for x, _ in ev):
                raise EvalError('complex eigenvalues')
            return [[x] for x, _ in ev]
        if h == 'abs':
            return [[abs(x) for x in row] for row in self.mat(f[1], env).m]
        if h in ('max', 'min') and len(f) == 3:
            m = self.mat(f[2], env).m
            op = max if h == 'max' else min
            if f[1] == 0:
                m = mtr(m)
            if any(not row for row in m):
                raise EvalError('max of nothing')
            return [[op(row)] for row in m]
        if h in ('maximum', 'minimum') and len(f) == 3:
            return self.elementwise(lambda x, y: max(x, y) if h == 'maximum' else min(x, y), f[1], f[2], r, c, env)
        if h == 'where':
            m = f[1]
            out = []
            for i in range(r):
                b = self.cond(m.at(P(i)), env)
                v = f[2] if b else f[3]
                if isinstance(v, (Mat, FArr)) and self.mat(v, env).shape:
                    out.append([self.mat(v, env).m[i][0]])
                else:
                    out.append([self.num(v, env)])
            return out
        if self.exact and h == 'hsi' and f[1] == 'intersections':
            return self.corners(f[2], f[3], env)
        if h == 'diag':
            v = self.mat(f[1], env).m
            return [[v[i][0] if i == j else F(0) for j in range(len(v))] for i in range(len(v))]
        if h == 'diagof':
            m = self.mat(f[1], env).m
            return [[m[i][i]] for i in range(r)]
        if h == 'recipv':
            v = self.mat(f[1], env).m
            if any(x[0] == 0 for x in v):
                raise EvalError('division by zero')
            return [[1 / x[0]] for x in v]
        if h == 'bool':
            return [[F(int(self.cond(f[1].at(P(i)), env)))] for i in range(r)]
        if h == 'eldiv':
            def dv(x, y):
                if y == 0:
                    raise EvalError('division by zero')
                return x / y
            return self.elementwise(dv, f[1], f[2], r, c, env)
        if h == 'elpow':
            def pw(x, y):
                if y.denominator != 1 or abs(y) > 12 or (x == 0 and y < 0):
                    if y == F(1, 2):
                        return sqrtq(x)
                    raise EvalError('power')
                return x ** int(y)
            return self.elementwise(pw, f[1], f[2], r, c, env)
        if h == 'hadamard':
            return self.elementwise(lambda x, y: x * y, f[1], f[2], r, c, env)
        if h == 'flat':
            return [[x] for row in self.mat(f[1], env).m for x in row]
        if h == 'reshape':
            xs = [x for row in self.mat(f[1], env).m for x in row]
            if len(xs) != r * c:
                raise EvalError('reshape')
            return [xs[i * c:(i + 1) * c] for i in range(r)]
        if h == 'elsqrt':
            return [[sqrtq(x) for x in row] for row in self.mat(f[1], env).m]
        if h == 'rownorm' and (len(f) == 2 or f[2:] == (P(2),)):
            return [[sqrtq(sum((x * x for x in row), F(0)))] for row in self.mat(f[1], env).m]
        if h == 'rec':
            m0, step, x = f[1:4]
            d = max(alg.max_hash(step), alg.max_hash(m0))
            cur = self.mat(m0, env)
            kv = None
            fv = step.free_vars() if hasattr(step, 'free_vars') else set()
            cand_ = [v for v in fv if v not in env]
            if len(cand_) > 1:
                # the index of the recurrence has the highest number, the others are bound inside
                if not all(isinstance(v[1], str) and v[1][:1] == '#' and v[1][1:].isdigit() for v in cand_):
                    raise EvalError('recurrence index')
                cand_.sort(key=lambda v: -int(v[1][1:]))
            kv = cand_[0] if cand_ else ('v', '##')
            for i in range(self.size(x, env)):
                cur = self.mat(self.pick(step, env | {kv: i, ('prev',): cur}), env | {kv: i, ('prev',): cur})
            return cur.m
        if alg.contains_top(f):
            raise EvalTop('matrix')
        g = self.opaque(h if isinstance(h, str) else repr(h), self.key(f[1:], env) if isinstance(f, tuple) else ())
        pos = h in ('rownorm', 'norm')
        M = [[abs(self.number(g)) + 1 if pos else self.number(g) for _ in range(c)] for _ in range(r)]
        if alg.is_sym_fn(f):
            for i in range(r):
                for j in range(i):
                    M[i][j] = M[j][i]
        return M

    def elementwise(self, op, a, b, r, c, env):
        A, B = self.mat(a, env), self.mat(b, env)

        def get(x, i, j):
            if x.shape == ():
                return x.m[0][0]
            if len(x.shape) == 1:
                return x.m[i][0] if c == 1 and len(x.m) == r else (x.m[j][0] if len(x.m) == c else x.m[0][0])
            ii = i if len(x.m) > 1 or r == 1 else 0
            jj = j if len(x.m[0]) > 1 or c == 1 else 0
            return x.m[ii][jj]
        try:
            return [[op(get(A, i, j), get(B, i, j)) for j in range(c)] for i in range(r)]
        except IndexError:
            raise EvalError('broadcast')

    # ------------------------------------------------------------ programs built through gurobipy or pydrake
    def nnls(self, A, b, env):
        A, b = self.mat(A, env), self.mat(b, env)
        k = ('nnls', A.key(), b.key())
        if k not in self.cache:
            try:
                self.cache[k] = exact.nnls(A.m, [x[0] for x in b.m], A.shape[1])
            except exact.NotLinear:
                raise EvalError('nnls')
        return self.cache[k]

    def at_dec(self, x, env, v):
        old, self.dec = self.dec, tuple(v)
        try:
            return self.num(x, env)
        finally:
            self.dec = old

    def dec_affine(self, x, env, n):
        e = lambda j: [F(int(i == j)) for i in range(n)]
        c0 = self.at_dec(x, env, e(-1))
        return c0, tuple(self.at_dec(x, env, e(j)) - c0 for j in range(n))

    def constraints(self, c, env, n):
        """The constraints (sense, c0, c) that a condition on the decision variables states."""
        k = c.k
        if k[0] == 'constr':
            return [(k[1],) + self.dec_affine(k[2], env, n)]
        if k[0] == 'not' and k[1].k[0] == 'ex':
            q = k[1].k
            b = cnot(q[3])
            return [y for i in range(self.size(q[1], env)) for y in self.constraints(b, env | {q[2]: i}, n)]
        if k[0] == 'and':
            out = []
            for x in k[1]:
                y = self.constraints(x, env, n)
                if y is False:
                    return False
                out += y if y is not True else []
            return out or True
        if k[0] == 'or':
            ys = [y for y in (self.constraints(x, env, n) for x in k[1]) if y is not False]
            if any(y is True for y in ys):
                return True
            if len(ys) > 1:
                raise EvalError('disjunction of constraints')
            return ys[0] if ys else False
        return self.cond(c, env)

    def program(self, p, env):
        """The program of a model when it was solved, with its exact solution."""
        fv = p.free_vars()
        ck = ('prog', p, tuple(sorted((v, env[v]) for v in fv if v in env)))
        if ck in self.cache:
            return self.cache[ck]
        kind, n, cl, vt, obj = p.items
        kind = self.conc(kind, env)
        n = self.size(n, env)
        cons = []
        for x, e in self.elements(cl, env):
            name = self.conc(x.items[1], e)
            y = self.constraints(x.items[0], e, n)
            if y is True or y is False:
                y = [('<', F(0 if y else 1), (F(0),) * n)]
            cons += [z + (name,) for z in y]
        lb, ub, ty = [None] * n, [None] * n, ['C'] * n
        inf = F(10) ** 20

        def setv(a, i, v):
            if a == 'vtype':
                ty[i] = v
            elif a in ('lb', 'ub') and isinstance(v, Fraction):
                (lb if a == 'lb' else ub)[i] = None if abs(v) >= inf else v
            else:
                raise EvalError('attribute of a variable')
        for x, e in self.elements(vt, env):
            t = x.items[0].v
            if t == 'vars':
                off, k = self.int(x.items[1], e), self.size(x.items[2], e)
                for a, v in zip(('lb', 'ub', 'vtype'), x.items[3:]):
                    v = self.conc(v, e)
                    if isinstance(v, Arr):
                        v = ('list', 'list', [r[0] for r in v.m])
                    for i in range(k):
                        if isinstance(v, tuple) and v[0] in ('list', 'tup') and len(v[2]) != k:
                            raise EvalError('list of attributes')
                        setv(a, off + i, v[2][i] if isinstance(v, tuple) and v[0] in ('list', 'tup') else v)
            else:
                c0, c = self.dec_affine(x.items[2], e, n)
                i = [j for j in range(n) if c[j]]
                if len(i) != 1:
                    raise EvalError('variable')
                setv(x.items[1].v, i[0], self.conc(x.items[3], e))
        sense = self.conc(obj.items[1], env) if len(obj.items) > 1 else None
        e = lambda *js: [F(sum(1 for j in js if i == j)) for i in range(n)]
        J = lambda *js: self.at_dec(obj.items[0], env, e(*js))
        j0 = J()
        one = [J(i) - j0 for i in range(n)]
        two = [J(i, i) - j0 for i in range(n)]
        Q = [[F(0)] * n for _ in range(n)]
        for i in range(n):
            Q[i][i] = two[i] - 2 * one[i]
            for k in range(i):
                Q[i][k] = Q[k][i] = J(i, k) - j0 - one[i] - one[k]
        q = [one[i] - Q[i][i] / 2 for i in range(n)]
        if sense is not None and sense != 1:
            q, Q = [-x for x in q], [[-x for x in r] for r in Q]
        rows, eqs, where = [], [], []
        for s, c0, c, name in cons:
            if s == '=':
                where.append(('=', len(eqs)))
                eqs.append((c0, c))
            else:
                g = -1 if s == '<' else 1
                where.append((s, len(rows)))
                rows.append((g * c0, tuple(g * x for x in c)))
        for i in range(n):
            if lb[i] is not None:
                rows.append((-lb[i], tuple(F(int(j == i)) for j in range(n))))
            if ub[i] is not None:
                rows.append((ub[i], tuple(-F(int(j == i)) for j in range(n))))
        if any(t not in ('B', 'C') for t in ty):
            raise EvalError('kind of variable')
        if len(rows) > 14 or n > 5:
            raise EvalError('size of the program')
        try:
            z = exact.mixed(Q, q, rows, eqs, [i for i in range(n) if ty[i] == 'B'])
        except exact.NotLinear:
            raise EvalError('program')
        r = {'n': n, 'cons': cons, 'where': where, 'kind': kind}
        forced = self.scales.get('?status')
        if forced is not None:
            forced = self.rnd('status').choice(forced)
        if z[0] == 'opt' and forced is None:
            r.update(status=2 if kind == 'grb' else 0, x=z[2], obj=z[1] + j0, lam=z[3], nu=z[4],
                     act=[c0 + sum(a * b for a, b in zip(c, z[2])) == 0 for c0, c in rows])
        else:
            g = self.rnd('nosol')
            st = {'empty': (3, -2), 'unb': (5, -3), 'opt': (9, -6)}[z[0]][kind != 'grb']
            num = lambda: F(g.randint(1, 50), 7)
            r.update(status=forced[kind != 'grb'] if forced else st, x=[num() for _ in range(n)], obj=num(),
                     lam=[num() for _ in rows], nu=[num() for _ in eqs], act=[False] * len(rows))
        self.cache[ck] = r
        return r

    def elements(self, l, env):
        """(item, env) of the elements of a frozen list."""
        if isinstance(l, Gamma):
            yield from self.elements(self.pick(l, env), env)
            return
        if not isinstance(l, FList) or l.segs is None:
            raise EvalTop('list')
        for s in l.segs:
            if s[0] == 'one':
                yield s[1], env
            else:
                for i in range(self.size(s[1], env)):
                    e = env | {s[2]: i}
                    if s[4].is_true() or self.cond(s[4], e):
                        yield s[3], e

    def gattr(self, a, p, what, env):
        r = self.program(p, env)
        if a == 'objval':
            return r['obj']
        if a == 'x':
            c0, c = self.dec_affine(what, env, r['n'])
            return c0 + sum(x * y for x, y in zip(c, r['x']))
        if isinstance(what, Cond):
            y = self.constraints(what, env, r['n'])
            if y is True or y is False or len(y) != 1:
                raise EvalError('constraint')
            hits = [i for i, z in enumerate(r['cons']) if z[:3] == y[0]]
        else:
            name = self.conc(what, env)
            if not isinstance(name, str):
                raise EvalError('name of a constraint')
            hits = [i for i, z in enumerate(r['cons']) if z[3] == name]
        if not hits:
            return F(self.rnd('noconstr').randint(60, 90), 11)
        s, i = r['where'][hits[0]]
        if a == 'cbasis':
            return F(-1) if s != '=' and r['act'][i] else F(0)
        if a == 'pi':
            return r['nu'][i] if s == '=' else (-r['lam'][i] if s == '<' else r['lam'][i])
        raise EvalError(a)

    def gval(self, p, m, env):
        r = self.program(p, env)
        old, self.dec = self.dec, tuple(r['x'])
        try:
            return self.mat(m, env)
        finally:
            self.dec = old

    def pick(self, v, env):
        while isinstance(v, Gamma):
            v = v.a if self.cond(v.c, env) else v.b
        return v

    # ------------------------------------------------------------ conditions
    def cond(self, c, env):
        v = self.cond_(c, env)
        if self.guards is not None and c.k[0] not in ('t', 'f', 'not', 'and', 'or'):
            self.guards.setdefault(c, set()).add(v)
        return v

    def cond_(self, c, env):
        k = c.k
        h = k[0]
        if h == 't':
            return True
        if h == 'f':
            return False
        if h == 'not':
            return not self.cond(k[1], env)
        if h == 'and':
            return self.junction(k[1], env, False)
        if h == 'or':
            return self.junction(k[1], env, True)
        if h == 'ige':
            return self.poly(k[1], env) >= 0
        if h == 'ieq':
            return self.poly(k[1], env) == 0
        if h == 'ge0':
            return self.num(k[1], env) >= 0
        if h == 'gt0':
            return self.num(k[1], env) > 0
        if h == 'req':
            return self.num(k[1], env) == self.num(k[2], env)
        if h == 'ex':
            err = None
            for i in range(self.size(k[1], env)):
                try:
                    if self.cond(k[3], env | {k[2]: i}):
                        return True
                except EvalError as e:
                    err = e
            if err:
                raise err
            return False
        if h == 'in':
            if isinstance(k[2], (FList, Gamma, Tup)):
                v = self.conc(k[2], env)
                if isinstance(v, tuple) and v[0] == 'list':
                    x = stable(self.key(k[1], env))
                    return any(stable(plain(y)) == x for y in v[2])
        if h == 'isnone':
            v = self.conc(k[1], env)
            if v is None:
                return True
            if isinstance(v, tuple) and v and v[0] == 'opq' and v[1] in ('nullable',):
                return bool(self.opaque('nullable', stable(v)).random() < .5)
            return False
        if h in ('close', 'allclose') and len(k) == 3:
            A, B = self.mat(k[1], env), self.mat(k[2], env)
            return all(abs(x - y) <= F(1, 10 ** 8) + F(1, 10 ** 5) * abs(y) for p, q in zip(A.m, B.m) for x, y in zip(p, q))
        if h in ('arrayeq', 'eqv'):
            a, b = self.key(k[1], env), self.key(k[2], env)
            if stable(a) == stable(b):
                return True
            if h == 'arrayeq':
                return False
        if h in ('isnan', 'isinf'):
            return False
        if h == 'isfinite':
            return True
        if self.exact and h in ('empty', 'unbdir', 'bnd'):
            v = self.exact_cond(h, k, env)
            if v is not None:
                return v
        if h == 'empty' and isinstance(k[1], Cond):
            s = self.region(k[1], env)
            if s is True:
                return False
            if s is False:
                return True
        if h == 'truth' and isinstance(k[1], Top) or alg.contains_top(k[1:]):
            raise EvalTop('condition')
        pr = self.scales.get('?' + str(h), .5)
        if h == 'unbdir':
            v, sc = self.direction(k[1], env)
            if sc == 0:
                return False
            return bool(self.opaque(h, v, self.key(k[2], env)).random() < pr)
        return bool(self.opaque(h, self.key(k[1:], env)).random() < pr)

    def corners(self, half, inner, env):
        """Vertices of {x | H x + h <= 0} (rows [H h]), none when the given point is not in its interior."""
        M, c = self.mat(half, env).m, [x[0] for x in self.mat(inner, env).m]
        k = ('corners', tuple(map(tuple, M)), tuple(c))
        if k not in self.cache:
            if any(sum(a * b for a, b in zip(r, c)) + r[-1] >= 0 for r in M):
                self.cache[k] = []
            else:
                self.cache[k] = exact.vertices([(-r[-1], tuple(-x for x in r[:-1])) for r in M], len(c))
        return [list(v) for v in self.cache[k]]

    def exact_cond(self, h, k, env):
        if h == 'empty' and self.poly(P(k[2]), env) != 0:
            return None
        S = k[2] if h == 'unbdir' else k[1]
        R = self.region(S, env)
        f = [x for row in self.mat(k[1], env).m for x in row] if h == 'unbdir' else None
        key = (h, R, tuple(f) if f else None)
        if key not in self.cache:
            try:
                rows = exact.rows_of(R)
                if h == 'unbdir':
                    v = rows is not None and exact.unbdir(f, rows)
                elif rows is None:
                    v = True
                elif not rows:
                    v = False          # the whole space
                elif h == 'empty':
                    v = exact.empty(rows, len(rows[0][1]))
                else:
                    v = exact.bounded(rows, len(rows[0][1]))
            except exact.NotLinear:
                v = None
            self.cache[key] = v
        return self.cache[key]

    def exact_lp(self, key, env):
        """(value, argmin) of an LP term."""
        f = [x for row in self.mat(key[-2], env).m for x in row]
        R = self.region(key[-1], env)
        H = self.mat(key[1], env).m if key[0] == 'QP' else None
        ck = ('lp', tuple(f), R, tuple(map(tuple, H or [])))
        if ck not in self.cache:
            try:
                self.cache[ck] = exact.solve(f, exact.rows_of(R)) if H is None else exact.program(H, f, exact.rows_of(R), [])
            except exact.NotLinear:
                self.cache[ck] = None
        r = self.cache[ck]
        if r is not None and r[0] != 'opt':
            raise EvalError('value of a program without optimum')
        return r

    def direction(self, f, env):
        """A cost vector as (direction, positive scale)."""
        v = [x for row in self.mat(f, env).m for x in row]
        s = max([abs(x) for x in v] or [F(0)])
        return (tuple(x / s for x in v) if s else tuple(v)), s

    def junction(self, cs, env, want):
        err = None
        for x in cs:
            try:
                if self.cond(x, env) == want:
                    return want
            except EvalError as e:
                err = e
        if err:
            raise err
        return not want

    def region(self, c, env):
        """Canonical form of a condition on the symbolic point $x: True, False, an affine row, or a set of those."""
        k = c.k
        h = k[0]
        if h in ('t', 'f'):
            return h == 't'
        if h == 'ex':
            return self.combine([self.region(k[3], env | {k[2]: i}) for i in range(self.size(k[1], env))], 'or')
        if h == 'not' and k[1].k[0] == 'ex':
            q = k[1].k
            b = cnot(q[3])
            return self.combine([self.region(b, env | {q[2]: i}) for i in range(self.size(q[1], env))], 'and')
        if h in ('and', 'or'):
            return self.combine([self.region(x, env) for x in k[1]], h)
        if h in ('ge0', 'gt0', 'req'):
            t = k[1] if h != 'req' else alg_sub(k[1], k[2])
            co = self.affine(t, env)
            s = max([abs(x) for x in co[1:]] or [F(0)])
            if s == 0:
                return co[0] >= 0 if h == 'ge0' else (co[0] > 0 if h == 'gt0' else co[0] == 0)
            if h == 'req' and next(x for x in co[1:] if x) < 0:
                s = -s
            return (h,) + tuple(x / s for x in co)
        if h == 'not':
            return ('not', self.region(k[1], env))
        return self.cond(c, env)

    def combine(self, xs, op):
        out = set()
        zero = op == 'or'
        for x in xs:
            if x is True or x is False:
                if x is zero:
                    return zero
                continue
            if isinstance(x, tuple) and x and x[0] == op:
                out |= set(x[1])
            else:
                out.add(x)
        if not out:
            return not zero
        if len(out) == 1:
            return out.pop()
        return (op, frozenset(out))

    def affine(self, t, env):
        """Constant and coefficients of t as an affine function of $x."""
        old = self.xseen
        self.xseen = 0
        self.xover.append(-1)
        try:
            c0 = self.num(t, env)
            n = self.xseen
            co = [c0]
            for i in range(n):
                self.xover[-1] = i
                co.append(self.num(t, env) - c0)
            return co
        finally:
            self.xover.pop()
            self.xseen = old

    # ------------------------------------------------------------ any value
    def key(self, x, env):
        """Plain hashable data identifying the value of x."""
        if isinstance(x, Cond):
            return self.region(x, env)
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'TOP':
                raise EvalTop('unknown')
            return tuple(self.key(y, env) for y in x)
        if isinstance(x, (Poly, Mat, Val)):
            return plain(self.conc(x, env))
        return x

    def conc(self, x, env):
        """Concrete value: Fraction, bool, None, str, Arr, ('list', kind, items), ('dict', d), ('obj', cls, d), ('opq', ...)."""
        if isinstance(x, Gamma):
            return self.conc(self.pick(x, env), env)
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Mat):
            a = self.mat(x, env)
            return a.m[0][0] if a.shape == () else a
        if isinstance(x, Cond):
            return self.cond(x, env)
        if isinstance(x, FArr):
            v = x.val
            if isinstance(v, (Mat, Poly)):
                return self.conc(v, env)
            return self.conc(v, env)
        if isinstance(x, Const):
            if isinstance(x.v, bool) or x.v is None or isinstance(x.v, str):
                return x.v
            if isinstance(x.v, (int, float)):
                return F(x.v) if x.v == x.v and abs(x.v) != float('inf') else ('float', repr(x.v))
            return ('const', repr(x.v))
        if isinstance(x, Tup):
            return ('tup', 'tuple', [self.conc(y, env) for y in x.items])
        if isinstance(x, BVec):
            return ('list', 'bvec', [self.cond(x.at(P(i)), env) for i in range(self.size(x.n, env))])
        if isinstance(x, FList):
            if x.segs is None:
                raise EvalTop('list')
            out = []
            for s in x.segs:
                if s[0] == 'one':
                    out.append(self.conc(s[1], env))
                else:
                    for i in range(self.size(s[1], env)):
                        e = env | {s[2]: i}
                        if s[4].is_true() or self.cond(s[4], e):
                            out.append(self.conc(s[3], e))
            return ('list', x.kind, out)
        if isinstance(x, FDict):
            return ('dict', {self.ckey(k, env): self.conc(v, env) for k, v in x.items}, bool(x.open))
        if isinstance(x, FObj):
            return ('obj', x.ci.qual if x.ci else None, {k: self.conc(v, env) for k, v in x.items})
        if isinstance(x, Top) or isinstance(x, Ref):
            raise EvalTop(getattr(x, 'why', 'ref'))
        if isinstance(x, Opq):
            if x.name in ('carryv', 'cycle'):
                raise EvalTop(x.name)
            if x.name == 'listnote':
                xs = self.notelist(x.args[1], env)
                if xs is not None:
                    return ('list', x.args[0], xs)
            if x.name in ('strcat', 'str') and x.args:
                parts = [self.conc(a, env) for a in x.args]
                parts = [str(int(y)) if isinstance(y, Fraction) and y.denominator == 1 else y for y in parts]
                if all(isinstance(y, str) for y in parts):
                    return ''.join(parts)
            self.log.add('opq:' + str(x.name))
            return ('opq', x.name) + tuple(stable(self.key(a, env)) for a in x.args)
        if isinstance(x, Undef):
            return ('undef',)
        if isinstance(x, (Func, Method, ClassV, Ext, ModV)):
            return ('code', repr(x.key()) if not isinstance(x, Func) else x.fi.qual)
        if x is None or isinstance(x, (str, int, bool)):
            return x
        raise EvalError('value %s' % type(x).__name__)

    def ckey(self, k, env):
        v = self.conc(k, env)
        return stable(plain(v))


def alg_sub(a, b):
    a = Mat.scalar(a) if isinstance(a, Poly) else a
    b = Mat.scalar(b) if isinstance(b, Poly) else b
    return a - b


def plain(v):
    if isinstance(v, Arr):
        return v.key()
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(((k, plain(x)) for k, x in v.items()), key=lambda z: repr(z[0])))
    return v


def differ(a, b, path=''):
    """Path of the first difference of two concrete values, or None."""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else (path, a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return None if abs(a - b) <= F(1, 10 ** 12) * (1 + abs(a)) else (path, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return (path + '.shape', a.shape, b.shape)
        for i, (r, s) in enumerate(zip(a.m, b.m)):
            for j, (x, y) in enumerate(zip(r, s)):
                if abs(x - y) > F(1, 10 ** 12) * (1 + abs(x)):
                    return ('%s[%d,%d]' % (path, i, j), x, y)
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and (a[0] == b[0] or {a[0], b[0]} == {'list', 'tup'}):
        if a[0] in ('list', 'tup'):
            if len(a[2]) != len(b[2]):
                return (path + '.len', len(a[2]), len(b[2]))
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                d = differ(x, y, '%s[%d]' % (path, i))
                if d:
                    return d
            return None
        if a[0] == 'dict':
            if set(a[1]) != set(b[1]):
                return (path + '.keys', sorted(map(str, a[1])), sorted(map(str, b[1])))
            for k in sorted(a[1], key=repr):
                d = differ(a[1][k], b[1][k], '%s[%s]' % (path, k))
                if d:
                    return d
            return None
        if a[0] == 'obj':
            if a[1] != b[1]:
                return (path + '.class', a[1], b[1])
            for k in sorted(set(a[2]) & set(b[2])):
                d = differ(a[2][k], b[2][k], '%s.%s' % (path, k))
                if d:
                    return d
            return None
    if stable(plain(a)) == stable(plain(b)):
        return None
    return (path, a, b)
