"""Values and conditions of the abstract interpreter."""
import itertools
from fractions import Fraction
from . import poly as PL
from .poly import Poly, P, ZERO, ONE, CTX, assuming, fresh, tuple_subst, atom_vars
from . import alg
from .alg import Mat, Term, max_hash

_ids = itertools.count(1)


class Val(object):
    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        h = self.__dict__.get('_hc')
        if h is None:
            h = self._hc = hash(self.key())
        return h

    def free_vars(self):
        s = self.__dict__.get('_fvc')
        if s is None:
            s = set()
            _fv(self.key(), s)
            s = self._fvc = frozenset(s)
        return s

    def subst(self, sub):
        return self

    def max_hash(self):
        m = getattr(self, '_mhc', None)
        if m is None:
            m = self._mhc = max_hash(self.key())
        return m


def _fv(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'v':
            out.add(x)
            return
        for y in x:
            _fv(y, out)
    elif hasattr(x, 'free_vars'):
        out |= x.free_vars()


class Const(Val):
    def __init__(self, v):
        self.v = v

    def key(self):
        return ('const', type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)


class Undef(Val):
    def key(self):
        return ('undef',)

    def __repr__(self):
        return '<unbound>'


UNDEF = Undef()


class Top(Val):
    """Unknown value."""

    def __init__(self, why=''):
        self.why = why
        self.id = next(_ids)

    def key(self):
        return ('TOP', self.id)

    def __repr__(self):
        return 'unknown(%s)' % self.why


class Opq(Val):
    """Uninterpreted immutable value, equal iff its structure is equal."""

    def __init__(self, name, *args):
        self.name, self.args = name, tuple(args)

    def key(self):
        return ('opq', self.name) + self.args

    def subst(self, sub):
        return Opq(self.name, *[tuple_subst(a, sub) for a in self.args])

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(alg.shorten(a) for a in self.args))


class Ref(Val):
    def __init__(self, id):
        self.id = id

    def key(self):
        return ('ref', self.id)

    def __repr__(self):
        return '&%d' % self.id


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ('tup',) + self.items

    def subst(self, sub):
        return Tup(x.subst(sub) for x in self.items)

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Gamma(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return ('gamma', self.c, self.a, self.b)

    def subst(self, sub):
        return gamma(self.c.subst(sub), self.a.subst(sub), self.b.subst(sub))

    def __repr__(self):
        return '{%r ? %r : %r}' % (self.c, self.a, self.b)


def gamma(c, a, b):
    if c.is_true():
        return a
    if c.is_false():
        return b
    if a is b or a == b:
        return a
    if c.k[0] == 'not':
        c, a, b = c.k[1], b, a
    elif c.k[0] in ('and', 'or', 'ige', 'ge0', 'gt0'):
        n = cnot(c)
        if ckey(n) < ckey(c):
            c, a, b = n, b, a
        if n.k[0] == 'not':
            c, a, b = n.k[1], b, a
    if isinstance(a, Cond) and isinstance(b, Cond):
        return cor(cand(c, a), cand(cnot(c), b))
    a = under(a, c)
    b = under(b, cnot(c))
    if a == b:
        return a
    return Gamma(c, a, b)


def under(v, c, depth=0):
    """v given that c holds: arms of nested gammas excluded by c are dropped."""
    if not isinstance(v, Gamma) or depth > 4:
        return v
    d = implied(v.c, c)
    if d is True:
        return under(v.a, c, depth + 1)
    if d is False:
        return under(v.b, c, depth + 1)
    a, b = under(v.a, c, depth + 1), under(v.b, c, depth + 1)
    if a is v.a and b is v.b:
        return v
    if a == b:
        return a
    return Gamma(v.c, a, b)


def implied(x, c):
    """True/False when c settles x, None otherwise (literal reasoning)."""
    lits = c.k[1] if c.k[0] == 'and' else (c,)
    return _impl(x, lits)


def _impl(x, lits):
    if x in lits:
        return True
    if cnot(x) in lits:
        return False
    if x.k[0] == 'and':
        r = [_impl(y, lits) for y in x.k[1]]
        return False if False in r else (True if all(z is True for z in r) else None)
    if x.k[0] == 'or':
        r = [_impl(y, lits) for y in x.k[1]]
        return True if True in r else (False if all(z is False for z in r) else None)
    if x.k[0] == 'not':
        r = _impl(x.k[1], lits)
        return None if r is None else not r
    return None


class Func(Val):
    def __init__(self, fi, closure=None, defaults=None):
        self.fi, self.closure = fi, closure
        self.id = next(_ids) if closure is not None else 0

    def key(self):
        return ('func', self.fi.qual, self.id)

    def __repr__(self):
        return '<func %s>' % self.fi.qual


class Method(Val):
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def key(self):
        return ('method', self.recv, self.name)

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.recv)


class ClassV(Val):
    def __init__(self, ci):
        self.ci = ci

    def key(self):
        return ('class', self.ci.qual)

    def __repr__(self):
        return '<class %s>' % self.ci.qual


class Ext(Val):
    """A name of an external library (dotted path), e.g. numpy.linalg.inv."""

    def __init__(self, path):
        self.path = path

    def key(self):
        return ('ext', self.path)

    def __repr__(self):
        return '<%s>' % self.path


class ModV(Val):
    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return ('mod', self.mod)


# ---------------------------------------------------------------- conditions
def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a[0] not in ('dim', 'v', 'ps', 'elem', 'len', 'first', 'int', 'argmode', 'maxi', 'mini'):
                return False
    return True


class Cond(Val):
    def __init__(self, k):
        self.k = k
        self._h = None

    def key(self):
        return ('cond', self.k)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.k)
        return self._h

    def is_true(self):
        return self.k == ('t',)

    def is_false(self):
        return self.k == ('f',)

    def subst(self, sub):
        k = self.k
        if k[0] in ('t', 'f'):
            return self
        if k[0] == 'not':
            return cnot(k[1].subst(sub))
        if k[0] in ('and', 'or'):
            cs = [c.subst(sub) for c in k[1]]
            return cand(*cs) if k[0] == 'and' else cor(*cs)
        if k[0] == 'ige':
            return ige(k[1].subst(sub))
        if k[0] == 'ieq':
            return ieq(k[1].subst(sub))
        if k[0] == 'ge0':
            return rge(k[1].subst(sub))
        if k[0] == 'gt0':
            return rgt(k[1].subst(sub))
        if k[0] == 'ex':
            if k[2] in sub:
                sub = {a: b for a, b in sub.items() if a != k[2]}
            g = fresh('q')
            return exists(k[1].subst(sub), g, k[3].subst({k[2]: Poly.atom(g)}).subst(sub))
        return Cond((k[0],) + tuple(tuple_subst(x, sub) for x in k[1:]))

    def free_vars(self):
        s = self.__dict__.get('_fvc')
        if s is None:
            if self.k[0] == 'ex':
                s = self.k[1].free_vars() | (self.k[3].free_vars() - {self.k[2]})
            else:
                s = set()
                for x in self.k[1:]:
                    _fv(x, s)
            s = self._fvc = frozenset(s)
        return s

    def __repr__(self):
        k = self.k
        if k[0] == 't':
            return 'True'
        if k[0] == 'f':
            return 'False'
        if k[0] == 'not':
            return 'not(%r)' % (k[1],)
        if k[0] in ('and', 'or'):
            return '(' + (' %s ' % k[0]).join(map(repr, k[1])) + ')'
        if k[0] == 'ige':
            return '%r>=0' % (k[1],)
        if k[0] == 'ieq':
            return '%r==0' % (k[1],)
        if k[0] == 'ge0':
            return '%r>=0' % (k[1],)
        if k[0] == 'gt0':
            return '%r>0' % (k[1],)
        if k[0] == 'ex':
            return 'exists %s<%r: %r' % (k[2][1], k[1], k[3])
        return '%s(%s)' % (k[0], ', '.join(alg.shorten(x) for x in k[1:]))


TRUE, FALSE = Cond(('t',)), Cond(('f',))


def cbool(b):
    return TRUE if b else FALSE


def ckey(c):
    return hash(c)


def cnot(c):
    k = c.k
    if k[0] == 't':
        return FALSE
    if k[0] == 'f':
        return TRUE
    if k[0] == 'not':
        return k[1]
    if k[0] == 'and':
        return cor(*[cnot(x) for x in k[1]])
    if k[0] == 'or':
        return cand(*[cnot(x) for x in k[1]])
    if k[0] == 'ige':
        return ige(-k[1] - 1)
    if k[0] == 'ge0':
        return rgt(_neg(k[1]))
    if k[0] == 'gt0':
        return rge(_neg(k[1]))
    return Cond(('not', c))


def _neg(x):
    return -x


def cand(*cs):
    out = []
    for c in cs:
        if c.is_false():
            return FALSE
        if c.is_true():
            continue
        for x in (c.k[1] if c.k[0] == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if cnot(x) in out:
            return FALSE
    out = [x for x in out if not (x.k[0] == 'or' and any(y in out for y in x.k[1]))]
    # drop literals of disjunctions refuted by other conjuncts
    new = []
    for x in out:
        if x.k[0] == 'or':
            keep = [y for y in x.k[1] if cnot(y) not in out]
            if len(keep) != len(x.k[1]):
                return cand(*(new + [cor(*keep)] + out[len(new) + 1:]))
        new.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond(('and', tuple(sorted(out, key=ckey))))


def cor(*cs):
    out = []
    for c in cs:
        if c.is_true():
            return TRUE
        if c.is_false():
            continue
        for x in (c.k[1] if c.k[0] == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if cnot(x) in out:
            return TRUE
    # absorption
    out = [x for x in out if not (x.k[0] == 'and' and any(y in out for y in x.k[1]))]
    new = []
    for x in out:
        if x.k[0] == 'and':
            keep = [y for y in x.k[1] if cnot(y) not in out]
            if len(keep) != len(x.k[1]):
                return cor(*(new + [cand(*keep)] + out[len(new) + 1:]))
        new.append(x)
    # (a and r) or (not a and r) = r
    for i, x in enumerate(out):
        for j, y in enumerate(out):
            if i < j and x.k[0] == 'and' and y.k[0] == 'and':
                dx = [z for z in x.k[1] if z not in y.k[1]]
                dy = [z for z in y.k[1] if z not in x.k[1]]
                if len(dx) == 1 and len(dy) == 1 and cnot(dx[0]) == dy[0]:
                    rest = cand(*[z for z in x.k[1] if z in y.k[1]])
                    return cor(rest, *[z for n, z in enumerate(out) if n not in (i, j)])
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond(('or', tuple(sorted(out, key=ckey))))


def ige(p):
    """integer p >= 0"""
    s = CTX.sign_cmp(p)
    if s is not None:
        return cbool(s)
    return Cond(('ige', p))


def ieq(p):
    z = CTX.is_zero(p)
    if z is not None:
        return cbool(z)
    c = -p
    if hash(c) < hash(p):
        p = c
    return Cond(('ieq', p))


def _const_of(x):
    if isinstance(x, Poly):
        return x.const()
    if isinstance(x, Mat) and x.ndim == 0:
        if not x.terms:
            return Fraction(0)
        if set(x.terms) == {((), (), ())}:
            return x.terms[((), (), ())].const()
    return None


def _as_scalar_mat(x):
    if isinstance(x, Poly):
        return Mat.scalar(x)
    return x


def _norm_real(x):
    x = _as_scalar_mat(x)
    # |y| terms: handled by callers
    return x


def _abs_split(x, strict):
    """tol - |y| >= 0  ->  both signs;  |y| - tol > 0 -> either sign."""
    x = _as_scalar_mat(x)
    pos = None
    for (w, b, g), c in x.terms.items():
        if w == () and not b and not g:
            for m, k in c.t.items():
                if len(m) == 1 and m[0][0][0] == 'abs' and m[0][1] == 1:
                    if pos is not None:
                        return None
                    pos = (m[0][0], k)
    if pos is None:
        return None
    a, k = pos
    rest = x - Mat.scalar(Poly({((a, 1),): k}))
    y = a[1]
    y = _as_scalar_mat(y)
    up, dn = rest + y.scale(k), rest - y.scale(k)
    mk = rgt if strict else rge
    if k < 0:
        return cand(mk(up), mk(dn))
    return cor(mk(up), mk(dn))


def rge(x):
    c = _const_of(x)
    if c is not None:
        return cbool(c >= 0)
    s = _abs_split(x, False)
    if s is not None:
        return s
    return Cond(('ge0', _norm_real(x)))


def rgt(x):
    c = _const_of(x)
    if c is not None:
        return cbool(c > 0)
    s = _abs_split(x, True)
    if s is not None:
        return s
    return Cond(('gt0', _norm_real(x)))


def req(x, y):
    a, b = sorted([_norm_real(x), _norm_real(y)], key=hash)
    if a == b:
        return TRUE
    ca, cb = _const_of(a), _const_of(b)
    if ca is not None and cb is not None:
        return cbool(ca == cb)
    return Cond(('req', a, b))


def block_pairs(x, n, v, out):
    """Collect (off, ln) of embeddings of size n met by the single-row selection at index v."""
    if isinstance(x, (Mat, Cond)) and v not in x.free_vars():
        return
    if isinstance(x, Mat):
        for (w, b, g), c in x.terms.items():
            for l1, l2 in zip(w, w[1:]):
                for s, e in ((l1, l2), (l2, l1)):
                    if s[0] == 'E' and e[0] == 'E' and s[3] == ONE and s[2] == Poly.atom(v) and s[1] == n and e[1] == n \
                            and (l1[4] and not l2[4]) and e is not s and not (e[3] == ONE and e[2] == Poly.atom(v)):
                        out.append((e[2], e[3], b))
            for l in w:
                block_pairs(l, n, v, out)
            block_pairs(c, n, v, out)
    elif isinstance(x, Poly):
        for a in x.atoms():
            block_pairs(a, n, v, out)
    elif isinstance(x, tuple):
        for y in x:
            block_pairs(y, n, v, out)
    elif isinstance(x, Cond):
        block_pairs(x.k, n, v, out)
    elif isinstance(x, Val):
        block_pairs(x.key(), n, v, out)


def split_range(n, v, body):
    """Ranges [(off, len)] into which 0..n-1 should be split so that row selections in body resolve."""
    out = []
    block_pairs(body, n, v, out)
    if not out:
        return None
    blocks = []
    for off, ln, b in out:
        vs = [x for x in b if x[0] in (off.free_vars() | ln.free_vars())]
        blocks.append((off, ln, vs))
    iv = alg.sorted_intervals(blocks, n)
    if iv is None:
        return None
    res, pos = [], ZERO
    for o, l in iv + [(n, ZERO)]:
        gap = o - pos
        if CTX.is_zero(gap) is not True:
            res.append((pos, gap))
        if CTX.is_zero(l) is not True:
            res.append((o, l))
        pos = o + l
    if len(res) < 2:
        return None
    return res


def exists(n, v, c, depth=0):
    """exists 0 <= v < n: c(v)"""
    n = P(n)
    if c.is_false() or CTX.nonneg(-n):
        return FALSE
    if v not in c.free_vars():
        return cand(ige(n - 1), c)
    if c.k[0] == 'or':
        return cor(*[exists(n, v, x, depth) for x in c.k[1]])
    if c.k[0] == 'and':
        ind = [x for x in c.k[1] if v not in x.free_vars()]
        if ind:
            dep = [x for x in c.k[1] if v in x.free_vars()]
            return cand(exists(n, v, cand(*dep), depth), *ind)
    for x in (c.k[1] if c.k[0] == 'and' else (c,)):
        # v = e
        if x.k[0] == 'ieq':
            ab = x.k[1].coeff(v)
            if ab is not None and ab[0] in (ONE, P(-1)):
                e = -ab[1] * ab[0]
                rest = [y.subst({v: e}) for y in (c.k[1] if c.k[0] == 'and' else (c,)) if y is not x]
                return cand(ige(e), ige(n - 1 - e), *rest)
    if n.as_int() is not None and n.as_int() <= 4:
        return cor(*[c.subst({v: P(i)}) for i in range(n.as_int())])
    if depth < 4:
        sp = split_range(n, v, c)
        if sp is not None:
            parts = []
            for o, l in sp:
                w = fresh('q')
                with assuming({w: (ZERO, l)}):
                    parts.append(exists(l, w, c.subst({v: Poly.atom(w) + o}), depth + 1))
            return cor(*parts)
    d = max(max_hash(c.k), max_hash(n)) + 1
    cv = ('v', '#%d' % d)
    return Cond(('ex', n, cv, c.subst({v: Poly.atom(cv)})))


def forall(n, v, c):
    return cnot(exists(n, v, cnot(c)))


# ---------------------------------------------------------------- heap contents
class ArrC(object):
    """numpy array: val is a Mat, BVec, Opq or Top; storage: frozenset of storage ids."""
    __slots__ = ('val', 'st')

    def __init__(self, val, st):
        self.val, self.st = val, st


class BVec(Val):
    """1-D boolean array: condition c in the index variable v, 0 <= v < n."""

    def __init__(self, n, v, c):
        d = max(max_hash(c.k), max_hash(n)) + 1
        self.n, self.v = P(n), ('v', '#%d' % d)
        self.c = c.subst({v: Poly.atom(self.v)})

    def at(self, i):
        return self.c.subst({self.v: P(i)})

    def key(self):
        return ('bvec', self.n, self.v, self.c)

    def subst(self, sub):
        g = fresh('q')
        return BVec(self.n.subst(sub), g, self.at(Poly.atom(g)).subst(sub))

    def __repr__(self):
        return 'bvec[%s<%r: %r]' % (self.v[1], self.n, self.c)


class ListC(object):
    """list/set: segs is a tuple of segments, or None when unknown."""
    __slots__ = ('segs', 'kind', 'note')

    def __init__(self, segs, kind='list', note=None):
        self.segs, self.kind, self.note = segs, kind, note


class One(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Rep(object):
    """n elements, element k is the template val with index variable var := k; cond: only those with cond(k)."""
    __slots__ = ('n', 'var', 'val', 'cond')

    def __init__(self, n, var, val, cond=TRUE):
        self.n, self.var, self.val, self.cond = P(n), var, val, cond


class DictC(object):
    __slots__ = ('d', 'open')

    def __init__(self, d, open=False):
        self.d, self.open = d, open


class ObjC(object):
    __slots__ = ('ci', 'f')

    def __init__(self, ci, f):
        self.ci, self.f = ci, f


# frozen templates (immutable deep copies of heap values)
class FArr(Val):
    def __init__(self, val, st):
        self.val, self.st = val, st

    def key(self):
        return ('farr', self.val)

    def subst(self, sub):
        return FArr(self.val.subst(sub), self.st)

    def __repr__(self):
        return 'arr<%r>' % (self.val,)


class FList(Val):
    """segs: tuple of ('one', v) / ('rep', n, var, v, cond); var canonical"""

    def __init__(self, segs, kind, org=None):
        self.segs, self.kind, self.org = segs, kind, org

    def key(self):
        return ('flist', self.kind, self.segs)

    def subst(self, sub):
        out = []
        for s in self.segs or ():
            if s[0] == 'one':
                out.append(('one', s[1].subst(sub)))
            else:
                g = fresh('q')
                gp = {s[2]: Poly.atom(g)}
                out.append(canon_rep(s[1].subst(sub), g, s[3].subst(gp).subst(sub), s[4].subst(gp).subst(sub)))
        return FList(tuple(out) if self.segs is not None else None, self.kind, self.org)

    def __repr__(self):
        if self.segs is None:
            return '[?]'
        return '[' + ', '.join(repr(s[1]) if s[0] == 'one' else '%r for %s<%r%s' % (
            s[3], s[2][1], s[1], '' if s[4].is_true() else ' if %r' % s[4]) for s in self.segs) + ']'


def canon_rep(n, var, val, cond=TRUE):
    d = max(max_hash(val), max_hash(n), max_hash(cond.k)) + 1
    cv = ('v', '#%d' % d)
    s = {var: Poly.atom(cv)}
    return ('rep', n, cv, val.subst(s), cond.subst(s))


class FDict(Val):
    def __init__(self, items, open, org=None):
        self.items, self.open, self.org = items, open, org

    def key(self):
        return ('fdict', self.items, self.open)

    def subst(self, sub):
        return FDict(tuple((k, v.subst(sub)) for k, v in self.items), self.open, self.org)

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items) + '}'


class FObj(Val):
    def __init__(self, ci, items, org=None):
        self.ci, self.items, self.org = ci, items, org

    def key(self):
        return ('fobj', self.ci.qual if self.ci else None, self.items)

    def get(self, f):
        return dict(self.items).get(f)

    def subst(self, sub):
        return FObj(self.ci, tuple((k, v.subst(sub)) for k, v in self.items), self.org)

    def __repr__(self):
        return '%s(%s)' % (self.ci.name if self.ci else 'obj', ', '.join('%s=%r' % kv for kv in self.items))
