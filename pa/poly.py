"""Integer/scalar polynomials over named atoms, with a small sign-decision procedure.

Atoms are hashable tuples.  ('v', name) is an index variable; its range may be declared in CTX.
('ps', body, upto) is the prefix sum of `body` (a Poly in the canonical variable V0) for indices 0..upto-1.
"""
from fractions import Fraction
import itertools

_fresh = itertools.count(1)
PSV = ('v', '$')          # canonical bound variable of prefix sums


def fresh(prefix='i'):
    return ('v', '%s%d' % (prefix, next(_fresh)))


def atom_subst(a, sub):
    """Substitute inside an atom; returns a Poly (or None when unchanged)."""
    if a in sub:
        return Poly.of(sub[a])
    if a[0] == 'ps':
        up = a[2].subst(sub)
        s2 = {k: v for k, v in sub.items() if k != PSV}
        body = a[1].subst(s2)
        if up == a[2] and body == a[1]:
            return None
        return prefix_sum(body, up)
    if a[0] == 'v' or not _has_nested(a):
        return None
    new = tuple_subst(a, sub)
    if new == a:
        return None
    return Poly.atom(new)


def _has_nested(x):
    if isinstance(x, Poly):
        return True
    if isinstance(x, tuple):
        return any(_has_nested(y) for y in x)
    return hasattr(x, 'subst')


def tuple_subst(x, sub):
    if isinstance(x, tuple):
        if x in sub:
            return sub[x]
        return tuple(tuple_subst(y, sub) for y in x)
    if hasattr(x, 'subst'):
        return x.subst(sub)
    return x


def atom_vars(a, out):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == 'v':
            if a != PSV:
                out.add(a)
            return
        for y in a:
            atom_vars(y, out)
    elif hasattr(a, 'free_vars'):
        out |= a.free_vars()


class Poly(object):
    __slots__ = ('t', '_h', '_k', '_fv')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._h = None
        self._k = None
        self._fv = None

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            return Poly({(): Fraction(int(x))}) if x else ZERO
        if isinstance(x, (int, Fraction)):
            return Poly({(): Fraction(x)})
        if isinstance(x, float):
            return Poly({(): Fraction(repr(x)) if 'e' not in repr(x) else Fraction(x).limit_denominator(10**18)})
        raise TypeError(x)

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)
    __rmul__ = __mul__

    def key(self):
        if self._k is None:
            self._k = ('poly',) + tuple(sorted(((m, c) for m, c in self.t.items()), key=hash))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset((m, c.numerator + 1000003 * c.denominator) for m, c in self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Poly.of(o)
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return all(m == () for m in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def const_term(self):
        return self.t.get((), Fraction(0))

    def as_int(self):
        c = self.const()
        return int(c) if c is not None and c.denominator == 1 else None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def free_vars(self):
        if self._fv is None:
            out = set()
            for a in self.atoms():
                if a[0] == 'v':
                    if a != PSV:
                        out.add(a)
                else:
                    atom_vars(a, out)
            self._fv = frozenset(out)
        return self._fv

    def subst(self, sub):
        if self.is_const():
            return self
        fv = self.free_vars()
        for k in sub:
            if k[0] != 'v' or k == PSV or k in fv:
                break
        else:
            return self
        r = Poly({})
        changed = False
        acc = {}
        for m, c in self.t.items():
            p = None
            plain = []
            for a, e in m:
                s = atom_subst(a, sub)
                if s is None:
                    plain.append((a, e))
                else:
                    changed = True
                    q = s
                    for _ in range(e - 1):
                        q = q * s
                    p = q if p is None else p * q
            if p is None:
                acc[m] = acc.get(m, 0) + c
            else:
                r = r + Poly({tuple(plain): c}) * p
        if not changed:
            return self
        return r + Poly(acc)

    def coeff(self, v):
        """(a, b) with self = a*v + b if linear in atom v (and v not nested), else None."""
        a, b = {}, {}
        for m, c in self.t.items():
            d = dict(m)
            if v in d:
                if d[v] != 1:
                    return None
                rest = tuple((x, e) for x, e in m if x != v)
                if any(_mentions(x, v) for x, _ in rest):
                    return None
                a[rest] = a.get(rest, 0) + c
            else:
                if any(_mentions(x, v) for x, _ in m):
                    return None
                b[m] = b.get(m, 0) + c
        return Poly(a), Poly(b)

    def divmono(self, d):
        """Quotient and remainder by a single-term poly d."""
        (dm, dc), = d.t.items()
        q, r = {}, {}
        dd = dict(dm)
        for m, c in self.t.items():
            mm = dict(m)
            if all(mm.get(a, 0) >= e for a, e in dd.items()):
                for a, e in dd.items():
                    mm[a] -= e
                nm = tuple(sorted(((a, e) for a, e in mm.items() if e), key=_akey))
                q[nm] = q.get(nm, 0) + c / dc
            else:
                r[m] = c
        return Poly(q), Poly(r)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            s = '*'.join(show_atom(a) + ('^%d' % e if e > 1 else '') for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-')


def show_atom(a):
    if a[0] == 'v':
        return a[1]
    if a[0] == 'dim':
        return a[1]
    if a[0] == 'ps':
        return 'psum[%r](%r)' % (a[1], a[2])
    if a[0] == 'elem':
        return '%s[%s]' % (a[1], ','.join(repr(x) for x in a[2:]))
    return '%s(%s)' % (a[0], ','.join(repr(x) for x in a[1:]))


_vars_cache = {}


def _mentions(a, v):
    if a == v:
        return True
    if not isinstance(a, tuple):
        return False
    s = set()
    atom_vars(a, s)
    return v in s


def _akey(ae):
    return hash(ae[0])


_mm_cache = {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=_akey))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    return Poly.of(x)


def prefix_sum(body, upto):
    """sum_{j<upto} body[PSV:=j]"""
    body, upto = P(body), P(upto)
    fv = set()
    for a in body.atoms():
        _psv(a, fv)
    if PSV not in fv:
        return body * upto
    c = upto.const()
    if c is not None:
        r = ZERO
        for j in range(max(0, int(c))):
            r = r + body.subst({PSV: P(j)})
        return r
    ct = upto.const_term()
    if ct > 0:
        base = upto - ct
        r = Poly.atom(('ps', body, base))
        for j in range(int(ct)):
            r = r + body.subst({PSV: base + j})
        return r
    if ct < 0:
        # ps(u - c) = ps(u) - sum body(u-c .. u-1)
        base = upto - ct
        r = Poly.atom(('ps', body, base))
        for j in range(1, int(-ct) + 1):
            r = r - body.subst({PSV: base - j})
        return r
    return Poly.atom(('ps', body, upto))


def _psv(a, out):
    if a == PSV:
        out.add(a)
    elif isinstance(a, tuple):
        for y in a:
            _psv(y, out)
    elif isinstance(a, Poly):
        for x in a.atoms():
            _psv(x, out)
    elif hasattr(a, 'key') and not isinstance(a, type):
        _psv(a.key(), out)


class Ctx(object):
    """Assumptions: lower bounds of atoms, ranges of index variables, polynomials known to be >= 0."""

    def __init__(self):
        self.low = {}       # atom -> int lower bound (default 0 for 'dim', 'ps', 'elem', 'len', 'first')
        self.ranges = {}    # var -> (lo, hi)
        self.hyps = []      # polys >= 0

    def snapshot(self):
        return dict(self.low), dict(self.ranges), list(self.hyps)

    def restore(self, s):
        self.low, self.ranges, self.hyps = dict(s[0]), dict(s[1]), list(s[2])

    def lower(self, a):
        if a in self.low:
            return self.low[a]
        return 0 if a[0] in ('dim', 'ps', 'elem', 'len', 'first', 'argmode') else None

    def _base(self, p, depth=0):
        """A sufficient check for p >= 0 without hypotheses."""
        if not p.t:
            return True
        vs = [v for v in p.free_vars() if v in self.ranges]
        # eliminate the variables whose ranges mention other variables first
        vs.sort(key=lambda v: -self._rank(v))
        for v in vs:
            ab = p.coeff(v)
            if ab is None:
                continue
            a, b = ab
            lo, hi = self.ranges[v]
            if depth > 6:
                return False
            if self._base(a, depth + 1):
                return self._base(a * lo + b, depth + 1)
            if self._base(-a, depth + 1):
                return self._base(a * (hi - 1) + b, depth + 1)
            return False
        sub = {}
        for a in p.atoms():
            l = self.lower(a)
            if l is None:
                if all(c >= 0 for m, c in p.t.items() if any(x == a for x, _ in m)) and False:
                    pass
                return False if any(x == a and True for m in p.t for x, _ in m) else False
            if l:
                sub[a] = Poly.atom(a) + l
        q = _shallow_subst(p, sub)
        return all(c >= 0 for c in q.t.values())

    def _rank(self, v, seen=()):
        if v in seen or v not in self.ranges:
            return 0
        r = 0
        for b in self.ranges[v]:
            for w in b.free_vars():
                r = max(r, 1 + self._rank(w, seen + (v,)))
        return r

    def nonneg(self, p):
        p = P(p)
        c = p.const()
        if c is not None:
            return c >= 0
        if self._base(p):
            return True
        for h in self.hyps:
            if self._base(p - h):
                return True
        n = len(self.hyps)
        for i in range(n):
            for j in range(i, n):
                if self._base(p - self.hyps[i] - self.hyps[j]):
                    return True
        # p = k*h + rest with a positive monomial multiple of a hypothesis (e.g. nx*(i-j-1))
        for h in self.hyps:
            for m in list(p.t):
                for mh in h.t:
                    q = _mono_div(m, mh)
                    if q is None or q == ():
                        continue
                    f = Poly({q: Fraction(1)})
                    if self._base(f) and self._base(p - f * h):
                        return True
        return False

    def pos(self, p):
        return self.nonneg(P(p) - 1)

    def sign_cmp(self, p):
        """True if p>=0 surely, False if p<0 surely, None otherwise."""
        if self.nonneg(p):
            return True
        if self.nonneg(-P(p) - 1):
            return False
        return None

    def is_zero(self, p):
        p = P(p)
        if not p.t:
            return True
        if p.const() is not None:
            return False
        if self.nonneg(p - 1) or self.nonneg(-p - 1):
            return False
        if self.hyps and self.nonneg(p) and self.nonneg(-p):
            return True
        return None


def _mono_div(m, d):
    mm = dict(m)
    for a, e in d:
        if mm.get(a, 0) < e:
            return None
        mm[a] -= e
    return tuple(sorted(((a, e) for a, e in mm.items() if e), key=_akey))


def _shallow_subst(p, sub):
    if not sub:
        return p
    r = Poly({})
    for m, c in p.t.items():
        q = Poly({(): c})
        for a, e in m:
            f = sub.get(a)
            f = Poly.atom(a) if f is None else f
            for _ in range(e):
                q = q * f
        r = r + q
    return r


CTX = Ctx()


class assuming(object):
    """with assuming(ranges={v:(lo,hi)}, hyps=[p,...]): ..."""

    def __init__(self, ranges=None, hyps=()):
        self.r, self.h = ranges or {}, list(hyps)

    def __enter__(self):
        self.saved = CTX.snapshot()
        for v, (lo, hi) in self.r.items():
            CTX.ranges[v] = (P(lo), P(hi))
        CTX.hyps.extend(P(h) for h in self.h)

    def __exit__(self, *a):
        CTX.restore(self.saved)
