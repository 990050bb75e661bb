"""Noncommutative matrix algebra in sum-of-words normal form.

A Mat is  sum_k coef_k * word_k  (optionally under index sums and guards).  Words are products of letters:
  ('m', name, idx, r, c, tr, inv)   atomic matrix (idx: tuple of Poly arguments)
  ('E', tot, off, ln, tr)           embedding of ln rows at offset off of tot rows (tr: selection)
  ('R', sel, n, k, tr)              selection of k rows of n by an index list `sel`
  ('1', n, tr)                      column (row) of ones
  ('PI', body, hi, lo, tr)          body(hi) body(hi-1) ... body(lo), body a word in the variable PIV
  ('pow', word, n)                  n-th power
  ('inv', mat, tr)                  inverse of a Mat that is not a product of atoms
  ('null', mat, r, c, tr)           orthonormal basis of the kernel of mat
  ('f', fn, r, c, tr)               opaque matrix-valued function (fn: hashable with nested values)
The empty word is the identity.  Vectors (ndim 1) are columns; numbers (ndim 0) are 1x1.
"""
from fractions import Fraction
from . import poly as PL
from .poly import Poly, P, ZERO, ONE, CTX, assuming, fresh, tuple_subst, atom_vars

PIV = ('v', '%')
SYM = set()          # names of symmetric atoms
DIAG = {}            # reserved


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- letters
def rows(l):
    k = l[0]
    if k == 'm':
        return l[4] if l[5] else l[3]
    if k == 'E':
        return l[3] if l[4] else l[1]
    if k == 'R':
        return l[2] if l[4] else l[3]
    if k == '1':
        return ONE if l[2] else l[1]
    if k == 'PI':
        b = l[1]
        if l[4]:
            return cols(b[-1]).subst({PIV: l[3]})
        return rows(b[0]).subst({PIV: l[2]})
    if k == 'pow':
        return rows(l[1][0])
    if k == 'inv':
        return l[1].shape[0]
    if k in ('null', 'f'):
        return l[3] if l[4] else l[2]
    raise KeyError(k)


def cols(l):
    k = l[0]
    if k == 'm':
        return l[3] if l[5] else l[4]
    if k == 'E':
        return l[1] if l[4] else l[3]
    if k == 'R':
        return l[3] if l[4] else l[2]
    if k == '1':
        return l[1] if l[2] else ONE
    if k == 'PI':
        b = l[1]
        if l[4]:
            return rows(b[0]).subst({PIV: l[2]})
        return cols(b[-1]).subst({PIV: l[3]})
    if k == 'pow':
        return cols(l[1][-1])
    if k == 'inv':
        return l[1].shape[0]
    if k in ('null', 'f'):
        return l[2] if l[4] else l[3]
    raise KeyError(k)


def transpose_letter(l):
    k = l[0]
    if k == 'm':
        if l[1] in SYM:
            return l
        return l[:5] + (not l[5],) + l[6:]
    if k == 'E' or k == 'R' or k == 'null' or k == 'PI':
        return l[:4] + (not l[4],)
    if k == 'f':
        if is_sym_fn(l[1]):
            return l
        return l[:4] + (not l[4],)
    if k == '1':
        return l[:2] + (not l[2],)
    if k == 'pow':
        return ('pow', transpose_word(l[1]), l[2])
    if k == 'inv':
        if l[1].is_symmetric():
            return l
        return ('inv', l[1], not l[2])
    raise KeyError(k)


def is_sym_fn(fn):
    return isinstance(fn, tuple) and fn and fn[0] in ('dare', 'diag')


def transpose_word(w):
    return tuple(transpose_letter(l) for l in reversed(w))


def letter_subst(l, sub):
    if l[0] == 'PI':
        s2 = {k: v for k, v in sub.items() if k != PIV}
        return ('PI', tuple(letter_subst(x, s2) for x in l[1]), l[2].subst(sub), l[3].subst(sub), l[4])
    if l[0] == 'pow':
        return ('pow', tuple(letter_subst(x, sub) for x in l[1]), l[2].subst(sub))
    return (l[0],) + tuple(tuple_subst(x, sub) for x in l[1:])


def letter_vars(l):
    out = set()
    for x in l[1:]:
        atom_vars(x, out)
    out.discard(PIV)
    return out


def word_subst(w, sub):
    return tuple(letter_subst(l, sub) for l in w)


def is_unknown_letter(l):
    return contains_top(l) if l[0] == 'f' else False


def contains_top(x):
    if isinstance(x, tuple):
        if x and x[0] == 'TOP':
            return True
        return any(contains_top(y) for y in x)
    if isinstance(x, str):
        return x.startswith('TOP')
    if isinstance(x, Poly):
        return any(contains_top(a) for m in x.t for a, _ in m)
    if isinstance(x, Mat):
        return any(contains_top(k) for k in x.terms) or any(contains_top(c) for c in x.terms.values()) or contains_top(x.shape)
    k = getattr(x, 'key', None)
    return contains_top(k()) if k is not None and not isinstance(x, type) else False


# ---------------------------------------------------------------- adjacency
def interval_rel(o1, l1, o2, l2):
    d = o2 - o1
    if d == ZERO and l1 == l2:
        return 'same'
    if d == ZERO and CTX.is_zero(l1 - l2):
        return 'same'
    if CTX.nonneg(d - l1) or CTX.nonneg(-d - l2):
        return 'disjoint'
    if CTX.nonneg(d) and CTX.nonneg(o1 + l1 - o2 - l2):
        return 'in2'      # 2 inside 1
    if CTX.nonneg(-d) and CTX.nonneg(o2 + l2 - o1 - l1):
        return 'in1'      # 1 inside 2
    return None


def candidates(o1, l1, o2, l2, t):
    """Values e for the summation variable t such that interval 1 may lie inside tile t of family 2."""
    out = []
    ab = None
    for a in o2.atoms():
        if a[0] == 'ps' and a[2] == Poly.atom(t):
            base = o2 - Poly.atom(a)
            if t in base.free_vars():
                continue
            rest = o1 - base
            for x in rest.atoms():
                if x[0] == 'ps' and x[1] == a[1]:
                    out.append(x[2])
            out.append(ZERO)
            return out
    ab = o2.coeff(t)
    if ab is None or t in l2.free_vars():
        return out
    a, b = ab
    if not a.t:
        return out
    num = o1 - b
    if len(a.t) == 1:
        q, r = num.divmono(a)
        out.append(q)
        # interval given from the end of a tile etc.
        if r.t:
            out.append(q - 1)
            out.append(q + 1)
    else:
        for v in sorted(num.free_vars(), key=hash):
            cv = num.coeff(v)
            if cv is not None and cv[0] == a:
                rest = cv[1]
                k = _multiple(rest, a)
                out.append(Poly.atom(v) + (k if k is not None else 0))
        for v in num.atoms():
            if v[0] == 'dim':
                cv = num.coeff(v)
                if cv is not None and cv[0] == a:
                    k = _multiple(cv[1], a)
                    if k is not None:
                        out.append(Poly.atom(v) + k)
        k = _multiple(num, a)
        if k is not None:
            out.append(P(k))
        out.append(ZERO)
    return out


def _multiple(p, a):
    if not p.t:
        return 0
    m, c = next(iter(a.t.items()))
    if m in p.t:
        k = p.t[m] / c
        if p == a * k:
            return k
    return None


class Term(object):
    __slots__ = ('coef', 'word', 'binders', 'guards')

    def __init__(self, coef, word, binders=(), guards=()):
        self.coef, self.word, self.binders, self.guards = coef, word, tuple(binders), tuple(guards)

    def subst(self, sub):
        return Term(self.coef.subst(sub), word_subst(self.word, sub),
                    tuple((v, lo.subst(sub), hi.subst(sub)) for v, lo, hi in self.binders),
                    tuple(g.subst(sub) for g in self.guards))

    def freshen(self):
        if not self.binders:
            return self
        sub, nb = {}, []
        t = self
        for v, lo, hi in self.binders:
            nv = fresh('b')
            sub[v] = Poly.atom(nv)
            nb.append(nv)
        t = t.subst(sub)
        return Term(t.coef, t.word, tuple((nv, b[1], b[2]) for nv, b in zip(nb, t.binders)), t.guards)


def _scope(binders, guards=()):
    return assuming({v: (lo, hi) for v, lo, hi in binders}, guards)


def reduce_pair(a, b, binders):
    """Returns None (no rule), 'zero', ('w', letters, coef) or ('sub', var, value)."""
    ka, kb = a[0], b[0]
    if ka == 'E' and a[2] == ZERO and a[1] == a[3]:
        return ('w', (b,), ONE)
    if kb == 'E' and b[2] == ZERO and b[1] == b[3]:
        return ('w', (a,), ONE)
    if ka == 'E' and kb == 'E':
        if a[4] and not b[4]:
            r = interval_rel(a[2], a[3], b[2], b[3])
            if r == 'same':
                return ('w', (), ONE)
            if r == 'disjoint':
                return 'zero'
            if r == 'in2':
                return ('w', (('E', a[3], b[2] - a[2], b[3], False),), ONE)
            if r == 'in1':
                return ('w', (('E', b[3], a[2] - b[2], a[3], True),), ONE)
            bv = {v: (lo, hi) for v, lo, hi in binders}
            for (x, y) in ((a, b), (b, a)):
                # interval of x inside one tile of the family y
                for t in [v for v, _, _ in reversed(binders) if v in y[2].free_vars()]:
                    if t in x[2].free_vars() or t in x[3].free_vars():
                        continue
                    for e in candidates(x[2], x[3], y[2], y[3], t):
                        if t in e.free_vars():
                            continue
                        yo = y[2].subst({t: e})
                        yl = y[3].subst({t: e})
                        lo, hi = bv[t]
                        with assuming(hyps=[e - lo, hi - 1 - e]):
                            rel = interval_rel(x[2], x[3], yo, yl)
                        if rel == 'same' or rel == 'in1':
                            return ('sub', t, e)
            return None
        if not a[4] and not b[4]:
            return ('w', (('E', a[1], a[2] + b[2], b[3], False),), ONE)
        if a[4] and b[4]:
            return ('w', (('E', b[1], b[2] + a[2], a[3], True),), ONE)
        return None
    if ka == 'E' and a[4] and kb == '1' and not b[2]:
        return ('w', (('1', a[3], False),), ONE)
    if ka == '1' and a[2] and kb == 'E' and not b[4]:
        return ('w', (('1', b[3], True),), ONE)
    if ka == '1' and a[2] and kb == '1' and not b[2]:
        return ('w', (), a[1])
    if ka == '1' and not a[2] and a[1] == ONE:
        return ('w', (b,), ONE)
    if kb == '1' and b[2] and b[1] == ONE:
        return ('w', (a,), ONE)
    if ka == 'E' and a[4] and kb == 'R' and not b[4] and a[3] == ONE and isinstance(b[1], tuple) and b[1][0] == 'lst':
        return ('w', (('E', b[2], b[1][1].subst({b[1][2]: a[2]}) if b[1][2] else b[1][1], ONE, True),), ONE)
    if ka == 'R' and a[4] and kb == 'E' and not b[4] and b[3] == ONE and isinstance(a[1], tuple) and a[1][0] == 'lst':
        return ('w', (('E', a[2], a[1][1].subst({a[1][2]: b[2]}) if a[1][2] else a[1][1], ONE, False),), ONE)
    if ka == 'R' and kb == 'R' and not a[4] and b[4] and a[2] == b[2]:
        if a[1] == b[1]:
            return ('w', (), ONE)
        if complementary(a[1], b[1]):
            return 'zero'
    if ka == 'R' and not a[4] and kb == '1' and not b[2]:
        return ('w', (('1', a[3], False),), ONE)
    if ka == '1' and a[2] and kb == 'R' and b[4]:
        return ('w', (('1', b[3], True),), ONE)
    if ka == 'm' and kb == 'm' and a[1] == b[1] and a[2] == b[2] and a[6] != b[6] and a[5] == b[5]:
        return ('w', (), ONE)
    # cholesky: inv(L)' inv(L) = inv(H),  L L' = H
    if ka == 'm' and kb == 'm' and a[1] == b[1] and a[2] == b[2] and isinstance(a[1], tuple) and a[1][0] == 'chol':
        if a[6] and b[6] and a[5] and not b[5]:
            w = inverse_of(a[1][1])
            if len(w.terms) == 1:
                (key, c), = w.terms.items()
                if not key[1] and not key[2]:
                    return ('w', key[0], c)
        if not a[6] and not b[6] and not a[5] and b[5]:
            w = a[1][1]
            if len(w.terms) == 1:
                (key, c), = w.terms.items()
                if not key[1] and not key[2]:
                    return ('w', key[0], c)
    if kb == 'null' and not b[4]:
        w = b[1].single_word()
        if w is not None and w == (a,):
            return 'zero'
        if ka == 'null' and a[4] and a == transpose_letter(b):
            return ('w', (), ONE)
    if ka == 'null' and a[4]:
        w = a[1].single_word()
        if w is not None and transpose_word(w) == (b,):
            return 'zero'
    if ka == 'f' and a[4] and kb == 'E' and not b[4] and isinstance(a[1], tuple) and a[1][0] == 'svdV':
        rk = Poly.atom(('len', 'rank', a[1][1]))
        if b[2] == rk and b[3] == b[1] - rk:
            return ('w', (('null', a[1][1], b[1], b[3], False),), ONE)
    if kb == 'f' and not b[4] and ka == 'E' and a[4] and isinstance(b[1], tuple) and b[1][0] == 'svdV':
        rk = Poly.atom(('len', 'rank', b[1][1]))
        if a[2] == rk and a[3] == a[1] - rk:
            return ('w', (('null', b[1][1], a[1], a[3], True),), ONE)
    # products
    r = merge_products(a, b)
    if r is not None:
        return r
    return None


def complementary(s1, s2):
    for x, y in ((s1, s2), (s2, s1)):
        if isinstance(x, tuple) and x and x[0] == 'compl' and x[1] == y:
            return True
    return False


def merge_products(a, b):
    ka, kb = a[0], b[0]
    if ka == 'PI' and not a[4] and kb == 'PI' and not b[4] and a[1] == b[1] and a[3] == b[2] + 1:
        return ('w', (('PI', a[1], a[2], b[3], False),), ONE)
    if ka == 'PI' and not a[4] and len(a[1]) == 1 and kb != 'PI':
        if (b,) == word_subst(a[1], {PIV: a[3] - 1}):
            return ('w', (('PI', a[1], a[2], a[3] - 1, False),), ONE)
    if kb == 'PI' and not b[4] and len(b[1]) == 1 and ka != 'PI':
        if (a,) == word_subst(b[1], {PIV: b[2] + 1}):
            return ('w', (('PI', b[1], b[2] + 1, b[3], False),), ONE)
    if ka == 'PI' and a[4] and kb == 'PI' and b[4] and a[1] == b[1] and b[3] == a[2] + 1:
        return ('w', (('PI', a[1], b[2], a[3], True),), ONE)
    if ka == 'pow' and kb == 'pow' and a[1] == b[1]:
        return ('w', (('pow', a[1], a[2] + b[2]),), ONE)
    if ka == 'pow' and a[1] == (b,):
        return ('w', (('pow', a[1], a[2] + 1),), ONE)
    if kb == 'pow' and b[1] == (a,):
        return ('w', (('pow', b[1], b[2] + 1),), ONE)
    return None


def reduce_single(l):
    """Simplify one letter: returns None or a word."""
    k = l[0]
    if k == 'E' and l[2] == ZERO and l[1] == l[3]:
        return ()
    if k == 'PI':
        n = l[2] - l[3] + 1
        c = n.as_int()
        if c is not None and c <= 6:
            w = ()
            for j in range(max(c, 0)):
                w = w + word_subst(l[1], {PIV: l[2] - j})
            return transpose_word(w) if l[4] else w
        fv = set()
        for x in l[1]:
            for y in x[1:]:
                _fv_raw(y, fv)
        if PIV not in fv:
            w = (('pow', l[1], n),)
            return transpose_word(w) if l[4] else w
    if k == 'pow':
        c = l[2].as_int()
        if c is not None and 0 <= c <= 6:
            return l[1] * c
    if k == '1' and l[1] == ONE:
        return ()
    return None


def _fv_raw(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'v':
            out.add(x)
        else:
            for y in x:
                _fv_raw(y, out)
    elif isinstance(x, Poly):
        for a in x.atoms():
            _fv_raw(a, out)
    elif hasattr(x, 'free_vars'):
        out |= x.free_vars()


def norm_term(t):
    """Normalise one term; returns a list of Terms (canonical binders)."""
    work = [t.freshen()]
    out = []
    steps = 0
    while work:
        t = work.pop()
        coef, word, binders, guards = t.coef, t.word, t.binders, t.guards
        dead = False
        redo = False
        with _scope(binders):
            # guards
            ng = []
            for g in guards:
                s = CTX.sign_cmp(g)
                if s is True:
                    continue
                if s is False:
                    dead = True
                    break
                ng.append(g)
            if dead:
                continue
            guards = tuple(dict.fromkeys(ng))
            # binders
            for idx, (v, lo, hi) in enumerate(binders):
                n = hi - lo
                if CTX.nonneg(-n):
                    dead = True
                    break
                if n == ONE:
                    t2 = Term(coef, word, binders[:idx] + binders[idx + 1:], guards).subst({v: lo})
                    work.append(t2)
                    redo = True
                    break
            if dead:
                continue
            if redo:
                continue
        with _scope(binders, guards):
            changed = True
            sub = None
            while changed:
                changed = False
                steps += 1
                if steps > 4000:
                    raise Undecided('normalisation did not converge')
                i = 0
                while i < len(word):
                    r = reduce_single(word[i])
                    if r is not None and r != (word[i],):
                        word = word[:i] + r + word[i + 1:]
                        changed = True
                        break
                    i += 1
                if changed:
                    continue
                for i in range(len(word) - 1):
                    r = reduce_pair(word[i], word[i + 1], binders)
                    if r is None:
                        continue
                    if r == 'zero':
                        dead = True
                        break
                    if r[0] == 'w':
                        word = word[:i] + r[1] + word[i + 2:]
                        coef = coef * r[2]
                        changed = True
                        break
                    if r[0] == 'sub':
                        sub = r
                        break
                if dead or sub:
                    break
                if changed:
                    continue
                r = cancel_inverse(word)
                if r is not None:
                    word = r
                    changed = True
        if dead or not coef.t:
            continue
        if sub:
            _, v, e = sub
            nb, ng = [], list(guards)
            for (w, lo, hi) in binders:
                if w == v:
                    ng.append(e - lo)
                    ng.append(hi - 1 - e)
                else:
                    nb.append((w, lo, hi))
            work.append(Term(coef, word, tuple(nb), tuple(ng)).subst({v: e}))
            continue
        # absorb guards in binder ranges
        absorbed = False
        for gi, g in enumerate(guards):
            for bi, (v, lo, hi) in enumerate(binders):
                ab = g.coeff(v)
                if ab is None:
                    continue
                a, b = ab
                if a == ONE and not (b.free_vars() & {x for x, _, _ in binders[bi + 1:]}):
                    # v >= -b
                    with _scope(binders[:bi]):
                        if CTX.nonneg(-b - lo):
                            nb = binders[:bi] + ((v, -b, hi),) + binders[bi + 1:]
                            work.append(Term(coef, word, nb, guards[:gi] + guards[gi + 1:]))
                            absorbed = True
                            break
                if a == P(-1) and not (b.free_vars() & {x for x, _, _ in binders[bi + 1:]}):
                    # v <= b
                    with _scope(binders[:bi]):
                        if CTX.nonneg(hi - b - 1):
                            nb = binders[:bi] + ((v, lo, b + 1),) + binders[bi + 1:]
                            work.append(Term(coef, word, nb, guards[:gi] + guards[gi + 1:]))
                            absorbed = True
                            break
            if absorbed:
                break
        if absorbed:
            continue
        # contraction of summed selections: sum_v E_v E_v' = I
        ct = contract(coef, word, binders, guards)
        if ct is not None:
            work.extend(ct)
            continue
        # unused binders
        used = coef.free_vars()
        for l in word:
            used |= letter_vars(l)
        for g in guards:
            used |= g.free_vars()
        ub = False
        for bi, (v, lo, hi) in enumerate(binders):
            if v in used or any(v in (b[1].free_vars() | b[2].free_vars()) for b in binders):
                continue
            with _scope(binders):
                ok = CTX.nonneg(hi - lo)
            if ok:
                work.append(Term(coef * (hi - lo), word, binders[:bi] + binders[bi + 1:], guards))
                ub = True
                break
        if ub:
            continue
        out.append(canon_term(Term(coef, word, binders, guards)))
    return out


def _unit_end(w, v):
    """Scalar word oriented so that it starts with the selection of row v (v used nowhere else), or None."""
    for x in (w, transpose_word(w)):
        if x and x[0][0] == 'E' and x[0][4] and x[0][3] == ONE and x[0][2] == Poly.atom(v):
            if not any(v in letter_vars(l) for l in x[1:]) and v not in x[0][1].free_vars():
                return x
    return None


def contract(coef, word, binders, guards):
    for bi, (v, lo, hi) in enumerate(binders):
        if any(v in g.free_vars() for g in guards) or any(v in (b[1].free_vars() | b[2].free_vars()) for b in binders):
            continue
        rest = binders[:bi] + binders[bi + 1:]
        pos = [i for i, l in enumerate(word) if v in letter_vars(l)]
        if v not in coef.free_vars():
            if len(pos) == 2 and pos[1] == pos[0] + 1:
                a, b = word[pos[0]], word[pos[1]]
                if a[0] == 'E' and b[0] == 'E' and not a[4] and b[4] and a[1:4] == b[1:4]:
                    with _scope(rest):
                        iv = sorted_intervals([(a[2], a[3], [(v, lo, hi)])], a[1])
                    if iv is not None and len(iv) == 1:
                        o, l = iv[0]
                        e = ('E', a[1], o, l, False)
                        mid = () if (o == ZERO and l == a[1]) else (e, transpose_letter(e))
                        return [Term(coef, word[:pos[0]] + mid + word[pos[1] + 1:], rest, guards)]
            continue
        mons = [(m, c) for m, c in coef.t.items()]
        if len(mons) > 1:
            if any(a[0] == 'sc' and v in Poly.atom(a).free_vars() for m, _ in mons for a, _ in m):
                return [Term(Poly({m: c}), word, binders, guards) for m, c in mons]
            continue
        m, c = mons[0]
        hits, other = [], []
        bad = False
        for a, e in m:
            if v not in Poly.atom(a).free_vars():
                other.append((a, e))
                continue
            w = a[1].single_word() if a[0] == 'sc' else None
            u = _unit_end(w, v) if w is not None else None
            if u is None:
                bad = True
                break
            hits.extend([u] * e)
        if bad:
            continue
        r = Poly({tuple(other): c})
        if len(hits) == 2 and not pos:
            x = Mat.make((), [Term(ONE, transpose_word(hits[0]) + hits[1], ((v, lo, hi),))])
            return [Term(r * scalar_poly(x), word, rest, guards)]
        if len(hits) == 1 and len(pos) == 1:
            l = word[pos[0]]
            if l[0] == 'E' and l[3] == ONE and l[2] == Poly.atom(v):
                if pos[0] == 0 and not l[4]:
                    return [Term(r, (l,) + hits[0] + word[1:], binders, guards)]
                if pos[0] == len(word) - 1 and l[4]:
                    return [Term(r, word[:-1] + transpose_word(hits[0]) + (l,), binders, guards)]
    return None


def unwrap(p):
    """Poly -> (Poly, [(coef, Mat)]): monomials that are one scalar word become words."""
    out, keep = [], {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'sc':
            out.append((P(c), m[0][0][1]))
        else:
            keep[m] = c
    return (Poly(keep), out) if out else (p, out)


def cancel_inverse(word):
    for p, l in enumerate(word):
        if l[0] != 'inv':
            continue
        w = l[1].single_word()
        if w is None:
            continue
        if l[2]:
            w = transpose_word(w)
        n = len(w)
        if word[p + 1:p + 1 + n] == w:
            return word[:p] + word[p + 1 + n:]
        if p >= n and word[p - n:p] == w:
            return word[:p - n] + word[p + 1:]
    return None


def max_hash(x):
    m = 0
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], str):
            if x[1].startswith('#'):
                return int(x[1][1:])
            return 0
        for y in x:
            m = max(m, max_hash(y))
    elif isinstance(x, Poly):
        for a in x.atoms():
            m = max(m, max_hash(a))
    elif hasattr(x, 'max_hash'):
        m = x.max_hash()
    return m


def canon_term(t):
    if not t.binders:
        return Term(t.coef, t.word, (), tuple(sorted(set(t.guards), key=hash)))
    # order of first appearance
    names = [v for v, _, _ in t.binders]
    text = (repr(t.word) + repr(t.coef.key()) + repr(t.guards)) if len(names) > 1 else ''
    def pos(v):
        i = text.find(repr(v[1]))
        j = text.find(v[1])
        c = [x for x in (i, j) if x >= 0]
        return min(c) if c else 10**9
    order = sorted(range(len(names)), key=lambda k: (pos(names[k]), k))
    # keep dependencies: outer binders first when ranges depend on them
    done, seq = set(), []
    rem = list(order)
    while rem:
        for k in rem:
            v, lo, hi = t.binders[k]
            deps = (lo.free_vars() | hi.free_vars()) & set(names) - {v}
            if deps <= done:
                seq.append(k)
                done.add(v)
                rem.remove(k)
                break
        else:
            seq.extend(rem)
            break
    base = max([max_hash(l) for l in t.word] + [max_hash(t.coef)] + [max_hash(g) for g in t.guards] +
               [max(max_hash(lo), max_hash(hi)) for _, lo, hi in t.binders] + [0])
    sub = {}
    for n, k in enumerate(seq):
        sub[names[k]] = Poly.atom(('v', '#%d' % (base + 1 + n)))
    t2 = t.subst(sub)
    nb = []
    for n, k in enumerate(seq):
        _, lo, hi = t2.binders[k]
        nb.append((('v', '#%d' % (base + 1 + n)), lo, hi))
    return Term(t2.coef, t2.word, tuple(nb), tuple(sorted(set(t2.guards), key=hash)))


class Mat(object):
    __slots__ = ('ndim', 'shape', 'terms', '_k', '_h', '_sym', '_fv', '_mh')

    def __init__(self, shape, terms):
        self.shape = tuple(P(s) for s in shape)
        self.ndim = len(self.shape)
        self.terms = terms
        self._k = None
        self._h = None
        self._sym = None
        self._fv = None
        self._mh = None

    # -- construction
    @staticmethod
    def make(shape, terms):
        acc = {}
        nd = len(shape)
        for t in terms:
            for u in norm_term(t):
                w = u.word
                if nd == 0:
                    wt = transpose_word(w)
                    if hash(wt) < hash(w):
                        u = Term(u.coef, wt, u.binders, u.guards)
                        us = norm_term(u)
                    else:
                        us = [u]
                else:
                    us = [u]
                for u in us:
                    k = (u.word, u.binders, u.guards)
                    acc[k] = acc.get(k, ZERO) + u.coef
        acc = {k: c for k, c in acc.items() if c.t}
        if nd == 0 and ((), (), ()) in acc:
            p, ws = unwrap(acc[((), (), ())])
            if ws:
                acc[((), (), ())] = p
                for c, m in ws:
                    for k, x in m.terms.items():
                        acc[k] = acc.get(k, ZERO) + x * c
                acc = {k: c for k, c in acc.items() if c.t}
        acc = merge_ranges(acc)
        return Mat(shape, acc)

    @staticmethod
    def atom(name, shape, idx=()):
        shape = tuple(P(s) for s in shape)
        r = shape[0] if len(shape) > 0 else ONE
        c = shape[1] if len(shape) > 1 else ONE
        return Mat(shape, {((('m', name, tuple(idx), r, c, False, False),), (), ()): ONE})

    @staticmethod
    def fn(fn, shape):
        shape = tuple(P(s) for s in shape)
        r = shape[0] if len(shape) > 0 else ONE
        c = shape[1] if len(shape) > 1 else ONE
        return Mat(shape, {((('f', fn, r, c, False),), (), ()): ONE})

    @staticmethod
    def zeros(shape):
        return Mat(shape, {})

    @staticmethod
    def eye(n):
        return Mat((n, n), {((), (), ()): ONE})

    @staticmethod
    def ones(shape):
        shape = tuple(P(s) for s in shape)
        if len(shape) == 1:
            w = (('1', shape[0], False),)
        elif len(shape) == 2:
            w = (('1', shape[0], False), ('1', shape[1], True))
        else:
            w = ()
        return Mat.make(shape, [Term(ONE, w)])

    @staticmethod
    def scalar(p):
        p = P(p)
        p, ws = unwrap(p)
        if ws:
            return Mat.make((), [Term(p, ())] + [Term(t.coef * c, t.word, t.binders, t.guards)
                                                 for c, m in ws for t in m.term_list()])
        return Mat((), {((), (), ()): p} if p.t else {})

    # -- access
    def key(self):
        if self._k is None:
            self._k = ('mat', self.shape, tuple(sorted(self.terms.items(), key=hash)))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.shape, frozenset(self.terms.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Mat) and self.shape == o.shape and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def max_hash(self):
        if self._mh is None:
            self._mh = self._max_hash()
        return self._mh

    def _max_hash(self):
        m = max([max_hash(s) for s in self.shape] + [0])
        for (w, b, g), c in self.terms.items():
            for v, lo, hi in b:
                m = max(m, max_hash(v), max_hash(lo), max_hash(hi))
            m = max([m, max_hash(c)] + [max_hash(l) for l in w] + [max_hash(x) for x in g])
        return m

    def free_vars(self):
        if self._fv is None:
            self._fv = frozenset(self._free_vars())
        return self._fv

    def _free_vars(self):
        out = set()
        for s in self.shape:
            out |= s.free_vars()
        for (w, b, g), c in self.terms.items():
            o = set(c.free_vars())
            for l in w:
                o |= letter_vars(l)
            for x in g:
                o |= x.free_vars()
            for v, lo, hi in b:
                o |= lo.free_vars() | hi.free_vars()
            out |= o - {v for v, _, _ in b}
        return out

    def subst(self, sub):
        fv = self.free_vars() | {a for a in sub if a[0] != 'v'}
        if not any(k in fv for k in sub):
            return self
        return Mat.make(tuple(s.subst(sub) for s in self.shape), [t.subst(sub) for t in self.term_list()])

    def term_list(self):
        return [Term(c, w, b, g).freshen() for (w, b, g), c in self.terms.items()]

    def single_word(self):
        if len(self.terms) == 1:
            ((w, b, g), c), = self.terms.items()
            if c == ONE and not b and not g:
                return w
        return None

    def is_symmetric(self):
        if self._sym is None:
            self._sym = False
            self._sym = self.ndim == 2 and self.T() == self
        return self._sym

    def unknown(self):
        return contains_top(self)

    # -- arithmetic
    def __neg__(self):
        return Mat(self.shape, {k: -c for k, c in self.terms.items()})

    def __add__(self, o):
        acc = dict(self.terms)
        for k, c in o.terms.items():
            acc[k] = acc.get(k, ZERO) + c
        acc = {k: c for k, c in acc.items() if c.t}
        return Mat(self.shape, merge_ranges(acc))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, p):
        p = P(p)
        if not p.t:
            return Mat(self.shape, {})
        return Mat.make(self.shape, [Term(t.coef * p, t.word, t.binders, t.guards) for t in self.term_list()]) \
            if p.free_vars() else Mat(self.shape, {k: c * p for k, c in self.terms.items()})

    def T(self):
        if self.ndim < 2:
            return self
        return Mat.make((self.shape[1], self.shape[0]),
                        [Term(t.coef, transpose_word(t.word), t.binders, t.guards) for t in self.term_list()])

    def words_mul(self, o, shape):
        ts = []
        for a in self.term_list():
            for b in o.term_list():
                ts.append(Term(a.coef * b.coef, a.word + b.word, a.binders + b.binders, a.guards + b.guards))
        return Mat.make(shape, ts)

    def left(self, letters, shape):
        return Mat.make(shape, [Term(t.coef, tuple(letters) + t.word, t.binders, t.guards) for t in self.term_list()])

    def right(self, letters, shape):
        return Mat.make(shape, [Term(t.coef, t.word + tuple(letters), t.binders, t.guards) for t in self.term_list()])

    def row_slice(self, a, b):
        n = self.shape[0]
        ln = b - a
        sh = (ln,) + self.shape[1:]
        return self.left((('E', n, P(a), P(ln), True),), sh)

    def col_slice(self, a, b):
        n = self.shape[1]
        ln = b - a
        return self.right((('E', n, P(a), P(ln), False),), (self.shape[0], ln))

    def row(self, i):
        """i-th row as a 1-D vector (2-D input) or element (1-D input)."""
        n = self.shape[0]
        if self.ndim == 1:
            return Mat.make((), [Term(t.coef, (('E', n, P(i), ONE, True),) + t.word, t.binders, t.guards)
                                 for t in self.term_list()])
        return Mat.make((self.shape[1],),
                        [Term(t.coef, transpose_word(t.word) + (('E', n, P(i), ONE, False),), t.binders, t.guards)
                         for t in self.term_list()])

    def col(self, j):
        return Mat.make((self.shape[0],),
                        [Term(t.coef, t.word + (('E', self.shape[1], P(j), ONE, False),), t.binders, t.guards)
                         for t in self.term_list()])

    def elem(self, i, j):
        return Mat.make((), [Term(t.coef, (('E', self.shape[0], P(i), ONE, True),) + t.word +
                                  (('E', self.shape[1], P(j), ONE, False),), t.binders, t.guards)
                             for t in self.term_list()])

    def embed(self, tot, off, axis=0):
        if axis == 0:
            n = self.shape[0]
            return self.left((('E', P(tot), P(off), n, False),), (P(tot),) + self.shape[1:])
        n = self.shape[1]
        return self.right((('E', P(tot), P(off), n, True),), (self.shape[0], P(tot)))

    def sum_over(self, v, lo, hi):
        return Mat.make(self.shape, [Term(t.coef, t.word, ((v, P(lo), P(hi)),) + t.binders, t.guards)
                                     for t in self.term_list()])

    def __repr__(self):
        return show(self)


def merge_ranges(acc):
    """Join sums over adjacent ranges and single terms at the ends of a range."""
    if not any(k[1] for k in acc):
        return acc
    for _ in range(50):
        if not merge_once(acc):
            break
    return acc


def put(acc, t):
    for u in norm_term(t):
        k = (u.word, u.binders, u.guards)
        acc[k] = acc.get(k, ZERO) + u.coef
        if not acc[k].t:
            del acc[k]


def merge_once(acc):
    bodies, lens, lastlen = {}, {}, 0
    for k in acc:
        bodies.setdefault((k[0], k[2], len(k[1])), []).append(k)
        n = lens.setdefault(len(k[1]), set())
        n.add(len(k[0]))
    for (w, b, g), c in list(acc.items()):
        if not b:
            continue
        same = [k for k in bodies[(w, g, len(b))] if k[1] != b]
        less = lens.get(len(b) - 1)
        less = less and min(less) <= len(w) + 1
        if not same and not less:
            continue
        for bi in range(len(b)):
            v, lo, hi = b[bi]
            if same and not any(v in (x[1].free_vars() | x[2].free_vars()) for x in b):
                for k in same:
                    b2 = k[1]
                    if b2[bi][0] != v or b2[:bi] != b[:bi] or b2[bi + 1:] != b[bi + 1:]:
                        continue
                    c2 = acc[k]
                    lo2, hi2 = b2[bi][1], b2[bi][2]
                    # same body, adjacent range
                    if hi == lo2 and c2 == c:
                        del acc[(w, b, g)], acc[k]
                        nk = (w, b[:bi] + ((v, lo, hi2),) + b[bi + 1:], g)
                        acc[nk] = acc.get(nk, ZERO) + c
                        return True
                    # opposite sign, sharing an end
                    if c2 == -c:
                        nb = None
                        if lo == lo2:
                            if CTX.nonneg(hi - hi2):
                                nb = (v, hi2, hi)
                        elif hi == hi2:
                            if CTX.nonneg(lo2 - lo):
                                nb = (v, lo, lo2)
                        if nb is not None:
                            del acc[(w, b, g)], acc[k]
                            put(acc, Term(c, w, b[:bi] + (nb,) + b[bi + 1:], g))
                            return True
            if less:
                # a single term at an end of the range
                others = b[:bi] + b[bi + 1:]
                for e, nb, sgn in ((hi, (v, lo, hi + 1), 1), (lo - 1, (v, lo - 1, hi), 1),
                                   (hi - 1, (v, lo, hi - 1), -1), (lo, (v, lo + 1, hi), -1)):
                    us = norm_term(Term(c, w, others, g).subst({v: e}))
                    if len(us) != 1:
                        continue
                    k = (us[0].word, us[0].binders, us[0].guards)
                    if k not in acc or len(k[1]) != len(b) - 1 or len(k[0]) > len(w) + 1 or us[0].coef != acc[k] * sgn:
                        continue
                    if not CTX.nonneg(hi - lo - (1 if sgn == -1 else 0)):
                        continue
                    del acc[(w, b, g)], acc[k]
                    put(acc, Term(c, w, b[:bi] + (nb,) + b[bi + 1:], g))
                    return True
    return False


# ---------------------------------------------------------------- operations on arrays
def dot(a, b):
    """numpy dot of two Mats (ndim 0..2). Raises ValueError on impossible ranks."""
    if a.ndim == 0 or b.ndim == 0:
        return mul_scalar(a, b) if a.ndim == 0 else mul_scalar(b, a)
    if a.ndim == 2 and b.ndim == 2:
        return a.words_mul(b, (a.shape[0], b.shape[1]))
    if a.ndim == 2 and b.ndim == 1:
        return a.words_mul(b, (a.shape[0],))
    if a.ndim == 1 and b.ndim == 2:
        return b.T().words_mul(a, (b.shape[1],))
    at = Mat.make((ONE, a.shape[0]), [Term(t.coef, transpose_word(t.word), t.binders, t.guards) for t in a.term_list()])
    return at.words_mul(b, ())


def scalar_poly(s):
    """Poly of a 0-dim Mat; words become scalar atoms."""
    if isinstance(s, Poly):
        return s
    r = ZERO
    simple = True
    for (w, b, g), c in s.terms.items():
        if w == () and not b and not g:
            r = r + c
        else:
            simple = False
    if simple:
        return r
    if len(s.terms) == 1:
        ((w, b, g), c), = s.terms.items()
        if not b and not g:
            return c * Poly.atom(('sc', Mat((), {(w, (), ()): ONE})))
    return Poly.atom(('sc', s))


def mul_scalar(s, m):
    if m.ndim == 0:
        ps, pm = scalar_poly(s), scalar_poly(m)
        if s.terms.keys() <= {((), (), ())}:
            return m.scale(ps)
        if m.terms.keys() <= {((), (), ())}:
            return s.scale(pm)
        return Mat.scalar(ps * pm)
    return m.scale(scalar_poly(s))


def inverse_of(m):
    w = m.single_word()
    if m.ndim == 2 and len(m.terms) == 1:
        ((w, b, g), c), = m.terms.items()
        if not b and not g:
            if c.const() is not None and c.const() != 0:
                f = P(Fraction(1) / c.const())
            else:
                f = Poly.atom(('recip', c))
            if all(l[0] == 'm' and l[3] == l[4] for l in w):
                nw = tuple(l[:6] + (not l[6],) for l in reversed(w))
                return Mat.make(m.shape, [Term(f, nw)])
            if len(w) == 1 and w[0][0] == 'inv':
                return w[0][1] if not w[0][2] else w[0][1].T()
            base = Mat(m.shape, {(w, (), ()): ONE})
            return Mat.make(m.shape, [Term(f, (('inv', base, False),))])
    return Mat.make(m.shape, [Term(ONE, (('inv', m, False),))])


def product_family(elem, v, count, first):
    """elem(first) elem(first+1) ... `count` factors, elem a Mat depending on index var v (0-based)."""
    w = elem.single_word()
    if w is None:
        return None
    # find the direction in which the index of the letter moves
    shift = None
    for l in w:
        for x in l[1:]:
            for p in _polys(x):
                ab = p.coeff(v)
                if ab is not None and ab[0].const() in (1, -1):
                    shift = (int(ab[0].const()), ab[1])
                    break
            if shift:
                break
        if shift:
            break
    if shift is None:
        if v in elem.free_vars():
            return None
        return Mat.make(elem.shape, [Term(ONE, (('pow', w, P(count)),))])
    s, c = shift
    # index u = s*v + c ;  v = s*(u - c)
    body = word_subst(w, {v: (Poly.atom(PIV) - c) * s})
    fv = set()
    for l in body:
        fv |= letter_vars(l)
    if fv & c.free_vars() - {PIV}:
        pass
    if s == -1:
        hi = c
        lo = c - count + 1
        return Mat.make(elem.shape, [Term(ONE, (('PI', body, hi, lo, False),))])
    # ascending product: transpose of a descending product of transposed letters
    hi = c + count - 1
    lo = c
    return Mat.make(elem.shape, [Term(ONE, (('PI', transpose_word(body), hi, lo, True),))])


def _polys(x):
    if isinstance(x, Poly):
        yield x
        for a in x.atoms():
            for p in _polys(a):
                yield p
    elif isinstance(x, tuple):
        for y in x:
            for p in _polys(y):
                yield p


# ---------------------------------------------------------------- comparison
EQUAL, DIFFERENT, UNKNOWN = 'EQUAL', 'DIFFERENT', 'UNKNOWN'


def undecided_term(w, b, g):
    """True when the word still holds adjacent letters whose product is not in normal form."""
    for l in w:
        if is_unknown_letter(l):
            return True
    for x, y in zip(w, w[1:]):
        if x[0] == 'E' and x[4] and y[0] == 'E' and not y[4]:
            return True
        if x[0] == 'R' and not x[4] and y[0] in ('E', 'R') and (y[0] == 'E' and not y[4] or y[0] == 'R' and y[4]):
            return True
        if x[0] == 'E' and x[4] and y[0] == 'R' and y[4]:
            return True
        if x[0] == 'PI' and y[0] in ('PI', 'm') or y[0] == 'PI' and x[0] == 'm':
            if x[0] == 'PI' and y[0] == 'PI':
                if x[4] == y[4] and x[1] == y[1]:
                    return True
    return False


def compare(X, Y, depth=0):
    """Three-valued equality of two Mats for all values of their atoms."""
    if isinstance(X, Poly) and isinstance(Y, Poly):
        z = CTX.is_zero(X - Y)
        if z is True:
            return EQUAL
        if contains_top(X) or contains_top(Y):
            return UNKNOWN
        return DIFFERENT
    if isinstance(X, Poly):
        X = Mat.scalar(X)
    if isinstance(Y, Poly):
        Y = Mat.scalar(Y)
    if X.ndim != Y.ndim:
        return DIFFERENT
    for a, b in zip(X.shape, Y.shape):
        if CTX.is_zero(a - b) is not True:
            if contains_top(a) or contains_top(b):
                return UNKNOWN
            if not X.terms and not Y.terms:
                return DIFFERENT
            return DIFFERENT
    try:
        return zero_test(X - Y)
    except Undecided:
        return UNKNOWN


def zero_test(Dm, depth=0):
    if not Dm.terms:
        return EQUAL
    if Dm.unknown():
        return UNKNOWN
    # split on undecided guards
    for (w, b, g), c in Dm.terms.items():
        bound = {v for v, _, _ in b}
        for x in g:
            if not (x.free_vars() & bound) and depth < 6:
                res = []
                for h in (x, -x - 1):
                    with assuming(hyps=[h]):
                        if CTX.sign_cmp(P(-1)) is True or inconsistent():
                            continue
                        res.append(zero_test(Mat.make(Dm.shape, Dm.term_list()), depth + 1))
                if DIFFERENT in res:
                    return DIFFERENT
                if UNKNOWN in res or not res:
                    return UNKNOWN
                return EQUAL
    # refinement: restrict to the row/column blocks that occur
    if Dm.ndim >= 1 and depth < 8:
        for side in ((0, 1) if Dm.ndim == 2 else (0,)):
            cuts = set()
            whole = False
            for (w, b, g), c in Dm.terms.items():
                l = (w[0] if side == 0 else w[-1]) if w else None
                if l is not None and l[0] == 'E' and l[4] == (side == 1):
                    cuts.add((l[2], l[3], b))
                else:
                    whole = True
            if cuts and (whole or len(cuts) > 1):
                return refine(Dm, side, cuts, depth)
    und = False
    for (w, b, g), c in Dm.terms.items():
        if undecided_term(w, b, g) or g:
            und = True
    if und:
        return UNKNOWN
    return DIFFERENT


def inconsistent():
    # a hypothesis and the negation of another
    for h in CTX.hyps:
        if CTX._base(-h - 1):
            return True
        for k in CTX.hyps:
            if CTX._base(-h - k - 1):
                return True
    return False


def refine(Dm, side, cuts, depth):
    """Multiply by the selections of the blocks and of the gaps between them."""
    n = Dm.shape[side]
    blocks = []
    for off, ln, binders in cuts:
        vs = [x for x in binders if x[0] in off.free_vars() | ln.free_vars()]
        blocks.append((off, ln, vs))
    # order fixed blocks to find gaps
    results = []
    covered = []
    for off, ln, vs in blocks:
        sub, ranges = {}, {}
        for v, lo, hi in vs:
            g = fresh('g')
            ranges[g] = (lo.subst(sub), hi.subst(sub))
            sub[v] = Poly.atom(g)
        o, l = off.subst(sub), ln.subst(sub)
        # dependencies between ranges of binders not in vs are ignored (they are not free here)
        with assuming(ranges):
            if side == 0:
                B = Dm.row_slice(o, o + l)
            else:
                B = Dm.col_slice(o, o + l)
            results.append(zero_test(B, depth + 1))
    if DIFFERENT in results:
        return DIFFERENT
    if UNKNOWN in results:
        return UNKNOWN
    # gaps: total length of the (merged) blocks
    fixed = sorted_intervals(blocks, n)
    if fixed is None:
        return UNKNOWN
    pos = ZERO
    for o, l in fixed + [(n, ZERO)]:
        gap = o - pos
        z = CTX.is_zero(gap)
        if z is not True:
            B = Dm.row_slice(pos, o) if side == 0 else Dm.col_slice(pos, o)
            results.append(zero_test(B, depth + 1))
        pos = o + l
    if DIFFERENT in results:
        return DIFFERENT
    if UNKNOWN in results:
        return UNKNOWN
    return EQUAL


def sorted_intervals(blocks, n):
    """Blocks as a sorted list of disjoint fixed intervals (families collapsed), or None."""
    iv = []
    for off, ln, vs in blocks:
        o, l = off, ln
        ok = True
        for v, lo, hi in reversed(vs):
            ab = o.coeff(v)
            if ab is not None and ab[0] == l and v not in l.free_vars():
                o = ab[1] + ab[0] * lo
                l = l * (hi - lo)
                continue
            done = False
            for a in o.atoms():
                if a[0] == 'ps' and a[2] == Poly.atom(v) and l == a[1].subst({PL.PSV: Poly.atom(v)}):
                    base = o - Poly.atom(a)
                    o = base + PL.prefix_sum(a[1], lo)
                    l = PL.prefix_sum(a[1], hi) - PL.prefix_sum(a[1], lo)
                    done = True
                    break
            if not done:
                ok = False
        if not ok:
            return None
        iv.append((o, l))
    iv = list(dict.fromkeys(iv))
    out = []
    while iv:
        for x in iv:
            if all(x is y or CTX.nonneg(y[0] - x[0]) for y in iv):
                break
        else:
            return None
        iv.remove(x)
        if out:
            e = out[-1][0] + out[-1][1]
            if CTX.nonneg(e - x[0] - x[1]):
                continue
            if not CTX.nonneg(x[0] - e):
                if CTX.nonneg(e - x[0]):
                    out.append((e, x[0] + x[1] - e))
                    continue
                return None
        out.append(x)
    return out


# ---------------------------------------------------------------- printing
def show_letter(l):
    k = l[0]
    if k == 'm':
        s = l[1] if isinstance(l[1], str) else '%s' % (shorten(l[1]),)
        if l[2]:
            s += '[' + ','.join(repr(x) for x in l[2]) + ']'
        if l[6]:
            s += '^-1'
        if l[5]:
            s += "'"
        return s
    if k == 'E':
        return ('sel' if l[4] else 'emb') + '(%r:+%r)' % (l[2], l[3])
    if k == 'R':
        return 'rows<%s>' % shorten(l[1]) + ("'" if l[4] else '')
    if k == '1':
        return '1(%r)' % l[1] + ("'" if l[2] else '')
    if k == 'PI':
        return 'prod[%s | %r..%r]' % (show_word(l[1]), l[2], l[3]) + ("'" if l[4] else '')
    if k == 'pow':
        return '(%s)^(%r)' % (show_word(l[1]), l[2])
    if k == 'inv':
        return 'inv(%s)' % show(l[1]) + ("'" if l[2] else '')
    if k == 'null':
        return 'null(%s)' % show(l[1]) + ("'" if l[4] else '')
    if k == 'f':
        return shorten(l[1]) + ("'" if l[4] else '')
    return repr(l)


def shorten(x, n=160):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('v',):
        s = '%s(%s)' % (x[0], ', '.join(shorten(y, n) for y in x[1:]))
    elif isinstance(x, tuple):
        s = '(%s)' % ', '.join(shorten(y, n) for y in x)
    else:
        s = repr(x)
    return s if len(s) < n else s[:n] + '...'


def show_word(w):
    return '.'.join(show_letter(l) for l in w) if w else 'I'


def show(m):
    if not m.terms:
        return '0'
    out = []
    for (w, b, g), c in sorted(m.terms.items(), key=repr):
        s = show_word(w)
        if c != ONE:
            s = '%r*%s' % (c, s) if w else repr(c)
        for v, lo, hi in reversed(b):
            s = 'sum_{%s=%r..%r} ' % (v[1], lo, hi - 1) + s
        if g:
            s += ' [' + ','.join('%r>=0' % x for x in g) + ']'
        out.append(s)
    return ' + '.join(out)
