"""Summaries of loops: closed forms of the recurrences carried from one iteration to the next.

The body is analysed with a symbolic iteration index k.  Every name or cell changed by the body gets a symbolic
value at the start of iteration k; the value at its end gives a recurrence, which is solved (last value, counter,
sum, growth by concatenation, product, affine recurrence, disjoint block stores, list growth) or left unknown.
Solutions are checked by induction (value at the end of iteration k equals the closed form at k + 1).
"""
import itertools
from fractions import Fraction
from . import poly as PL
from .poly import Poly, P, ZERO, ONE, CTX, assuming, fresh, prefix_sum, PSV, tuple_subst
from . import alg
from .alg import Mat, Term, transpose_word, letter_vars
from .vals import *
from .npmodel import gmat, push, scal

VV = (Val, Poly, Mat)
_cid = itertools.count(1)
MAXROUNDS = 12


class LoopRun(object):
    def __init__(self):
        self.end = None
        self.breaks = []
        self.exits = []
        self.raises = []


# ---------------------------------------------------------------- markers
def markers(x, out, seen=None):
    """Ids of the carry symbols occurring in x."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'carry' and isinstance(x[1], int):
            out.add(x[1])
            return
        for y in x:
            markers(y, out)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                markers(a, out)
    elif isinstance(x, Mat):
        for (w, b, g) in x.terms:
            markers(w, out)
            markers(b, out)
            markers(g, out)
        for c in x.terms.values():
            markers(c, out)
        for s in x.shape:
            markers(s, out)
    elif isinstance(x, Val):
        markers(x.key(), out)
    elif isinstance(x, frozenset):
        pass


def marks(x):
    s = set()
    markers(x, s)
    return s


def has_top(x):
    if isinstance(x, tuple):
        if x and x[0] == 'TOP':
            return True
        return any(has_top(y) for y in x)
    if isinstance(x, Poly):
        return any(has_top(a) for m in x.t for a, _ in m)
    if isinstance(x, Mat):
        return any(has_top(k) for k in x.terms) or any(has_top(c) for c in x.terms.values()) or any(has_top(s) for s in x.shape)
    if isinstance(x, Val):
        return has_top(x.key())
    if isinstance(x, str):
        return x.startswith('TOP')
    return False


# ---------------------------------------------------------------- running the body
def run_once(I, start, seg, k, bindf, body, keep):
    """One analysis of the body from `start`; events are discarded unless keep."""
    fr = I.frames[-1]
    marks0 = (len(I.events), len(I.unknowns), len(fr.exits), [len(s) for s in I.sinks], len(I.loop_log))
    origin0 = dict(I.origin) if not keep else None
    from .interp import DeadPath, DeadBreak
    r = LoopRun()
    I.set_state(start.copy())
    v = seg.val.subst({seg.var: Poly.atom(k)})
    c = seg.cond.subst({seg.var: Poly.atom(k)})
    CTX.ranges[k] = (ZERO, seg.n)
    try:
        def go():
            try:
                r.breaks.extend(I.once(I.thaw(v), bindf, body))
            except DeadBreak as e:
                r.breaks.extend(e.breaks)
                raise DeadPath()
            return None
        try:
            if c.is_true():
                go()
            else:
                I.split(c, go, lambda: None)
            r.end = I.st
        except DeadPath:
            pass
    finally:
        r.exits = fr.exits[marks0[2]:]
        del fr.exits[marks0[2]:]
        r.raises = []
        for s, n in zip(I.sinks, marks0[3]):
            r.raises.append(s[n:])
            del s[n:]
        if not keep:
            del I.events[marks0[0]:]
            del I.unknowns[marks0[1]:]
            del I.loop_log[marks0[4]:]
            I.origin = origin0
    return r


# ---------------------------------------------------------------- slots
class Leaf(object):
    """A scalar position of a changed name or cell: f0 at loop entry, closed form in the iteration index."""

    def __init__(self, f0):
        self.f0 = f0
        self.id = next(_cid)
        self.state = 'carry'          # carry / closed / top
        self.closed = None            # Poly -> frozen value
        self.shape = None             # Poly -> shape, for arrays
        self.mode = 0                 # lists: 0 guess growth, 1 element recurrence
        self.how = ''


class Slot(object):
    """A name ('env', name) or a cell ('cell', id) changed by the loop; tree of leaves."""

    def __init__(self, key, f0, e):
        self.key = key
        self.tree = mktree(f0, e)

    def leaves(self):
        return list(tree_leaves(self.tree))


def mktree(f0, e):
    if isinstance(f0, FObj) and isinstance(e, FObj) and f0.ci is e.ci:
        d0, d1 = dict(f0.items), dict(e.items)
        return ['obj', f0.ci, {k: mktree(d0.get(k, UNDEF), d1.get(k, UNDEF)) for k in sorted(set(d0) | set(d1))}, f0.org]
    if isinstance(f0, FDict) and isinstance(e, FDict) and not f0.open and not e.open:
        d0, d1 = dict(f0.items), dict(e.items)
        return ['dict', None, {k: mktree(d0.get(k, UNDEF), d1.get(k, UNDEF)) for k in list(d0) + [x for x in d1 if x not in d0]}, f0.org]
    if isinstance(f0, Tup) and isinstance(e, Tup) and len(f0.items) == len(e.items):
        return ['tup', None, {i: mktree(a, b) for i, (a, b) in enumerate(zip(f0.items, e.items))}, None]
    if f0 is e or (isinstance(f0, Val) and isinstance(e, Val) and f0 == e) or \
            (isinstance(f0, (Poly, Mat)) and f0 == e):
        return ['const', f0]
    return ['leaf', Leaf(f0)]


def tree_leaves(t):
    if t[0] == 'leaf':
        yield t[1]
    elif t[0] in ('obj', 'dict', 'tup'):
        for x in t[2].values():
            for l in tree_leaves(x):
                yield l


def tree_build(t, f):
    if t[0] == 'const':
        return t[1]
    if t[0] == 'leaf':
        return f(t[1])
    if t[0] == 'obj':
        return FObj(t[1], tuple(sorted((k, tree_build(x, f)) for k, x in t[2].items())), t[3])
    if t[0] == 'dict':
        return FDict(tuple((k, tree_build(x, f)) for k, x in t[2].items()), False, t[3])
    return Tup(tree_build(t[2][i], f) for i in range(len(t[2])))


def tree_match(t, e):
    """Pairs (leaf, value) of e along the tree; None when the structure or a constant changed."""
    if t[0] == 'leaf':
        return [(t[1], e)]
    if t[0] == 'const':
        return [] if (t[1] is e or t[1] == e) else None
    if t[0] == 'obj':
        if not isinstance(e, FObj):
            return None
        d = dict(e.items)
    elif t[0] == 'dict':
        if not isinstance(e, FDict) or e.open:
            return None
        d = dict(e.items)
    else:
        if not isinstance(e, Tup) or len(e.items) != len(t[2]):
            return None
        d = dict(enumerate(e.items))
    if set(d) - set(t[2]):
        return None
    out = []
    for k, x in t[2].items():
        r = tree_match(x, d.get(k, UNDEF))
        if r is None:
            return None
        out.extend(r)
    return out


def slot_val(I, st, key):
    if key[0] == 'env':
        v = st.env.get(key[1], UNDEF)
        if isinstance(v, tuple):
            return v
        return I.freeze(v) if not isinstance(v, (Func,)) else v
    c = st.heap.get(key[1])
    if c is None:
        return UNDEF
    if isinstance(c, ListC) and c.segs is None:
        t = FList(None, c.kind)
        t.note = c.note
        return t
    return I.freeze_content(c, (key[1],), key[1])


def shallow_same(a, b):
    return a is b


def changed_slots(I, st0, st1):
    """Keys of names and cells whose value differs between st0 and st1."""
    out = []
    for n in set(st0.env) | set(st1.env):
        a, b = st0.env.get(n, UNDEF), st1.env.get(n, UNDEF)
        if a is b or isinstance(a, dict) or isinstance(b, dict):
            continue
        if isinstance(a, Val) and isinstance(b, Val) and a == b:
            continue
        out.append(('env', n))
    for i, c in st0.heap.items():
        d = st1.heap.get(i)
        if d is c or d is None:
            continue
        if same_content(c, d):
            continue
        out.append(('cell', i))
    return out


def same_content(c, d):
    if type(c) is not type(d):
        return False
    if isinstance(c, ArrC):
        return c.val == d.val
    if isinstance(c, ListC):
        return c.segs == d.segs and c.segs is not None
    if isinstance(c, DictC):
        return c.d == d.d and c.open == d.open
    if isinstance(c, ObjC):
        return c.f == d.f
    return False


def install(I, st, key, f):
    """Set the slot to the frozen value f in state st (which must be current)."""
    if key[0] == 'env':
        st.env[key[1]] = I.thaw(f)
        return
    i = key[1]
    old = st.heap.get(i)
    if isinstance(f, FArr):
        st.heap[i] = ArrC(f.val, old.st if isinstance(old, ArrC) else f.st)
    elif isinstance(f, FList):
        if f.segs is None:
            st.heap[i] = ListC(None, f.kind, getattr(f, 'note', None))
        else:
            r = I.thaw(FList(f.segs, f.kind))
            st.heap[i] = st.heap.pop(r.id)
    elif isinstance(f, FDict):
        st.heap[i] = DictC({k: I.thaw(v) for k, v in f.items}, f.open)
    elif isinstance(f, FObj):
        st.heap[i] = ObjC(f.ci, {k: I.thaw(v) for k, v in f.items})
    elif isinstance(f, Gamma):
        # representable as a gamma of contents only for arrays
        from .interp import GamC
        a = contents(I, st, i, f.a)
        b = contents(I, st, i, f.b)
        if a is not None and b is not None:
            if isinstance(a, ArrC) and isinstance(b, ArrC):
                st.heap[i] = ArrC(gamma(f.c, a.val, b.val), a.st | b.st)
            else:
                st.heap[i] = GamC(f.c, a, b)
        else:
            havoc_cell(I, st, i)
    else:
        havoc_cell(I, st, i)


def contents(I, st, i, f):
    old = st.heap.get(i)
    install(I, st, ('cell', i), f)
    r = st.heap.get(i)
    st.heap[i] = old
    return r


def havoc_cell(I, st, i):
    c = st.heap.get(i)
    from .interp import GamC
    if isinstance(c, ArrC):
        st.heap[i] = ArrC(Top('loop'), c.st)
    elif isinstance(c, ListC):
        st.heap[i] = ListC(None, c.kind)
    elif isinstance(c, DictC):
        st.heap[i] = DictC({k: Top('loop') for k in c.d}, True)
    elif isinstance(c, ObjC):
        st.heap[i] = ObjC(c.ci, {k: Top('loop') for k in c.f})
    elif isinstance(c, GamC):
        st.heap[i] = ListC(None)


# ---------------------------------------------------------------- start values
def is_real_scalar(v):
    return isinstance(v, Mat) and v.ndim == 0 or isinstance(v, Poly)


def mat_of(f):
    if isinstance(f, FArr):
        return f.val if isinstance(f.val, Mat) else None
    if isinstance(f, Mat):
        return f
    if isinstance(f, Poly):
        return Mat.scalar(f)
    return None


def wrap(leaf, m, st=None):
    """Frozen value of the leaf's kind from a Mat."""
    if m.ndim == 0:
        return scal(m)
    return FArr(m, st if st is not None else (leaf.f0.st if isinstance(leaf.f0, FArr) else frozenset()))


def carry_value(leaf, k):
    f0 = leaf.f0
    name = ('carry', leaf.id)
    if leaf.state == 'closed':
        return leaf.closed(Poly.atom(k))
    if leaf.state == 'top':
        if isinstance(f0, FList):
            return FList(None, f0.kind)
        return Top('loop')
    if isinstance(f0, Poly) and is_int(f0) and leaf.mode != 2:
        return Poly.atom(('int', name))
    m = mat_of(f0)
    if m is not None:
        sh = leaf.shape(Poly.atom(k)) if leaf.shape is not None else m.shape
        return wrap(leaf, Mat.atom(name, sh, (Poly.atom(k),)), leaf.f0.st if isinstance(f0, FArr) else None)
    if isinstance(f0, Cond):
        return Cond(('carryc', name))
    if isinstance(f0, FList):
        if leaf.mode == 1:
            x = leaf.x0
            j = fresh('j')
            CTX.ranges[j] = (ZERO, Poly.atom(k) + 1)
            e = Mat.atom(name, x.shape, (Poly.atom(j),))
            v = FArr(e, frozenset()) if x.ndim else scal(e)
            return FList((canon_rep(Poly.atom(k) + 1, j, v),), f0.kind, f0.org)
        return f0
    if f0 is UNDEF or f0 == UNDEF:
        return UNDEF
    if f0 == NONE:
        return Opq('nullable', name)
    return Opq('carryv', name)


# ---------------------------------------------------------------- solving one leaf
def shift(v, k, e):
    return v.subst({k: P(e)})


def lastval(leaf, e, k):
    f0 = leaf.f0

    def closed(x):
        prev = shift(e, k, x - 1)
        if f0 is UNDEF or f0 == UNDEF:
            return prev
        return gamma(ieq(x), f0, prev)
    return closed


def solve_leaf(I, leaf, e, k):
    """Try to find the closed form of the leaf from its value e at the end of iteration k."""
    f0 = leaf.f0
    ms = marks(e) if isinstance(e, (Val, Poly, Mat)) else set()
    own = leaf.id in ms
    if ms - {leaf.id}:
        return None                    # depends on other unsolved leaves
    if has_top(e):
        if isinstance(f0, FList) and list_retry(leaf):
            return 'retry'
        leaf.state = 'top'
        return True
    if isinstance(f0, Poly) and is_int(f0) and leaf.mode != 2 and own and not (isinstance(e, Poly) and is_int(e)):
        leaf.mode = 2
        return False
    if isinstance(f0, FList):
        return solve_list(I, leaf, e, k)
    if not own:
        if isinstance(e, FList) and e.segs is None:
            leaf.state = 'top'
            return True
        leaf.closed = lastval(leaf, e, k)
        leaf.state, leaf.how = 'closed', 'last value'
        # arrays whose value becomes shape-varying are fine: templates carry their shapes
        return True
    if isinstance(f0, Poly) and isinstance(e, Poly) and is_int(f0) and leaf.mode != 2:
        c = Poly.atom(('int', ('carry', leaf.id)))
        d = e - c
        if leaf.id not in marks(d) and is_int(d):
            body = d.subst({k: Poly.atom(PSV)})
            leaf.closed = lambda x: f0 + prefix_sum(body, x)
            leaf.state, leaf.how = 'closed', 'counter'
            return True
        leaf.mode = 2
        return False
    m0 = mat_of(f0)
    em = gmat(e) if isinstance(e, (FArr, Mat, Poly, Gamma)) else None
    if m0 is not None and em is not None:
        f = solve_mat(leaf, m0, em, k)
        if f is not None:
            leaf.closed = lambda x: wrap(leaf, f(P(x)))
            leaf.state = 'closed'
            leaf.verify = False           # exact by construction
            return True
    if isinstance(e, Gamma):
        # flag: set to a constant under a condition free of the carry, otherwise kept
        cv = carry_value(leaf, k)
        for c, a, b in ((e.c, e.a, e.b), (cnot(e.c), e.b, e.a)):
            if b == cv and not marks(a) and not marks(c) and k not in a.free_vars():
                def closed(x, c=c, a=a):
                    j = fresh('j')
                    with assuming({j: (ZERO, P(x))}):
                        return gamma(exists(P(x), j, c.subst({k: Poly.atom(j)})), a, f0)
                leaf.closed = closed
                leaf.state, leaf.how = 'closed', 'flag'
                return True
    if isinstance(f0, Cond) and isinstance(e, Cond):
        cc = Cond(('carryc', ('carry', leaf.id)))
        if e.k[0] == 'or' and cc in e.k[1]:
            rest = cor(*[x for x in e.k[1] if x != cc])
            if not marks(rest):
                def closed(x):
                    j = fresh('j')
                    with assuming({j: (ZERO, P(x))}):
                        return cor(f0, exists(P(x), j, rest.subst({k: Poly.atom(j)})))
                leaf.closed, leaf.state, leaf.how = closed, 'closed', 'flag'
                return True
        if e.k[0] == 'and' and cc in e.k[1]:
            rest = cand(*[x for x in e.k[1] if x != cc])
            if not marks(rest):
                def closed2(x):
                    j = fresh('j')
                    with assuming({j: (ZERO, P(x))}):
                        return cand(f0, forall(P(x), j, rest.subst({k: Poly.atom(j)})))
                leaf.closed, leaf.state, leaf.how = closed2, 'closed', 'flag'
                return True
    if m0 is not None and isinstance(e, (FArr, Mat, Poly, Gamma)):
        return rec_form(leaf, m0, e, k)
    leaf.state = 'top'
    return True


def rec_form(leaf, m0, e, k):
    """Opaque recurrence x(0) = m0, x(k+1) = step(x(k), k)."""
    if leaf.shape is not None or not same_shape(e, m0.shape):
        leaf.state = 'top'
        return True
    d = max(max_hash(e), max_hash(m0)) + 1
    kv = ('v', '#%d' % d)
    step = e.subst({k: Poly.atom(kv)})
    step = tuple_subst(step, {('carry', leaf.id): ('prev',)}) if not hasattr(step, 'subst') else step.subst({('carry', leaf.id): ('prev',)})

    def closed(x):
        x = P(x)
        if x == ZERO:
            return leaf.f0
        return wrap(leaf, Mat.fn(('rec', m0, step, x), m0.shape))
    leaf.closed, leaf.state, leaf.how = closed, 'closed', 'recurrence'
    leaf.verify = False
    return True


def same_shape(e, sh):
    if isinstance(e, Gamma):
        return same_shape(e.a, sh) and same_shape(e.b, sh)
    m = mat_of(e)
    return m is not None and m.shape == sh


# ---------------------------------------------------------------- matrix recurrences
def split_carry(em, cid):
    """(list of (term, position of the carry letter), Mat without it) or None when the carry occurs elsewhere."""
    name = ('carry', cid)
    ct, rest = [], []
    for t in em.term_list():
        pos = [i for i, l in enumerate(t.word) if l[0] == 'm' and l[1] == name]
        other = set()
        for i, l in enumerate(t.word):
            if i in pos:
                markers(l[2:], other)
            else:
                markers(l, other)
        markers(t.coef, other)
        markers(t.binders, other)
        markers(t.guards, other)
        if cid in other:
            return None
        if not pos:
            rest.append(t)
        elif len(pos) == 1:
            ct.append((t, pos[0]))
        else:
            return None
    return ct, Mat.make(em.shape, rest)


def solve_mat(leaf, m0, em, k):
    r = split_carry(em, leaf.id)
    if r is None:
        return None
    ct, delta = r
    kp = Poly.atom(k)
    if not ct:
        return None
    for t, p in ct:
        l = t.word[p]
        if l[6] or l[2] != (kp,):
            return None
        if l[5]:
            return None
    plain = [(t, p) for t, p in ct if t.coef == ONE and len(t.word) == 1 and not t.binders and not t.guards]

    def dsum(x):
        if not delta.terms:
            return None
        j = fresh('k')
        return delta.subst({k: Poly.atom(j)}), j

    if em.shape == m0.shape and leaf.shape is None:
        if len(ct) == 1 and plain:
            leaf.how = 'sum'

            def closed(x):
                if not delta.terms:
                    return m0
                d, j = dsum(x)
                return m0 + d.sum_over(j, ZERO, P(x))
            return closed
        if plain and all(is_mask(t, p) for t, p in ct if not (t.coef == ONE and len(t.word) == 1)):
            masks = [(t, p) for t, p in ct if (t, p) not in plain]
            if disjoint_masks(masks, k, leaf):
                leaf.how = 'block stores'

                def closed2(x):
                    ts = []
                    for t, p in masks:
                        for u in m0.term_list():
                            ts.append(Term(t.coef * u.coef, t.word[:p] + u.word + t.word[p + 1:],
                                           t.binders + u.freshen().binders if not u.binders else t.binders,
                                           t.guards + u.guards))
                    if any(u.binders for u in m0.term_list()):
                        mm = Mat.zeros(m0.shape)
                        for t, p in masks:
                            a = Mat.make((m0.shape[0],) * 2 if m0.ndim else (), [Term(t.coef, t.word[:p], t.binders, t.guards)])
                            z = a.words_mul(m0, m0.shape)
                            if t.word[p + 1:]:
                                z = z.right(t.word[p + 1:], m0.shape)
                            mm = mm + z
                    else:
                        mm = Mat.make(m0.shape, ts)
                    j = fresh('k')
                    d = (mm + delta).subst({k: Poly.atom(j)})
                    return m0 + d.sum_over(j, ZERO, P(x))
                return closed2
            return None
        left = all(p == len(t.word) - 1 for t, p in ct)
        right = all(p == 0 for t, p in ct)
        if left and m0.ndim >= 1:
            n = m0.shape[0]
            M = Mat.make((n, n), [Term(t.coef, t.word[:p], t.binders, t.guards) for t, p in ct])
            return affine(leaf, m0, M, delta, k, True)
        if right and m0.ndim == 2:
            n = m0.shape[1]
            M = Mat.make((n, n), [Term(t.coef, t.word[p + 1:], t.binders, t.guards) for t, p in ct])
            return affine(leaf, m0, M, delta, k, False)
        if m0.ndim == 0 and len(ct) == 1 and left and right:
            return None
        return None
    # growth by concatenation
    if leaf.shape is None or len(ct) != 1 or em.shape != leaf.shape(kp + 1):
        return None
    t, p = ct[0]
    if t.coef != ONE or t.binders or t.guards:
        return None
    pre, post = t.word[:p], t.word[p + 1:]
    front = []
    for side, w in ((0, pre), (1, post)):
        if w == ():
            front.append(False)
            continue
        if len(w) != 1 or w[0][0] != 'E':
            return None
        e = w[0]
        if e[2] == ZERO:
            front.append(False)
        elif e[2] == e[1] - e[3]:
            front.append(True)
        else:
            return None
    leaf.how = 'concatenation'

    def place(m, sh_from, sh_to):
        for ax in range(m.ndim):
            a, b = sh_from[ax], sh_to[ax]
            if a == b:
                continue
            off = b - a if front[ax] else ZERO
            m = m.embed(b, off, ax)
        return m

    def closed3(x):
        x = P(x)
        sh = leaf.shape(x)
        res = place(m0, m0.shape, sh)
        if delta.terms:
            j = fresh('k')
            with assuming({j: (ZERO, x)}):
                d = delta.subst({k: Poly.atom(j)})
                d = place(d, leaf.shape(Poly.atom(j) + 1), sh)
            res = res + Mat(sh, d.sum_over(j, ZERO, x).terms)
        return res
    return closed3


def is_mask(t, p):
    if t.coef != P(-1):
        return False
    pre, post = t.word[:p], t.word[p + 1:]
    for w in (pre, post):
        if w == ():
            continue
        if len(w) == 2 and w[0][0] == 'E' and w[1][0] == 'E' and not w[0][4] and w[1][4] and w[0][1:4] == w[1][1:4]:
            continue
        return False
    return bool(pre or post)


def disjoint_masks(masks, k, leaf):
    a, b = fresh('a'), fresh('b')
    lo, hi = CTX.ranges[k]
    for t1, p1 in masks:
        for t2, p2 in masks:
            ok = False
            for s in (0, 1):
                w1 = t1.word[:p1] if s == 0 else t1.word[p1 + 1:]
                w2 = t2.word[:p2] if s == 0 else t2.word[p2 + 1:]
                if not w1 or not w2:
                    continue
                e1, e2 = w1[0], w2[0]
                with assuming({a: (lo, hi), b: (lo, Poly.atom(a))}, [Poly.atom(a) - Poly.atom(b) - 1]):
                    o1, l1 = e1[2].subst({k: Poly.atom(a)}), e1[3].subst({k: Poly.atom(a)})
                    o2, l2 = e2[2].subst({k: Poly.atom(b)}), e2[3].subst({k: Poly.atom(b)})
                    if alg.interval_rel(o1, l1, o2, l2) == 'disjoint':
                        ok = True
                        break
            if not ok:
                return False
    return True


def affine(leaf, m0, M, delta, k, left):
    w = M.single_word()
    if w is None or w == ():
        if k in M.free_vars():
            return None
        M2 = Mat.fn(('paren', M), M.shape)
    else:
        M2 = M
    v = fresh('p')

    def phi(hi, lo):
        """left: M(hi-1) ... M(lo);  right: M(lo) ... M(hi-1)"""
        idx = (hi - 1 - Poly.atom(v)) if left else (lo + Poly.atom(v))
        return alg.product_family(M2.subst({k: idx}), v, hi - lo, ZERO)
    kp = Poly.atom(k)
    if phi(kp, ZERO) is None:
        return None
    leaf.how = 'affine recurrence'

    def mul(F, m):
        return F.words_mul(m, m.shape) if left else m.words_mul(F, m.shape)

    def closed(x):
        x = P(x)
        if x == ZERO:
            return m0
        r = mul(phi(x, ZERO), m0)
        if delta.terms:
            j = fresh('k')
            with assuming({j: (ZERO, x)}):
                d = mul(phi(x, Poly.atom(j) + 1), delta.subst({k: Poly.atom(j)}))
            r = r + d.sum_over(j, ZERO, x)
        return r
    return closed


# ---------------------------------------------------------------- lists
def solve_list(I, leaf, e, k):
    f0 = leaf.f0
    if not isinstance(e, FList) or e.segs is None or f0.segs is None:
        if isinstance(e, FList) and e.segs is None:
            leaf.state = 'top'
            return True
        if not marks(e):
            # rebound to something else each iteration
            leaf.closed = lastval(leaf, e, k)
            leaf.state, leaf.how = 'closed', 'last value'
            return True
        leaf.state = 'top'
        return True
    n0 = len(f0.segs)
    if leaf.mode == 0:
        if e.segs[:n0] != f0.segs or e.kind != f0.kind:
            if k not in e.free_vars() or True:
                # replaced as a whole (not growing): value of the previous iteration, if independent of the old value
                leaf.cand = lastval(leaf, e, k)
                leaf.mode = 3
                leaf.closed = leaf.cand
                leaf.state, leaf.how = 'closed', 'last value'
                leaf.verify_rebind = True
                return True
        extra = e.segs[n0:]
        if not extra:
            leaf.closed = lambda x: f0
            leaf.state, leaf.how = 'closed', 'unchanged'
            return True
        rep = None
        if len(extra) == 1 and extra[0][0] == 'one':
            v = extra[0][1]
            rep = lambda x: canon_rep(P(x), k, v)
        elif len(extra) == 1 and extra[0][0] == 'rep' and extra[0][1] == ONE:
            v, c = extra[0][3].subst({extra[0][2]: ZERO}), extra[0][4].subst({extra[0][2]: ZERO})
            rep = lambda x: canon_rep(P(x), k, v, c)
        if rep is not None and f0.kind != 'set':
            leaf.extra = extra
            leaf.rep = rep

            def closed(x):
                x = P(x)
                if x == ZERO:
                    return f0
                return FList(f0.segs + (rep(x),), f0.kind, f0.org)
            leaf.closed = closed
            leaf.state, leaf.how = 'closed', 'list growth'
            return True
        # several elements per iteration
        note = ('flat', k, FList(extra, 'list'), f0)

        def closed_flat(x):
            r = FList(None, f0.kind)
            r.note = ('flat', P(x), k, FList(extra, 'list'), f0)
            return r
        leaf.closed = closed_flat
        leaf.state, leaf.how = 'closed', 'nested list growth'
        leaf.extra = extra
        return True
    if leaf.mode == 1:
        # elements X(j), start Rep(k+1, j, X(j)); end must add one element f(X(k), k)
        if len(e.segs) == 2 and e.segs[1][0] == 'one' and e.segs[0][0] == 'rep':
            el = e.segs[1][1]
            name = ('carry', leaf.id)
            sub = Leaf(FArr(leaf.x0, frozenset()) if leaf.x0.ndim else scal(leaf.x0))
            sub.id = leaf.id
            r = solve_leaf(I, sub, el, k)
            if r and sub.state == 'closed' and leaf.id not in marks(sub.closed(Poly.atom(k))):
                def closed4(x):
                    j = fresh('j')
                    with assuming({j: (ZERO, P(x) + 1)}):
                        return FList((canon_rep(P(x) + 1, j, sub.closed(Poly.atom(j))),), f0.kind, f0.org)
                leaf.closed = closed4
                leaf.state, leaf.how = 'closed', 'list recurrence (%s)' % sub.how
                leaf.verify = False
                return True
        leaf.state = 'top'
        return True
    leaf.state = 'top'
    return True


def list_retry(leaf):
    """After a failed induction step: try the recurrence on the last element."""
    f0 = leaf.f0
    if leaf.mode == 0 and isinstance(f0, FList) and f0.segs is not None and len(f0.segs) == 1 and f0.segs[0][0] == 'one':
        x = mat_of(f0.segs[0][1])
        if x is not None:
            leaf.mode = 1
            leaf.x0 = x
            leaf.state = 'carry'
            leaf.closed = None
            return True
    return False


def verified(leaf, e, k):
    """Induction step: e (end of iteration k from closed(k)) equals closed(k+1)."""
    if getattr(leaf, 'verify', True) is False:
        return True
    x = Poly.atom(k)
    if isinstance(leaf.f0, FList) and leaf.how in ('list growth', 'nested list growth', 'unchanged'):
        if leaf.how == 'nested list growth':
            return True
        if leaf.how == 'unchanged':
            return e == leaf.f0
        st = leaf.closed(x)
        if not isinstance(e, FList) or e.segs is None:
            return False
        return e.segs[:len(st.segs)] == st.segs and norm_extra(e.segs[len(st.segs):]) == norm_extra(leaf.extra)
    want = leaf.closed(x + 1)
    if e == want:
        return True
    if leaf.how == 'last value':
        return False
    a, b = mat_of(e), mat_of(want)
    if a is None and isinstance(e, Gamma):
        a = gmat(e)
    if a is not None and b is not None:
        try:
            return alg.compare(a, b) == alg.EQUAL
        except alg.Undecided:
            return False
    return False


def norm_extra(segs):
    out = []
    for s in segs:
        if s[0] == 'rep' and s[1] == ONE:
            out.append(('c', s[3].subst({s[2]: ZERO}), s[4].subst({s[2]: ZERO})))
        else:
            out.append(s)
    return tuple(out)


# ---------------------------------------------------------------- the summary
def subst_content(c, sub):
    from .interp import GamC
    if isinstance(c, ArrC):
        return ArrC(c.val.subst(sub), c.st)
    if isinstance(c, ListC):
        if c.segs is None:
            return c
        out = []
        for s in c.segs:
            if isinstance(s, One):
                out.append(One(s.v.subst(sub)))
            else:
                out.append(Rep(s.n.subst(sub), s.var, s.val.subst(sub), s.cond.subst(sub)))
        return ListC(out, c.kind, c.note)
    if isinstance(c, DictC):
        r = DictC({k: v.subst(sub) for k, v in c.d.items()}, c.open)
        return r
    if isinstance(c, ObjC):
        return ObjC(c.ci, {k: v.subst(sub) for k, v in c.f.items()})
    if isinstance(c, GamC):
        return GamC(c.c.subst(sub), subst_content(c.a, sub), subst_content(c.b, sub))
    return c


def subst_val(v, sub):
    return v.subst(sub) if hasattr(v, 'subst') else v


def subst_state(st, sub, keep):
    """State with the iteration index replaced; cells of `keep` (the state at loop entry) unchanged are shared."""
    from .interp import State
    env = {n: (v if n.startswith('$') and not isinstance(v, Ref) else subst_val(v, sub)) for n, v in st.env.items()}
    heap = {}
    for i, c in st.heap.items():
        heap[i] = c if keep.heap.get(i) is c else subst_content(c, sub)
    k0 = set(sub)
    facts = {}
    for c, v in st.facts.items():
        facts[c.subst(sub) if c.free_vars() & k0 else c] = v
    hyps = [h.subst(sub) for h in st.hyps]
    pc = [c.subst(sub) for c in st.pc]
    return State(env, heap, facts, hyps, pc)


def first_index(I, n, k, X):
    """The first k in [0, n) with X(k), given that there is one."""
    if X.k[0] == 'ige':
        p = X.k[1]
        e = Poly.atom(k) - p
        if k not in e.free_vars():
            if CTX.nonneg(e):
                return e
            if CTX.nonneg(-e):
                return ZERO
    if X.k[0] == 'ieq':
        p = X.k[1]
        for s in (1, -1):
            e = Poly.atom(k) - p * s
            if k not in e.free_vars() and CTX.nonneg(e):
                return e
    if X.k[0] == 't' or X.is_true():
        return ZERO
    d = max(max_hash(X.k), max_hash(n)) + 1
    cv = ('v', '#%d' % d)
    a = ('int', ('first', n, cv, X.subst({k: Poly.atom(cv)})))
    CTX.ranges[a] = (ZERO, n)
    return Poly.atom(a)


def solve(I, seg, k, bindf, body, st0):
    """Slots with their closed forms, or None when the body never falls through."""
    r = run_once(I, st0, seg, k, bindf, body, False)
    if r.end is None:
        return None
    slots = {}

    def add(key, end):
        f0 = slot_val(I, st0, key)
        e = slot_val(I, end, key)
        if not isinstance(f0, VV) or not isinstance(e, VV):
            t = ['leaf', Leaf(f0 if isinstance(f0, VV) else Top('loop'))]
            s = Slot.__new__(Slot)
            s.key, s.tree = key, t
            if not isinstance(f0, VV):
                t[1].state = 'top'
        else:
            s = Slot(key, f0, e)
            pr = tree_match(s.tree, e)
            for leaf, v in pr or []:
                a, b = mat_of(leaf.f0), gm(v)
                if a is not None and b is not None and a.ndim == b.ndim and a.shape != b.shape:
                    grow(leaf, a.shape, b.shape, k)
        slots[key] = s

    def grow(leaf, sa, sb, k):
        ds = [(y - x).subst({k: Poly.atom(PSV)}) for x, y in zip(sa, sb)]
        if any(not is_int(d) for d in ds):
            return
        leaf.shape = lambda x: tuple(a + prefix_sum(d, P(x)) for a, d in zip(sa, ds))

    for key in changed_slots(I, st0, r.end):
        add(key, r.end)
    for rnd in range(MAXROUNDS):
        start = st0.copy()
        I.set_state(start)
        for key, s in slots.items():
            install(I, start, key, tree_build(s.tree, lambda l: carry_value(l, k)))
        base = start.copy()
        r = run_once(I, start, seg, k, bindf, body, False)
        if r.end is None:
            # falls through only from the entry state: give up on what changed
            for s in slots.values():
                for l in s.leaves():
                    l.state = 'top'
            break
        change = False
        for key in changed_slots(I, base, r.end):
            if key not in slots:
                if key[0] == 'cell' and key[1] not in st0.heap:
                    continue
                add(key, r.end)
                change = True
        if change:
            continue
        post = []
        retry = False
        for key, s in sorted(slots.items(), key=lambda x: not (x[1].tree[0] == 'leaf' and isinstance(x[1].tree[1].f0, FList))):
            if retry:
                break
            e = slot_val(I, r.end, key)
            pr = tree_match(s.tree, e) if isinstance(e, VV) else None
            if pr is None:
                if s.tree[0] == 'leaf':
                    s.tree[1].state = 'top'
                else:
                    f0 = slot_val(I, st0, key)
                    s.tree = ['leaf', Leaf(f0)]
                change = True
                continue
            for leaf, v in pr:
                if leaf.state == 'top':
                    continue
                if leaf.state == 'closed':
                    if not verified(leaf, v, k):
                        if not list_retry(leaf):
                            leaf.state = 'top'
                            leaf.closed = None
                        change = True
                        for l2 in [l2 for s2 in slots.values() for l2 in s2.leaves()]:
                            if l2.state == 'closed' and getattr(l2, 'verify', True) is False:
                                l2.state, l2.closed = 'carry', None
                        retry = True
                        break
                    continue
                try:
                    q = solve_leaf(I, leaf, v, k)
                except alg.Undecided:
                    leaf.state, q = 'top', True
                if q == 'retry':
                    retry = change = True
                    break
                if q is None:
                    post.append(leaf)
                else:
                    change = True
        if not change:
            if not post:
                break
            for l in post:
                l.state = 'top'
                l.how = 'coupled'
    else:
        for s in slots.values():
            for l in s.leaves():
                if l.state == 'carry':
                    l.state = 'top'
    return slots


def gm(v):
    if isinstance(v, Gamma):
        return None
    return mat_of(v)


def summarise(I, seg, bindf, body, node, infinite=False):
    """Abstract effect of a loop over the segment; returns the states leaving it by break."""
    from .interp import DeadPath, DeadBreak
    n = seg.n
    if CTX.nonneg(-n):
        return []
    st0 = I.st
    fr = I.frames[-1]
    k = fresh('k')
    CTX.ranges[k] = (ZERO, n)
    site = '%s' % I.site
    pc0 = list(st0.pc)
    slots = solve(I, seg, k, bindf, body, st0)
    if slots is None:
        # one iteration at most
        I.set_state(st0)
        out = []

        def go():
            kk = fresh('k')
            sub = {seg.var: ZERO}
            c = seg.cond.subst(sub)
            v = seg.val.subst(sub)

            def it():
                try:
                    out.extend(I.once(I.thaw(v), bindf, body))
                except DeadBreak as e:
                    out.extend(e.breaks)
                    raise DeadPath()
                return None
            return it() if c.is_true() else I.split(c, it, lambda: None)
        try:
            I.split(ige(n - 1), go, lambda: None)
        except DeadPath:
            if out:
                raise DeadBreak(out)
            raise
        return out
    start = st0.copy()
    I.set_state(start)
    for key, s in slots.items():
        install(I, start, key, tree_build(s.tree, lambda l: carry_value(l, k)))
    r = run_once(I, start, seg, k, bindf, body, True)
    I.loop_log.append((site, fr.fi.qual, [(kk, l.state, l.how) for kk, s in slots.items() for l in s.leaves()]))
    npc = len(pc0)

    def suffix(st):
        return cand(*st.pc[npc:])
    conds = [suffix(s) for s, _ in r.breaks] + [suffix(s) for s, _ in r.exits]
    rconds = []
    for evs in r.raises:
        for e in evs:
            rconds.append(cand(*e.pc[npc:]))
    X = cor(*(conds + rconds)) if conds or rconds else FALSE
    outs = []
    if conds or rconds:
        I.set_state(st0.copy())
        exX = exists(n, k, X) if not infinite else TRUE
        kap = first_index(I, n, k, X)
        sub = {k: kap}

        def leave(s):
            s2 = subst_state(s, sub, st0)
            ci = [c for c in s2.pc[npc:]]
            s2.pc = list(pc0)
            I.set_state(s2)
            I.assume(exX)
            for c in ci:
                I.assume(c)
            return s2
        for s, _ in r.breaks:
            try:
                outs.append((leave(s), None))
            except DeadPath:
                pass
        for s, v in r.exits:
            try:
                s2 = leave(s)
            except DeadPath:
                continue
            fr.exits.append((s2, subst_val(v, sub) if v is not None else None))
        for sink, evs in zip(I.sinks, r.raises):
            for e in evs:
                e.pc = pc0 + [exists(n, k, cand(*e.pc[npc:]))]
                e.state = subst_state(e.state, sub, st0)
                e.state.pc = list(e.pc)
                sink.append(e)
    if infinite:
        if not outs:
            raise DeadPath()
        raise DeadBreak(outs)
    fin = st0.copy()
    I.set_state(fin)
    try:
        if not X.is_false():
            I.assume(cnot(exX))
    except DeadPath:
        if outs:
            raise DeadBreak(outs)
        raise
    for key, s in slots.items():
        install(I, fin, key, tree_build(s.tree, lambda l: final_value(l, n)))
    # facts established by every iteration that fell through
    return outs


def final_value(l, n):
    if l.state == 'closed':
        return l.closed(n)
    if isinstance(l.f0, FList):
        return FList(None, l.f0.kind)
    return Top('loop')


INF = Poly.atom(('dim', 'INF'))


def while_loop(I, s):
    from .interp import DeadPath, DeadBreak
    import ast
    brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=list(s.orelse) + [ast.Break()], orelse=[])
    ast.copy_location(brk, s)
    for b in ast.walk(brk):
        if not hasattr(b, 'lineno'):
            ast.copy_location(b, s)
    ast.fix_missing_locations(brk)
    body = [brk] + list(s.body)
    if getattr(I, 'unwind', 0):
        return unwind(I, body)
    seg = Rep(INF, fresh('w'), NONE)
    try:
        outs = summarise(I, seg, lambda v: None, body, s, True)
    except DeadBreak as e:
        outs = e.breaks
    if not outs:
        raise DeadPath()
    if len(outs) == 1:
        I.set_state(outs[0][0])
    else:
        st, _ = I.merge_exits(outs)
        I.set_state(st)


def unwind(I, body):
    """The first I.unwind iterations; paths that go on are marked as not analysed."""
    from .interp import DeadPath, DeadBreak
    outs, live = [], True
    for _ in range(I.unwind):
        try:
            outs += I.once(None, lambda v: None, body)
        except DeadBreak as e:
            outs += e.breaks
            live = False
            break
        except DeadPath:
            live = False
            break
    if live:
        try:
            I.do_raise('?', 'loop bound', True)
        except DeadPath:
            pass
    if not outs:
        raise DeadPath()
    if len(outs) == 1:
        I.set_state(outs[0][0])
    else:
        st, _ = I.merge_exits(outs)
        I.set_state(st)
