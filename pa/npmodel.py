"""Semantics of numpy / scipy / builtins on abstract values."""
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, CTX, fresh, prefix_sum, PSV
from . import alg
from .alg import Mat, Term, transpose_word
from .vals import *
from .vals import _as_scalar_mat

LV = ('v', '@')      # bound variable of index-list selections


class B2(Val):
    """2-D boolean array."""

    def __init__(self, n, m, v, w, c):
        self.n, self.m, self.v, self.w, self.c = P(n), P(m), v, w, c

    def key(self):
        return ('b2', self.n, self.m, self.v, self.w, self.c)

    def subst(self, sub):
        return B2(self.n.subst(sub), self.m.subst(sub), self.v, self.w, self.c.subst(sub))


def recip(p):
    c = p.const()
    if c is not None:
        return P(Fraction(1) / c) if c != 0 else Poly.atom(('recip', p))
    if len(p.t) == 1:
        (m, k), = p.t.items()
        r = P(Fraction(1) / k)
        for a, e in m:
            f = a[1] if a[0] == 'recip' else Poly.atom(('recip', Poly.atom(a)))
            for _ in range(e):
                r = r * f
        return r
    m = sorted(p.t, key=hash)[0]
    k = p.t[m]
    return Poly.atom(('recip', p * P(Fraction(1) / k))) * P(Fraction(1) / k)


def scal(m):
    """0-dim Mat -> Poly when it is a plain polynomial."""
    if isinstance(m, Mat) and m.ndim == 0:
        if not m.terms:
            return ZERO
        if set(m.terms) == {((), (), ())}:
            return m.terms[((), (), ())]
    return m


def push(m):
    """Scalar Mat: selections of elementwise functions become scalar functions of the elements."""
    if not (isinstance(m, Mat) and m.ndim == 0):
        return m
    out = Mat.zeros(())
    hit = False
    for (w, b, g), c in m.terms.items():
        r = None
        if not b and not g and len(w) == 2:
            for l1, l2 in ((w[0], w[1]), (w[1], w[0])):
                if l1[0] == 'E' and l1[3] == ONE and l2[0] == 'f' and isinstance(l2[1], tuple) and l2[1]:
                    if l2[1][0] == 'abs' and l2[1][1].ndim == 1:
                        r = abs_scalar(push(l2[1][1].row(l1[2])))
        if r is not None:
            hit = True
            out = out + Mat.scalar(alg.scalar_poly(_as_scalar_mat(r)) * c)
        else:
            out = out + Mat((), {(w, b, g): c})
    return scal(out) if hit else scal(m)


def abs_scalar(x):
    x = scal(x)
    if isinstance(x, Poly) and x.const() is not None:
        return P(abs(x.const()))
    x = _as_scalar_mat(x)
    y = -x
    if hash(y) < hash(x):
        x = y
    return Poly.atom(('abs', x))


def rowmat(v):
    """1-D vector as a 1 x n matrix."""
    return Mat.make((ONE, v.shape[0]), [Term(t.coef, transpose_word(t.word), t.binders, t.guards)
                                        for t in v.term_list()])


def colmat(v):
    return Mat((v.shape[0], ONE), dict(v.terms))


def to2d_row(m):
    if m.ndim == 0:
        return Mat((ONE, ONE), dict(m.terms))
    if m.ndim == 1:
        return rowmat(m)
    return m


def diag(v):
    if v.ndim == 1 and len(v.terms) == 1:
        ((w, b, g), c), = v.terms.items()
        if len(w) == 1 and w[0][0] == '1' and not b and not g:
            return Mat.eye(v.shape[0]).scale(c)
    return Mat.fn(('diag', v), (v.shape[0], v.shape[0]))


def recipv(v):
    if len(v.terms) == 1:
        ((w, b, g), c), = v.terms.items()
        if len(w) == 1 and w[0][0] == '1' and not b and not g:
            return Mat(v.shape, {(w, b, g): recip(c)})
    return Mat.fn(('recipv', v), v.shape)


class NPCore(object):
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------ helpers
    def fallible(self, what):
        self.I.ev('fallible', what=what)

    def same(self, p, q, what):
        """Obligation p == q, otherwise the operation raises."""
        p, q = P(p), P(q)
        c = ieq(p - q)
        d = self.I.decide(c)
        if d is True:
            return
        if d is False:
            self.I.ev('fallible', what=what)
            self.I.do_raise('ValueError', what, implicit=True)
        self.fallible(what)
        self.I.may_raise('ValueError', what, cnot(c))
        self.I.assume(c, pc=False)

    def arrs(self, v):
        """Numeric content of any value, converting sequences."""
        I = self.I
        m = I.arr(v)
        if m is not None:
            return m
        if isinstance(v, Cond):
            return Mat.scalar(ONE) if v.is_true() else (Mat.scalar(ZERO) if v.is_false() else None)
        if isinstance(v, FArr):
            return v.val
        if isinstance(v, (Ref, Tup)) and I.aslist(v) is not None:
            return self.toarr(v)
        return None

    def new(self, val, st=None):
        if isinstance(val, Mat):
            if val.ndim == 0:
                return push(val)
            return self.I.new_arr(val, st)
        if isinstance(val, (BVec, B2)):
            return self.I.new_arr(val, st)
        if isinstance(val, (Poly, Cond)):
            return val
        if val is None:
            return self.I.top('array')
        return val

    def bdim(self, p, q, what):
        if p == q:
            return p
        if p == ONE:
            return q
        if q == ONE:
            return p
        c = ieq(P(p) - P(q))
        d = self.I.decide(c)
        if d is not True:
            one = cor(ieq(P(p) - 1), ieq(P(q) - 1))
            if self.I.decide(one) is not False:
                # stretching an axis of symbolic size that happens to be one is not modelled
                self.I.may_raise('?', what, cand(cnot(c), one))
            if d is False and self.I.decide(one) is False:
                self.same(p, q, what)
            self.fallible(what)
            self.I.may_raise('ValueError', what, cand(cnot(c), cnot(one)))
            self.I.assume(c, pc=False)
        return p

    def bshape(self, s, t):
        n = max(len(s), len(t))
        s2 = (ONE,) * (n - len(s)) + tuple(s)
        t2 = (ONE,) * (n - len(t)) + tuple(t)
        out = []
        for i, (a, b) in enumerate(zip(s2, t2)):
            if i < n - len(s):
                out.append(b)
            elif i < n - len(t):
                out.append(a)
            else:
                out.append(self.bdim(a, b, 'operands could not be broadcast together'))
        return tuple(out)

    def bc(self, m, shape):
        if m.ndim == len(shape) and all(a == b for a, b in zip(m.shape, shape)):
            return m
        if m.ndim == 0:
            return Mat.ones(shape).scale(alg.scalar_poly(m))
        if m.ndim == 1 and len(shape) == 1:
            if m.shape[0] == ONE and shape[0] != ONE:
                return Mat.ones(shape).scale(alg.scalar_poly(m.row(ZERO)))
            return m
        if m.ndim == 1 and len(shape) == 2:
            r = rowmat(m)
            if m.shape[0] == ONE and shape[1] != ONE:
                r = r.right((('1', shape[1], True),), (ONE, shape[1]))
            return r.left((('1', shape[0], False),), (shape[0], r.shape[1]))
        if m.ndim == 2 and len(shape) == 2:
            if m.shape[0] == ONE and shape[0] != ONE:
                m = m.left((('1', shape[0], False),), (shape[0], m.shape[1]))
            if m.shape[1] == ONE and shape[1] != ONE:
                m = m.right((('1', shape[1], True),), (m.shape[0], shape[1]))
            return m
        return m

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Opq) or isinstance(b, Opq):
            r = self.opq_binop(op, a, b)
            if r is not None:
                return r
        ma, mb = self.arrs(a), self.arrs(b)
        if isinstance(ma, BVec) and isinstance(mb, BVec) and op in ('BitAnd', 'BitOr'):
            g = fresh('q')
            x, y = ma.at(Poly.atom(g)), mb.at(Poly.atom(g))
            return self.new(BVec(ma.n, g, cand(x, y) if op == 'BitAnd' else cor(x, y)))
        if isinstance(ma, BVec):
            ma = self.bvec_mat(ma)
        if isinstance(mb, BVec):
            mb = self.bvec_mat(mb)
        if not isinstance(ma, Mat) or not isinstance(mb, Mat):
            return I.top('operator %s on %s' % (op, 'non-numeric values'))
        if ma.ndim > 2 or mb.ndim > 2:
            return I.top('3-d array')
        return self.new(self.matop(op, ma, mb))

    def bvec_mat(self, b):
        return Mat.fn(('bool', b), (b.n,))

    def opq_binop(self, op, a, b):
        I = self.I
        for x in (a, b):
            if isinstance(x, Opq) and x.name.startswith('TOP'):
                return I.top('opaque operand')
        return None

    def matop(self, op, a, b):
        I = self.I
        if op == 'MatMult':
            return self.dot(a, b)
        if op in ('Add', 'Sub'):
            if a.ndim == 0 and b.ndim == 0:
                return a + b if op == 'Add' else a - b
            sh = self.bshape(a.shape, b.shape)
            x, y = self.bc(a, sh), self.bc(b, sh)
            r = x + y if op == 'Add' else x - y
            return r
        if op == 'Mult':
            if a.ndim == 0:
                return alg.mul_scalar(a, b)
            if b.ndim == 0:
                return alg.mul_scalar(b, a)
            return self.hadamard(a, b)
        if op == 'Div':
            if b.ndim == 0:
                return alg.mul_scalar(Mat.scalar(recip(alg.scalar_poly(b))), a)
            if a.ndim == 0:
                if b.ndim == 1:
                    return recipv(b).scale(alg.scalar_poly(a))
                return Mat.fn(('eldiv', a, b), b.shape)
            if b.ndim == 1:
                return self.hadamard(a, recipv(b))
            if b.ndim == 2 and b.shape[1] == ONE:
                v = recipv(b.col(ZERO))
                return self.hadamard(a, colmat(v))
            return Mat.fn(('eldiv', a, b), self.bshape(a.shape, b.shape))
        if op == 'Pow':
            if a.ndim == 0 and b.ndim == 0:
                pa, pb = alg.scalar_poly(a), alg.scalar_poly(b)
                r = I.polyop('Pow', pa, pb)
                return Mat.scalar(r) if isinstance(r, Poly) else r
            return Mat.fn(('elpow', a, b), a.shape if a.ndim >= b.ndim else b.shape)
        if op in ('FloorDiv', 'Mod'):
            if a.ndim == 0 and b.ndim == 0:
                return Mat.scalar(Poly.atom(('num', op, a, b)))
            return Mat.fn(('el' + op, a, b), a.shape if a.ndim >= b.ndim else b.shape)
        return I.top('operator %s' % op)

    def hadamard(self, a, b):
        sh = self.bshape(a.shape, b.shape)
        if a.ndim == 1 and b.ndim == 1:
            if a.shape[0] == ONE or b.shape[0] == ONE:
                if a.shape[0] == ONE and b.shape[0] != ONE:
                    return b.scale(alg.scalar_poly(a.row(ZERO)))
                if b.shape[0] == ONE:
                    return a.scale(alg.scalar_poly(b.row(ZERO)))
            x, y = sorted((a, b), key=lambda z: (0 if isdiagish(z) else 1, hash(z)))
            return diag(x).words_mul(y, sh)
        for x, y in ((a, b), (b, a)):
            if y.ndim == 2 and y.shape[1] == ONE and x.ndim == 2 and x.shape[1] != ONE:
                return diag(y.col(ZERO)).words_mul(x, sh)
            if y.ndim == 1 and x.ndim == 2 and x.shape[1] == y.shape[0]:
                return x.words_mul(diag(y), sh)
            if y.ndim == 2 and x.ndim == 2 and y.shape[0] == ONE and x.shape[0] != ONE:
                return x.words_mul(diag(y.row(ZERO)), sh)
        x, y = sorted((self.bc(a, sh), self.bc(b, sh)), key=hash)
        if x.ndim == 2 and x.shape[1] == ONE:
            return Mat(sh, dict(diag(x.col(ZERO)).words_mul(y, sh).terms))
        return Mat.fn(('hadamard', x, y), sh)

    def dot(self, a, b):
        if a.ndim == 0 or b.ndim == 0:
            return alg.dot(a, b)
        ka = a.shape[-1]
        kb = b.shape[0] if b.ndim < 2 or b.ndim == 2 else b.shape[-2]
        self.same(ka, kb, 'shapes not aligned in a product')
        return alg.dot(a, b)

    # ------------------------------------------------------------ comparison
    def compare(self, op, ma, mb):
        I = self.I
        if ma.ndim == 0 and mb.ndim == 0:
            return self.cmp_scalar(op, push(ma), push(mb))
        if ma.ndim > 2 or mb.ndim > 2:
            return I.top('comparison')
        sh = self.bshape(ma.shape, mb.shape)
        x, y = self.bc(ma, sh), self.bc(mb, sh)
        if len(sh) == 1:
            g = fresh('q')
            gp = Poly.atom(g)
            CTX.ranges[g] = (ZERO, sh[0])
            return self.new(BVec(sh[0], g, self.cmp_scalar(op, push(x.row(gp)), push(y.row(gp)))))
        g, h = fresh('q'), fresh('q')
        CTX.ranges[g] = (ZERO, sh[0])
        CTX.ranges[h] = (ZERO, sh[1])
        e = self.cmp_scalar(op, push(x.elem(Poly.atom(g), Poly.atom(h))), push(y.elem(Poly.atom(g), Poly.atom(h))))
        return self.new(B2(sh[0], sh[1], g, h, e))

    def cmp_scalar(self, op, x, y):
        x, y = _as_scalar_mat(x), _as_scalar_mat(y)
        if self.I.models:
            from .solvermodel import constr
            k = constr(op, x, y)
            if k is not None:
                return k
        d = scal(y - x)
        if op == 'Lt':
            return rgt(d)
        if op == 'LtE':
            return rge(d)
        n = -d
        if op == 'Gt':
            return rgt(n)
        if op == 'GtE':
            return rge(n)
        if op == 'Eq':
            return req(scal(x), scal(y))
        if op == 'NotEq':
            return cnot(req(scal(x), scal(y)))
        return Cond(('truth', self.I.top('comparison')))

    # ------------------------------------------------------------ sequences to arrays
    def seg_mat(self, s):
        """(n, var, Mat or Cond) of a segment; n None for single elements."""
        if isinstance(s, One):
            v = self.I.simplify(s.v)
            if isinstance(v, Cond):
                return None, None, v
            return None, None, self.arrs(v)
        v = s.val
        if isinstance(v, FArr):
            return s.n, s.var, v.val
        if isinstance(v, Poly):
            return s.n, s.var, Mat.scalar(v)
        if isinstance(v, Mat):
            return s.n, s.var, v
        if isinstance(v, Cond):
            return s.n, s.var, v
        if isinstance(v, (FList, Tup)):
            r = self.I.thaw(v)
            m = self.toarr(r)
            return s.n, s.var, m
        if isinstance(v, Gamma):
            m = gmat(v)
            if m is not None:
                return s.n, s.var, m
        return s.n, s.var, None

    def segs_of(self, v):
        I = self.I
        if isinstance(v, (list, tuple)) and not isinstance(v, Val):
            out = []
            for x in v:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == '$star':
                    s = I.iter_segs(I.simplify(x[1]))
                    if s is None:
                        return None
                    out.extend(s)
                else:
                    out.append(One(x))
            return out
        return I.iter_segs(v)

    def stack(self, segs, rows, cols, prep, what):
        """Assemble blocks along rows and/or columns."""
        I = self.I
        items = []
        for s in segs:
            if isinstance(s, Rep) and not s.cond.is_true():
                return I.top('stack of a filtered list')
            n, v, m = self.seg_mat(s)
            if isinstance(m, BVec):
                m = self.bvec_mat(m)
            if not isinstance(m, Mat):
                return I.top('stack of unknown')
            if n is not None and n.as_int() is not None and n.as_int() <= 3:
                for j in range(n.as_int()):
                    items.append((None, None, prep(m.subst({v: P(j)}))))
                continue
            items.append((n, v, prep(m)))
        if not items:
            self.fallible(what)
            I.do_raise('ValueError', 'need at least one array', implicit=True)
        nd = items[0][2].ndim
        if any(m.ndim != nd for _, _, m in items):
            self.fallible(what)
            I.do_raise('ValueError', 'all the input array dimensions must match', implicit=True)
        # consistency of the other axis
        if nd == 2 and rows != cols:
            ax = 1 if rows else 0
            ref = items[0][2].shape[ax]
            if items[0][1] is not None and items[0][1] in ref.free_vars():
                return I.top('stack')
            for n, v, m in items[1:]:
                if v is not None and v in m.shape[ax].free_vars():
                    return I.top('stack')
                self.same(ref, m.shape[ax], what + ': sizes differ')
        # offsets
        def total(k):
            t = ZERO
            offs = []
            for n, v, m in items:
                offs.append(t)
                if n is None:
                    t = t + m.shape[k]
                else:
                    t = t + prefix_sum(m.shape[k].subst({v: Poly.atom(PSV)}), n)
            return t, offs
        tr, ro = total(0) if rows else (items[0][2].shape[0], None)
        if nd == 2:
            tc, co = total(1) if cols else (items[0][2].shape[1], None)
        sh = (tr,) if nd == 1 else (tr, tc)
        acc = Mat.zeros(sh)
        for i, (n, v, m) in enumerate(items):
            k = v
            g = None
            if n is not None:
                g = fresh('k')
                m = m.subst({v: Poly.atom(g)})
            def place(m=m, g=g, i=i, n=n, v=v):
                if rows:
                    off = ro[i]
                    if n is not None:
                        off = off + prefix_sum(items[i][2].shape[0].subst({v: Poly.atom(PSV)}), Poly.atom(g))
                    m = m.embed(tr, off, 0)
                if cols and nd == 2:
                    off = co[i]
                    if n is not None:
                        off = off + prefix_sum(items[i][2].shape[1].subst({v: Poly.atom(PSV)}), Poly.atom(g))
                    m = m.embed(tc, off, 1)
                return m
            if n is not None:
                from .poly import assuming
                with assuming({g: (ZERO, n)}):
                    mm = place()
                mm = mm.sum_over(g, ZERO, n)
            else:
                mm = place()
            acc = acc + Mat(sh, mm.terms)
        return acc

    def toarr(self, v):
        """numpy.array(v): Mat / BVec / Top / None"""
        I = self.I
        segs = self.segs_of(v)
        if segs is None:
            return I.top('array of unknown list')
        if not segs:
            return Mat.zeros((ZERO,))
        kinds = []
        mats = []
        for s in segs:
            n, vv, m = self.seg_mat(s)
            mats.append((n, vv, m))
        if all(isinstance(m, Cond) for _, _, m in mats):
            if len(segs) == 1 and isinstance(segs[0], Rep) and segs[0].cond.is_true():
                return BVec(segs[0].n, segs[0].var, segs[0].val)
            if all(isinstance(s, One) for s in segs):
                g = fresh('q')
                c = FALSE
                for i, (_, _, m) in enumerate(mats):
                    c = cor(c, cand(ieq(Poly.atom(g) - i), m))
                return BVec(P(len(segs)), g, c)
            return I.top('boolean list')
        if not all(isinstance(m, Mat) for _, _, m in mats):
            return I.top('array of unknown')
        nd = mats[0][2].ndim
        if nd == 0:
            r = self.stack(segs, True, False, lambda m: Mat((ONE,), dict(m.terms)), 'array')
            return r
        if nd == 1:
            return self.stack(segs, True, False, rowmat, 'array')
        return I.top('3-d array')

    # ------------------------------------------------------------ index selections
    def sel_of(self, lst, n):
        """Selection letters from an index list over n rows: ('E', ...) / ('R', ...) / ('rows', [polys]) / None."""
        I = self.I
        c = I.cell(lst) if isinstance(lst, Ref) else None
        if isinstance(lst, Tup):
            segs = [One(x) for x in lst.items]
        elif isinstance(c, ListC):
            segs = c.segs
        else:
            return None
        if segs is None:
            if c is not None and c.note:
                return ('R', ('note', c.note), n, Poly.atom(('len', 'note', c.note)), False)
            return None
        segs = list(segs)
        if all(isinstance(s, One) for s in segs):
            ps = [I.simplify(s.v) for s in segs]
            if not all(isinstance(p, Poly) for p in ps):
                return None
            ps = [n + p if CTX.nonneg(-p - 1) else p for p in ps]
            if ps and all(ps[i + 1] == ps[i] + 1 for i in range(len(ps) - 1)):
                return ('E', n, ps[0], P(len(ps)), True)
            return ('rows', ps)
        if len(segs) == 1:
            s = segs[0]
            if not isinstance(s.val, Poly):
                return None
            if s.cond.is_true():
                ab = s.val.coeff(s.var)
                if ab is not None and ab[0] == ONE:
                    return ('E', n, ab[1], s.n, True)
                e = s.val.subst({s.var: Poly.atom(LV)})
                return ('R', ('lst', e, LV), n, s.n, False)
            ln = I.list_len(ListC((s,), 'list'))
            # complement of an index list
            if s.val == Poly.atom(s.var) and CTX.is_zero(s.n - n) is True:
                x = self.complement(s)
                if x is not None:
                    return ('R', ('compl', x), n, ln, False)
            g = canon_rep(s.n, s.var, s.val, s.cond)
            return ('R', ('filter',) + g[1:], n, ln, False)
        return None

    def complement(self, s):
        """s.cond == not (s.var in list): the selection tuple of that list."""
        k = s.cond.k
        if k[0] != 'not':
            return None
        k = k[1].k
        if k[0] == 'ex' and k[3].k[0] == 'ieq':
            p = k[3].k[1]
            for q in (p, -p):
                ab = q.coeff(s.var)
                if ab is not None and ab[0] == ONE:
                    e = -ab[1]
                    return ('lst', e.subst({k[2]: Poly.atom(LV)}), LV)
        if k[0] == 'in' and k[1] == Poly.atom(s.var):
            return ('note', k[2])
        return None


def isdiagish(m):
    w = m.single_word()
    return w is not None and len(w) == 1 and w[0][0] == 'f' and isinstance(w[0][1], tuple) and \
        w[0][1][0] in ('recipv', 'where')


def cond_guards(c):
    """Condition as a disjoint list of guard lists (polys >= 0), or None."""
    k = c.k
    if k[0] == 't':
        return [[]]
    if k[0] == 'f':
        return []
    if k[0] == 'ige':
        return [[k[1]]]
    if k[0] == 'ieq':
        return [[k[1], -k[1]]]
    if k[0] == 'not' and k[1].k[0] == 'ieq':
        p = k[1].k[1]
        return [[p - 1], [-p - 1]]
    if k[0] == 'and':
        out = [[]]
        for x in k[1]:
            g = cond_guards(x)
            if g is None:
                return None
            out = [a + b for a in out for b in g]
        return out
    if k[0] == 'or':
        # disjoint expansion
        out = []
        neg = [[]]
        for x in k[1]:
            g, ng = cond_guards(x), cond_guards(cnot(x))
            if g is None or ng is None:
                return None
            out += [a + b for a in neg for b in g]
            neg = [a + b for a in neg for b in ng]
        return out
    return None


def gmat(v):
    """Gamma of matrices over integer conditions as one guarded Mat, or None."""
    if isinstance(v, FArr):
        return gmat(v.val)
    if isinstance(v, Poly):
        return Mat.scalar(v)
    if isinstance(v, Mat):
        return v
    if isinstance(v, Gamma):
        a, b = gmat(v.a), gmat(v.b)
        if a is None or b is None or a.ndim != b.ndim or a.shape != b.shape:
            return None
        g, ng = cond_guards(v.c), cond_guards(cnot(v.c))
        if g is None or ng is None:
            return Mat.fn(('if', v.c, a, b), a.shape)
        ts = []
        for m, gl in ((a, g), (b, ng)):
            for gs in gl:
                for t in m.term_list():
                    ts.append(Term(t.coef, t.word, t.binders, t.guards + tuple(gs)))
        return Mat.make(a.shape, ts)
    return None
