"""numpy / scipy functions on abstract values."""
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, CTX, fresh, prefix_sum, PSV, assuming
from . import alg
from .alg import Mat, Term
from .vals import *
from .vals import _as_scalar_mat
from .npmodel import B2, push, scal, rowmat, colmat, to2d_row, diag, recip, abs_scalar, gmat
from .npindex import NPIndex


class NPFuncs(NPIndex):
    # ------------------------------------------------------------ shapes
    def shape_arg(self, v):
        I = self.I
        v = I.simplify(v)
        if isinstance(v, Poly):
            return (v,)
        if isinstance(v, Tup):
            items = [I.simplify(x) for x in v.items]
        else:
            segs = I.iter_segs(v) if isinstance(v, Ref) else None
            if segs is None or not all(isinstance(s, One) for s in segs):
                return None
            items = [I.simplify(s.v) for s in segs]
        if all(isinstance(x, Poly) for x in items):
            return tuple(items)
        if NONE in items:
            I.none_use('None as an array dimension')
        return None

    def filled(self, a, kw, value, what):
        I = self.I
        v = kw.get('shape', a[0] if a else None)
        g = self.find_gamma(v)
        if g is not None:
            return I.split(g.c, lambda: self.filled([self.repl(v, g, g.a)], {}, value, what),
                           lambda: self.filled([self.repl(v, g, g.b)], {}, value, what))
        sh = self.shape_arg(v)
        if sh is None or len(sh) > 2:
            return I.top(what)
        if len(sh) == 0:
            return value
        if value == ZERO:
            return I.new_arr(Mat.zeros(sh))
        if isinstance(value, Poly):
            return I.new_arr(Mat.ones(sh).scale(value))
        return I.top(what)

    def find_gamma(self, v):
        I = self.I
        if isinstance(v, Tup):
            for x in v.items:
                y = I.simplify(x)
                if isinstance(y, Gamma):
                    return y
        return None

    def repl(self, v, g, x):
        I = self.I
        return Tup([x if I.simplify(y) == g else y for y in v.items])

    def n_zeros(self, a, kw):
        return self.filled(a, kw, ZERO, 'zeros')

    def n_ones(self, a, kw):
        return self.filled(a, kw, ONE, 'ones')

    def n_empty(self, a, kw):
        I = self.I
        sh = self.shape_arg(kw.get('shape', a[0] if a else None))
        if sh is None or len(sh) > 2:
            return I.top('empty')
        if any(s == ZERO for s in sh):
            return I.new_arr(Mat.zeros(sh))
        return I.new_arr(Mat.fn(('TOPempty', next(I.ids)), sh))

    def n_full(self, a, kw):
        v = kw.get('fill_value', a[1] if len(a) > 1 else None)
        if isinstance(v, Mat):
            v = alg.scalar_poly(v)
        return self.filled(a, kw, v, 'full')

    def like(self, a, value):
        m = self.arrs(a[0])
        if isinstance(m, Mat):
            if m.ndim == 0:
                return value
            return self.I.new_arr(Mat.zeros(m.shape) if value == ZERO else Mat.ones(m.shape))
        if isinstance(m, BVec):
            return self.I.new_arr(Mat.zeros((m.n,)) if value == ZERO else Mat.ones((m.n,)))
        return self.I.top('like')

    def n_zeros_like(self, a, kw):
        return self.like(a, ZERO)

    def n_ones_like(self, a, kw):
        return self.like(a, ONE)

    n_empty_like = n_zeros_like

    def n_eye(self, a, kw):
        I = self.I
        n = I.simplify(a[0] if a else kw.get('N'))
        if n == NONE:
            I.none_use('eye(None)')
        if not isinstance(n, Poly):
            return I.top('eye')
        m = I.simplify(a[1]) if len(a) > 1 else kw.get('M')
        k = a[2] if len(a) > 2 else kw.get('k', ZERO)
        if isinstance(m, Poly) and m != n or k != ZERO:
            if isinstance(m, Poly) and k == ZERO:
                if CTX.nonneg(m - n):
                    return I.new_arr(Mat.eye(n).embed(m, ZERO, 1))
                if CTX.nonneg(n - m):
                    return I.new_arr(Mat.eye(m).embed(n, ZERO, 0))
            return I.top('eye')
        return I.new_arr(Mat.eye(n))

    n_identity = n_eye

    # ------------------------------------------------------------ stacking
    def seq(self, a):
        """Segments of the sequence argument of a stacking function."""
        I = self.I
        v = a[0]
        if v == NONE:
            I.none_use('stacking None')
        segs = self.segs_of(v)
        if segs is None:
            return None
        for s in segs:
            if isinstance(s, One) and I.simplify(s.v) == NONE:
                I.none_use('None in a stack')
        return segs

    def split_gammas(self, segs, f):
        """Resolve gamma elements of a sequence by splitting."""
        I = self.I
        for i, s in enumerate(segs):
            if not isinstance(s, One):
                continue
            v = I.simplify(s.v)
            if isinstance(v, Gamma):
                def arm(x, i=i):
                    return self.split_gammas(segs[:i] + [One(x)] + segs[i + 1:], f)
                return I.split(v.c, lambda: arm(v.a), lambda: arm(v.b))
            if isinstance(v, Ref):
                c = I.cell(v)
                if isinstance(c, GamC_()) or isinstance(c, ArrC) and isinstance(c.val, Gamma):
                    cc = c.c if isinstance(c, GamC_()) else c.val.c

                    def arm2(pos, i=i, v=v, c=c):
                        if isinstance(c, ArrC):
                            I.st.heap[v.id] = ArrC(c.val.a if pos else c.val.b, c.st)
                        else:
                            I.st.heap[v.id] = c.a if pos else c.b
                        return self.split_gammas(segs, f)
                    return I.split(cc, lambda: arm2(True), lambda: arm2(False))
        return f(segs)

    def stacked(self, a, rows, cols, prep, what):
        I = self.I
        segs = self.seq(a)
        if segs is None:
            return I.top(what + ' of unknown list')

        def go(segs):
            r = self.stack(segs, rows, cols, prep, what)
            if isinstance(r, Mat):
                return I.new_arr(r)
            return r
        return self.split_gammas(list(segs), go)

    def n_vstack(self, a, kw):
        return self.stacked(a, True, False, to2d_row, 'vstack')

    n_row_stack = n_vstack

    def n_hstack(self, a, kw):
        I = self.I
        segs = self.seq(a)
        if segs is None:
            return I.top('hstack of unknown list')
        return self.split_gammas(list(segs), lambda s: self.cat(s, None, 'hstack'))

    def n_column_stack(self, a, kw):
        def prep(m):
            return colmat(m) if m.ndim == 1 else (Mat((ONE, ONE), dict(m.terms)) if m.ndim == 0 else m)
        return self.stacked(a, False, True, prep, 'column_stack')

    def n_concatenate(self, a, kw):
        I = self.I
        ax = kw.get('axis', a[1] if len(a) > 1 else ZERO)
        ax = I.simplify(ax)
        if isinstance(ax, Poly) and ax.as_int() in (0, 1, -1):
            segs = self.seq(a)
            if segs is None:
                return I.top('concatenate of unknown list')
            return self.split_gammas(list(segs), lambda s: self.cat(s, ax.as_int(), 'concatenate'))
        return I.top('concatenate')

    def cat(self, segs, axis, what):
        """axis None: hstack semantics."""
        I = self.I
        nd = None
        for s in segs:
            n, v, m = self.seg_mat(s)
            if isinstance(m, BVec):
                nd = 1
            if isinstance(m, Mat):
                nd = m.ndim
                break
        if nd is None:
            if not segs:
                self.fallible(what)
                I.do_raise('ValueError', 'need at least one array to concatenate', implicit=True)
            return I.top(what)
        if nd == 0 and axis is None:
            r = self.stack(segs, True, False, lambda m: Mat((ONE,), dict(m.terms)) if m.ndim == 0 else m, what)
        elif nd == 1:
            r = self.stack(segs, True, False, lambda m: Mat((ONE,), dict(m.terms)) if m.ndim == 0 and axis is None else m, what)
        elif nd == 2:
            rows = axis == 0
            r = self.stack(segs, rows, not rows, lambda m: m, what)
        else:
            return I.top(what)
        return I.new_arr(r) if isinstance(r, Mat) else r

    def n_stack(self, a, kw):
        I = self.I
        ax = I.simplify(kw.get('axis', a[1] if len(a) > 1 else ZERO))
        k = ax.as_int() if isinstance(ax, Poly) else None
        if k == 0:
            return self.stacked(a, True, False, rowmat, 'stack')
        if k in (1, -1):
            return self.stacked(a, False, True, colmat, 'stack')
        return I.top('stack')

    def n_append(self, a, kw):
        I = self.I
        ax = kw.get('axis', a[2] if len(a) > 2 else NONE)
        x, y = self.arrs(a[0]), self.arrs(a[1])
        if not isinstance(x, Mat) or not isinstance(y, Mat):
            return I.top('append')
        if ax == NONE and x.ndim <= 1 and y.ndim <= 1:
            f = lambda m: Mat((ONE,), dict(m.terms)) if m.ndim == 0 else m
            return self.cat([One(I.new_arr(f(x))), One(I.new_arr(f(y)))], 0, 'append')
        if isinstance(ax, Poly):
            return self.cat([One(a[0]), One(a[1])], ax.as_int(), 'append')
        return I.top('append')

    def n_block(self, a, kw):
        I = self.I
        segs = self.seq(a)
        if segs is None:
            return I.top('block')
        rows = []
        for s in segs:
            if isinstance(s, One) and I.aslist(I.simplify(s.v)) is not None:
                rows.append(One(self.n_hstack([s.v], {})))
            elif isinstance(s, Rep) and isinstance(s.val, FList):
                return I.top('block')
            else:
                rows = None
                break
        if rows is None:
            return self.n_hstack(a, kw)
        if any(isinstance(r.v, Top) for r in rows):
            return I.top('block')
        m0 = I.arr(rows[0].v)
        if isinstance(m0, Mat) and m0.ndim == 1:
            return self.stacked([I.new_list(rows)], True, False, to2d_row, 'block')
        return self.n_vstack([I.new_list(rows)], {})

    def n_block_diag(self, a, kw):
        I = self.I
        segs = self.segs_of(list(a))
        if segs is None:
            return I.top('block_diag')
        return self.split_gammas(list(segs), lambda s: self._bd(s))

    n_linalg_block_diag = n_block_diag

    def _bd(self, segs):
        I = self.I
        r = self.stack(segs, True, True, to2d_row, 'block_diag')
        return I.new_arr(r) if isinstance(r, Mat) else r

    def n_kron(self, a, kw):
        I = self.I
        x, y = self.arrs(a[0]), self.arrs(a[1])
        if not isinstance(x, Mat) or not isinstance(y, Mat):
            return I.top('kron')
        if x.ndim == 2 and x.shape[0] == x.shape[1] and x == Mat.eye(x.shape[0]):
            k = fresh('i')
            CTX.ranges[k] = (ZERO, x.shape[0])
            y2 = to2d_row(y) if y.ndim == 1 else y
            return self._bd([Rep(x.shape[0], k, FArr(y2, frozenset()))])
        if x.ndim == 1 and y.ndim == 1 and x == Mat.ones(x.shape):
            k = fresh('i')
            CTX.ranges[k] = (ZERO, x.shape[0])
            return self.cat([Rep(x.shape[0], k, FArr(y, frozenset()))], 0, 'kron')
        if x.ndim == 2 and x.shape[1] == ONE and x == Mat.ones(x.shape) and y.ndim == 2:
            k = fresh('i')
            CTX.ranges[k] = (ZERO, x.shape[0])
            return self.cat([Rep(x.shape[0], k, FArr(y, frozenset()))], 0, 'kron')
        return I.top('kron')

    def n_tile(self, a, kw):
        I = self.I
        y = self.arrs(a[0])
        r = I.simplify(a[1])
        if isinstance(y, Mat) and y.ndim == 1 and isinstance(r, Poly):
            k = fresh('i')
            CTX.ranges[k] = (ZERO, r)
            return self.cat([Rep(r, k, FArr(y, frozenset()))], 0, 'tile')
        if isinstance(y, Mat) and isinstance(r, Tup) and len(r.items) == 2 and r.items[1] == ONE and isinstance(r.items[0], Poly):
            y2 = to2d_row(y)
            k = fresh('i')
            CTX.ranges[k] = (ZERO, r.items[0])
            return self.cat([Rep(r.items[0], k, FArr(y2, frozenset()))], 0, 'tile')
        return I.top('tile')


def GamC_():
    from .interp import GamC
    return GamC
