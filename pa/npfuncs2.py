"""numpy / scipy functions on abstract values (continued): reductions, linear algebra, selections."""
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, CTX, fresh, prefix_sum, PSV, assuming
from . import alg
from .alg import Mat, Term
from .vals import *
from .vals import _as_scalar_mat
from .npmodel import B2, push, scal, rowmat, colmat, to2d_row, diag, recip, abs_scalar, gmat
from .npfuncs import NPFuncs


def sqrt_p(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(Fraction(n, d))
    return Poly.atom(('sqrt', p))


class NPFuncs2(NPFuncs):
    # ------------------------------------------------------------ conversion
    def n_array(self, a, kw):
        I = self.I
        v = a[0] if a else kw.get('object')
        return self.conv(v, True)

    def n_asarray(self, a, kw):
        return self.conv(a[0], False)

    n_ascontiguousarray = n_asarray
    n_asanyarray = n_asarray
    n_asmatrix = n_asarray
    n_matrix = n_array
    n_copy = n_array

    def conv(self, v, copy):
        I = self.I
        if v == NONE:
            return Opq('arrayNone')
        if isinstance(v, Poly) or isinstance(v, Mat) or isinstance(v, Cond):
            return v
        if isinstance(v, Ref) and isinstance(I.cell(v), ArrC):
            c = I.cell(v)
            if not copy:
                return v
            return I.new_arr(c.val)
        if isinstance(v, Opq):
            r = self.opq_array(v)
            if r is not None:
                return r
            return I.top('array of %s' % v.name)
        if isinstance(v, (Ref, Tup)):
            segs = self.segs_of(v)
            if segs is None:
                return I.top('array of unknown list')

            def go(segs):
                l = I.new_list(segs)
                r = self.toarr(l)
                if isinstance(r, (Mat, BVec)):
                    return I.new_arr(r)
                return r
            return self.split_gammas(list(segs), go)
        return I.top('array')

    def n_atleast_1d(self, a, kw):
        m = self.arrs(a[0])
        if isinstance(m, Mat) and m.ndim == 0:
            return self.I.new_arr(Mat((ONE,), dict(m.terms)))
        return self.conv(a[0], False)

    def n_atleast_2d(self, a, kw):
        m = self.arrs(a[0])
        if isinstance(m, Mat):
            if m.ndim < 2:
                return self.I.new_arr(to2d_row(m), self.I.storage(a[0]) or None)
            return self.conv(a[0], False)
        return self.I.top('atleast_2d')

    def n_float64(self, a, kw):
        return a[0]

    # ------------------------------------------------------------ products
    def n_dot(self, a, kw):
        I = self.I
        x, y = a[0], a[1]
        if x == NONE or y == NONE:
            I.none_use('None in a product')
        mx, my = self.arrs(x), self.arrs(y)
        if isinstance(mx, BVec):
            mx = self.bvec_mat(mx)
        if isinstance(my, BVec):
            my = self.bvec_mat(my)
        if not isinstance(mx, Mat) or not isinstance(my, Mat):
            return I.top('dot')
        return self.new(self.dot(mx, my))

    n_matmul = n_dot
    n_inner = n_dot

    def n_outer(self, a, kw):
        x, y = self.arrs(a[0]), self.arrs(a[1])
        if isinstance(x, Mat) and isinstance(y, Mat) and x.ndim == 1 and y.ndim == 1:
            return self.new(colmat(x).words_mul(rowmat(y), (x.shape[0], y.shape[0])))
        return self.I.top('outer')

    def n_multi_dot(self, a, kw):
        I = self.I
        segs = self.seq(a)
        if segs is None or not all(isinstance(s, One) for s in segs) or not segs:
            return I.top('multi_dot')
        r = segs[0].v
        for s in segs[1:]:
            r = self.lift_call(self.n_dot, [r, s.v], {})
        return r

    n_linalg_multi_dot = n_multi_dot

    def op2(self, op, a):
        return self.I.binop(op, a[0], a[1])

    def n_multiply(self, a, kw):
        return self.op2('Mult', a)

    def n_add(self, a, kw):
        return self.op2('Add', a)

    def n_subtract(self, a, kw):
        return self.op2('Sub', a)

    def n_divide(self, a, kw):
        return self.op2('Div', a)

    n_true_divide = n_divide

    def n_power(self, a, kw):
        return self.op2('Pow', a)

    def n_negative(self, a, kw):
        return self.I.unop('USub', a[0])

    def n_square(self, a, kw):
        return self.I.binop('Mult', a[0], a[0])

    def n_greater(self, a, kw):
        return self.I.compare('Gt', a[0], a[1])

    def n_less(self, a, kw):
        return self.I.compare('Lt', a[0], a[1])

    def n_greater_equal(self, a, kw):
        return self.I.compare('GtE', a[0], a[1])

    def n_less_equal(self, a, kw):
        return self.I.compare('LtE', a[0], a[1])

    def n_logical_and(self, a, kw):
        return self.I.binop('BitAnd', a[0], a[1])

    def n_logical_or(self, a, kw):
        return self.I.binop('BitOr', a[0], a[1])

    def n_logical_not(self, a, kw):
        return self.I.unop('Invert', a[0])

    # ------------------------------------------------------------ elementwise
    def n_abs(self, a, kw):
        I = self.I
        if a[0] == NONE:
            I.none_use('abs(None)')
        m = self.arrs(a[0])
        if not isinstance(m, Mat):
            return I.top('abs')
        if m.ndim == 0:
            return abs_scalar(push(m))
        y = -m
        if hash(y) < hash(m):
            m = y
        return I.new_arr(Mat.fn(('abs', m), m.shape))

    n_absolute = n_abs
    n_fabs = n_abs

    def elfn(self, name, a):
        m = self.arrs(a[0])
        if not isinstance(m, Mat):
            return self.I.top(name)
        if m.ndim == 0:
            return Poly.atom((name, scal(m)))
        return self.I.new_arr(Mat.fn(('el' + name, m), m.shape))

    def n_sqrt(self, a, kw):
        m = self.arrs(a[0])
        if isinstance(m, Mat) and m.ndim == 0:
            return sqrt_p(alg.scalar_poly(m))
        return self.elfn('sqrt', a)

    def n_sign(self, a, kw):
        return self.elfn('sign', a)

    def n_exp(self, a, kw):
        return self.elfn('exp', a)

    def n_log(self, a, kw):
        return self.elfn('log', a)

    def n_real(self, a, kw):
        return a[0]

    def n_floor(self, a, kw):
        return self.elfn('floor', a)

    def n_ceil(self, a, kw):
        return self.elfn('ceil', a)

    def n_rint(self, a, kw):
        return self.elfn('rint', a)

    def n_isnan(self, a, kw):
        return Cond(('isnan', self.I.freeze(a[0])))

    def n_isinf(self, a, kw):
        return Cond(('isinf', self.I.freeze(a[0])))

    def n_isfinite(self, a, kw):
        return Cond(('isfinite', self.I.freeze(a[0])))

    def n_isscalar(self, a, kw):
        return cbool(isinstance(a[0], (Poly, Mat)))

    # ------------------------------------------------------------ reductions
    def axis(self, a, kw, pos=1):
        v = kw.get('axis', a[pos] if len(a) > pos else NONE)
        v = self.I.simplify(v)
        if v == NONE:
            return None
        return v.as_int() if isinstance(v, Poly) else 'unknown'

    def n_all(self, a, kw):
        if self.axis(a, kw) not in (None, 0):
            return self.I.top('all(axis)')
        return self.quant(a[0], False)

    def n_any(self, a, kw):
        if self.axis(a, kw) not in (None, 0):
            return self.I.top('any(axis)')
        return self.quant(a[0], True)

    def n_sum(self, a, kw):
        I = self.I
        ax = self.axis(a, kw)
        v = a[0]
        if v == NONE:
            I.none_use('sum(None)')
        if I.aslist(v) is not None or isinstance(v, Tup):
            segs = I.iter_segs(v)
            if segs is not None and segs:
                _, _, m = self.seg_mat(segs[0])
                if isinstance(m, Mat) and (m.ndim == 0 or ax == 0):
                    return self.sum_segs(segs, ZERO)
        m = self.arrs(v)
        if isinstance(m, BVec):
            return self.sum_segs([Rep(m.n, m.v, m.c)], ZERO)
        if not isinstance(m, Mat):
            return I.top('sum')
        if m.ndim == 0:
            return v
        if m.ndim == 1:
            return self.new(alg.dot(Mat.ones(m.shape), m))
        if ax == 0:
            return self.new(alg.dot(Mat.ones((m.shape[0],)), m))
        if ax in (1, -1):
            return self.new(alg.dot(m, Mat.ones((m.shape[1],))))
        if ax is None:
            return self.new(alg.dot(Mat.ones((m.shape[0],)), alg.dot(m, Mat.ones((m.shape[1],)))))
        return I.top('sum')

    def n_mean(self, a, kw):
        I = self.I
        ax = self.axis(a, kw)
        s = self.n_sum(a, kw)
        v = a[0]
        n = None
        if I.aslist(v) is not None and ax == 0:
            n = self.b_len([v], {})
        else:
            m = self.arrs(v)
            if isinstance(m, Mat) and m.ndim:
                n = m.shape[0] if m.ndim == 1 or ax == 0 else (m.shape[1] if ax in (1, -1) else m.shape[0] * m.shape[1])
        if n is None:
            return I.top('mean')
        return I.binop('Div', s, n)

    def n_max(self, a, kw):
        if self.axis(a, kw) is not None:
            m = self.arrs(a[0])
            if isinstance(m, Mat) and m.ndim == 2:
                ax = self.axis(a, kw)
                return self.I.new_arr(Mat.fn(('max', ax, m), (m.shape[1 - ax],))) if ax in (0, 1) else self.I.top('max')
        return self.extreme('max', a[:1], {})

    def n_min(self, a, kw):
        if self.axis(a, kw) is not None:
            m = self.arrs(a[0])
            if isinstance(m, Mat) and m.ndim == 2:
                ax = self.axis(a, kw)
                return self.I.new_arr(Mat.fn(('min', ax, m), (m.shape[1 - ax],))) if ax in (0, 1) else self.I.top('min')
        return self.extreme('min', a[:1], {})

    n_amax = n_max
    n_amin = n_min

    def n_maximum(self, a, kw):
        return self.pairfn('maximum', a)

    def n_minimum(self, a, kw):
        return self.pairfn('minimum', a)

    def pairfn(self, name, a):
        x, y = self.arrs(a[0]), self.arrs(a[1])
        if isinstance(x, Mat) and isinstance(y, Mat):
            sh = self.bshape(x.shape, y.shape)
            x, y = sorted((self.bc(x, sh), self.bc(y, sh)), key=hash)
            if sh == ():
                return Poly.atom((name, x, y))
            return self.I.new_arr(Mat.fn((name, x, y), sh))
        return self.I.top(name)

    def n_argmax(self, a, kw):
        return self.argx('argmax', a)

    def n_argmin(self, a, kw):
        return self.argx('argmin', a)

    def argx(self, name, a):
        m = self.arrs(a[0])
        if isinstance(m, BVec):
            return Poly.atom(('first', m.n, m.v, m.c)) if name == 'argmax' else self.I.top(name)
        if isinstance(m, Mat) and m.ndim == 1:
            at = ('len', name, m)
            p = Poly.atom(at)
            self.I.st.hyps.append(m.shape[0] - 1 - p)
            return p
        return self.I.top(name)

    def n_count_nonzero(self, a, kw):
        m = self.arrs(a[0])
        if isinstance(m, BVec):
            return self.sum_segs([Rep(m.n, m.v, m.c)], ZERO)
        return self.I.top('count_nonzero')

    # ------------------------------------------------------------ selections
    def n_where(self, a, kw):
        I = self.I
        m = self.arrs(a[0])
        if len(a) == 1:
            if isinstance(m, BVec):
                v = fresh('i')
                CTX.ranges[v] = (ZERO, m.n)
                return Tup([I.new_list([Rep(m.n, v, Poly.atom(v), m.at(Poly.atom(v)))])])
            if isinstance(m, Mat) and m.ndim == 1:
                v = fresh('i')
                CTX.ranges[v] = (ZERO, m.shape[0])
                return Tup([I.new_list([Rep(m.shape[0], v, Poly.atom(v),
                                            cnot(req(push(m.row(Poly.atom(v))), ZERO)))])])
            return Tup([I.top('where')])
        x, y = self.arrs(a[1]), self.arrs(a[2])
        if isinstance(a[0], Cond):
            return I.split(a[0], lambda: a[1], lambda: a[2])
        if isinstance(m, BVec) and isinstance(x, Mat) and isinstance(y, Mat):
            return I.new_arr(Mat.fn(('where', m, x, y), (m.n,)))
        return I.top('where')

    def n_nonzero(self, a, kw):
        return self.n_where(a[:1], {})

    def n_flatnonzero(self, a, kw):
        r = self.n_where(a[:1], {})
        return r.items[0] if isinstance(r, Tup) else r

    def n_argwhere(self, a, kw):
        return self.I.top('argwhere')

    def n_delete(self, a, kw):
        I = self.I
        ax = self.axis(a, kw, 2)
        m = self.arrs(a[0])
        if not isinstance(m, Mat) or ax not in (0, None) or (ax is None and m.ndim != 1):
            return I.top('delete')
        idx = a[1]
        n = m.shape[0]
        if isinstance(idx, Poly):
            k = I.simplify(idx)
            if CTX.nonneg(-k - 1):
                k = n + k
            hi = m.row_slice(ZERO, k)
            lo = m.row_slice(k + 1, n)
            return self.cat([One(I.new_arr(hi)), One(I.new_arr(lo))], 0, 'delete')
        if isinstance(idx, Ref) and isinstance(I.cell(idx), ListC) and I.cell(idx).segs is not None:
            v = fresh('i')
            CTX.ranges[v] = (ZERO, n)
            c = cnot(I.contains(Poly.atom(v), idx))
            keep = I.new_list([Rep(n, v, Poly.atom(v), c)])
            return I.getitem(a[0], keep)
        return I.top('delete')

    def n_ndindex(self, a, kw):
        I = self.I
        dims = list(a)
        if len(dims) == 1 and isinstance(I.simplify(dims[0]), Tup):
            dims = list(I.simplify(dims[0]).items)
        dims = [I.simplify(d) for d in dims]
        if len(dims) == 1 and isinstance(dims[0], Poly):
            k = fresh('i')
            CTX.ranges[k] = (ZERO, dims[0])
            return I.new_list([Rep(dims[0], k, Tup([Poly.atom(k)]))])
        if len(dims) == 2 and all(isinstance(d, Poly) for d in dims):
            return Opq('ndindex', *dims)
        return I.top('ndindex')

    def n_diag(self, a, kw):
        I = self.I
        m = self.arrs(a[0])
        if isinstance(m, Mat) and m.ndim == 1:
            return I.new_arr(diag(m))
        if isinstance(m, Mat) and m.ndim == 2:
            n = m.shape[0] if CTX.nonneg(m.shape[1] - m.shape[0]) else (
                m.shape[1] if CTX.nonneg(m.shape[0] - m.shape[1]) else Poly.atom(('len', 'min', m.shape[0], m.shape[1])))
            return I.new_arr(Mat.fn(('diagof', m), (n,)))
        return I.top('diag')

    n_diagonal = n_diag

    def n_isclose(self, a, kw):
        return self.close(a, kw, 'isclose')

    def n_allclose(self, a, kw):
        r = self.close(a, kw, 'allclose')
        return r

    def close(self, a, kw, name):
        I = self.I
        if NONE in (a[0], a[1]):
            I.none_use('None in %s' % name)
        x, y = self.arrs(a[0]), self.arrs(a[1])
        opts = tuple(sorted(((k, I.freeze(v)) for k, v in kw.items()), key=hash)) + tuple(I.freeze(z) for z in a[2:])
        if isinstance(x, Mat) and isinstance(y, Mat):
            if x == y:
                return TRUE
            if x.ndim == 0 and y.ndim == 0:
                return Cond(('close', x - y) + opts) if False else Cond(('close', scal(x), scal(y)) + opts)
            sh = self.bshape(x.shape, y.shape)
            if name == 'allclose':
                return Cond(('allclose', self.bc(x, sh), self.bc(y, sh)) + opts)
        return Cond(('truth', I.top(name)))

    def n_array_equal(self, a, kw):
        x, y = self.arrs(a[0]), self.arrs(a[1])
        if isinstance(x, Mat) and isinstance(y, Mat):
            if x == y:
                return TRUE
            return Cond(('arrayeq', x, y))
        return Cond(('truth', self.I.top('array_equal')))

    # ------------------------------------------------------------ shape functions
    def n_reshape(self, a, kw):
        d = a[1] if len(a) > 1 else kw.get('newshape', kw.get('shape'))
        d = self.I.simplify(d)
        dims = list(d.items) if isinstance(d, Tup) else [d]
        return self.reshape(a[0], dims)

    def meth(self, name, a):
        I = self.I
        if isinstance(a[0], Ref) and isinstance(I.cell(a[0]), ArrC):
            return self.arr_method(a[0], name, list(a[1:]), {})
        if isinstance(a[0], (Poly, Mat)):
            return self.scalar_method(a[0], name, list(a[1:]), {})
        r = self.conv(a[0], False)
        if isinstance(r, Ref) and isinstance(I.cell(r), ArrC):
            return self.arr_method(r, name, list(a[1:]), {})
        return I.top(name)

    def n_ravel(self, a, kw):
        return self.meth('ravel', a)

    def n_squeeze(self, a, kw):
        return self.meth('squeeze', a)

    def n_transpose(self, a, kw):
        I = self.I
        if isinstance(a[0], Ref) and isinstance(I.cell(a[0]), ArrC):
            return self.arr_attr(a[0], I.cell(a[0]), 'T')
        r = self.conv(a[0], False)
        if isinstance(r, Ref) and isinstance(I.cell(r), ArrC):
            return self.arr_attr(r, I.cell(r), 'T')
        return I.top('transpose')

    def attr(self, name, a):
        I = self.I
        v = a[0]
        if not (isinstance(v, Ref) and isinstance(I.cell(v), ArrC)) and not isinstance(v, (Poly, Mat)):
            v = self.conv(v, False)
        return I.getattr(v, name)

    def n_shape(self, a, kw):
        return self.attr('shape', a)

    def n_size(self, a, kw):
        return self.attr('size', a)

    def n_ndim(self, a, kw):
        return self.attr('ndim', a)

    def n_linspace(self, a, kw):
        return self.I.top('linspace')

    def n_flip(self, a, kw):
        return self.I.top('flip')

    def n_cumsum(self, a, kw):
        return self.I.top('cumsum')

    def n_unique(self, a, kw):
        return self.I.top('unique')

    def n_finfo(self, a, kw):
        return Opq('finfo')

    # ------------------------------------------------------------ linear algebra
    def square(self, m, what):
        self.same(m.shape[0], m.shape[1], what + ': matrix must be square')

    def mat2(self, v, what):
        if v == NONE:
            self.I.none_use('None in ' + what)
        m = self.arrs(v)
        return m if isinstance(m, Mat) and m.ndim == 2 else None

    def n_linalg_inv(self, a, kw):
        m = self.mat2(a[0], 'inv')
        if m is None:
            return self.I.top('inv')
        self.square(m, 'inv')
        self.fallible('inverse of a singular matrix')
        return self.I.new_arr(alg.inverse_of(m))

    n_inv = n_linalg_inv

    def n_linalg_solve(self, a, kw):
        I = self.I
        m = self.mat2(a[0], 'solve')
        y = self.arrs(a[1])
        if m is None or not isinstance(y, Mat):
            return I.top('solve')
        self.square(m, 'solve')
        self.fallible('solve with a singular matrix')
        return self.new(self.dot(alg.inverse_of(m), y))

    def n_linalg_pinv(self, a, kw):
        m = self.mat2(a[0], 'pinv')
        if m is None:
            return self.I.top('pinv')
        return self.I.new_arr(Mat.fn(('pinv', m), (m.shape[1], m.shape[0])))

    n_pinv = n_linalg_pinv

    def n_linalg_cholesky(self, a, kw):
        m = self.mat2(a[0], 'cholesky')
        if m is None:
            return self.I.top('cholesky')
        self.square(m, 'cholesky')
        self.fallible('Cholesky factor of a matrix that is not positive definite')
        return self.I.new_arr(Mat.atom(('chol', m), m.shape))

    n_cholesky = n_linalg_cholesky

    def n_linalg_matrix_rank(self, a, kw):
        m = self.mat2(a[0], 'rank')
        if m is None:
            return self.I.top('matrix_rank')
        p = Poly.atom(('len', 'rank', m) + tuple(self.I.freeze(v) for _, v in sorted(kw.items())))
        for s in m.shape:
            self.I.st.hyps.append(s - p)
        return p

    n_matrix_rank = n_linalg_matrix_rank

    def n_linalg_svd(self, a, kw):
        m = self.mat2(a[0], 'svd')
        I = self.I
        if m is None:
            return Tup([I.top('svd') for _ in range(3)])
        U = I.new_arr(Mat.fn(('svdU', m), (m.shape[0], m.shape[0])))
        k = Poly.atom(('len', 'min', m.shape[0], m.shape[1]))
        s = I.new_arr(Mat.fn(('svds', m), (k,)))
        V = I.new_arr(Mat.fn(('svdV', m), (m.shape[1], m.shape[1])))
        return Tup([U, s, V])

    n_svd = n_linalg_svd

    def n_linalg_null_space(self, a, kw):
        m = self.mat2(a[0], 'null_space')
        if m is None:
            return self.I.top('null_space')
        p = Poly.atom(('len', 'rank', m))
        for s in m.shape:
            self.I.st.hyps.append(s - p)
        n = m.shape[1]
        return self.I.new_arr(Mat.make((n, n - p), [Term(ONE, (('null', m, n, n - p, False),))]))

    n_null_space = n_linalg_null_space

    def n_linalg_qr(self, a, kw):
        m = self.mat2(a[0], 'qr')
        I = self.I
        if m is None:
            return Tup([I.top('qr') for _ in range(2)])
        k = Poly.atom(('len', 'min', m.shape[0], m.shape[1]))
        for s in m.shape:
            I.st.hyps.append(s - k)
        return Tup([I.new_arr(Mat.fn(('qrQ', m), (m.shape[0], k))), I.new_arr(Mat.fn(('qrR', m), (k, m.shape[1])))])

    n_qr = n_linalg_qr

    def n_linalg_eig(self, a, kw):
        m = self.mat2(a[0], 'eig')
        I = self.I
        if m is None:
            return Tup([I.top('eig'), I.top('eig')])
        self.square(m, 'eig')
        return Tup([I.new_arr(Mat.fn(('eigvals', m), (m.shape[0],))), I.new_arr(Mat.fn(('eigvecs', m), m.shape))])

    n_eig = n_linalg_eig

    def n_linalg_eigvals(self, a, kw):
        r = self.n_linalg_eig(a, kw)
        return r.items[0] if isinstance(r, Tup) else r

    n_eigvals = n_linalg_eigvals

    def n_linalg_eigvalsh(self, a, kw):
        return self.I.top('eigvalsh')

    def n_linalg_norm(self, a, kw):
        I = self.I
        if a[0] == NONE:
            I.none_use('norm(None)')
        m = self.arrs(a[0])
        if not isinstance(m, Mat):
            return I.top('norm')
        ax = self.axis(a, kw, 2)
        o = kw.get('ord', a[1] if len(a) > 1 else NONE)
        tag = () if o in (NONE, P(2)) else (I.freeze(o),)
        if m.ndim == 0:
            return abs_scalar(push(m))
        if ax is None or m.ndim == 1:
            return Poly.atom(('norm', m) + tag)
        if ax in (1, -1):
            v = Mat.fn(('rownorm', m) + tag, (m.shape[0],))
        elif ax == 0:
            v = Mat.fn(('rownorm', m.T()) + tag, (m.shape[1],))
        else:
            return I.top('norm')
        kd = kw.get('keepdims')
        if isinstance(kd, Cond) and kd.is_true():
            v = colmat(v) if ax in (1, -1) else rowmat(v)
        return I.new_arr(v)

    n_norm = n_linalg_norm

    def n_linalg_matrix_power(self, a, kw):
        I = self.I
        m = self.mat2(a[0], 'matrix_power')
        n = I.simplify(a[1])
        if m is None or not isinstance(n, Poly):
            return I.top('matrix_power')
        self.square(m, 'matrix_power')
        if n == ZERO:
            return I.new_arr(Mat.eye(m.shape[0]))
        if n.as_int() is not None and 0 < n.as_int() <= 6:
            r = m
            for _ in range(n.as_int() - 1):
                r = alg.dot(r, m)
            return I.new_arr(r)
        w = m.single_word()
        if w is not None:
            return I.new_arr(Mat.make(m.shape, [Term(ONE, (('pow', w, n),))]))
        base = Mat.fn(('paren', m), m.shape)
        return I.new_arr(Mat.make(m.shape, [Term(ONE, (('pow', base.single_word(), n),))]))

    n_matrix_power = n_linalg_matrix_power

    def n_linalg_det(self, a, kw):
        m = self.mat2(a[0], 'det')
        return Poly.atom(('det', m)) if m is not None else self.I.top('det')

    def n_linalg_expm(self, a, kw):
        m = self.mat2(a[0], 'expm')
        if m is None:
            return self.I.top('expm')
        self.square(m, 'expm')
        return self.I.new_arr(Mat.fn(('expm', m), m.shape))

    n_expm = n_linalg_expm

    def n_linalg_solve_discrete_are(self, a, kw):
        I = self.I
        ms = [self.arrs(x) for x in a[:4]]
        if len(ms) < 4 or not all(isinstance(m, Mat) and m.ndim == 2 for m in ms):
            return I.top('solve_discrete_are')
        self.fallible('Riccati equation without stabilising solution')
        A = ms[0]
        return I.new_arr(Mat.fn(('dare',) + tuple(ms), A.shape))

    n_solve_discrete_are = n_linalg_solve_discrete_are

    # ------------------------------------------------------------ scipy
    def n_optimize_nnls(self, a, kw):
        I = self.I
        A, b = self.arrs(a[0]), self.arrs(a[1])
        if not (isinstance(A, Mat) and A.ndim == 2 and isinstance(b, Mat)):
            return Tup([I.top('nnls'), I.top('nnls')])
        self.same(A.shape[0], b.shape[0], 'nnls: sizes differ')
        x = I.new_arr(Mat.fn(('nnls', A, b), (A.shape[1],)))
        return Tup([x, Poly.atom(('nnlsres', A, b))])

    n_nnls = n_optimize_nnls

    def n_spatial_HalfspaceIntersection(self, a, kw):
        I = self.I
        return Opq('hsi', I.freeze(a[0]), I.freeze(a[1]))

    def n_spatial_ConvexHull(self, a, kw):
        I = self.I
        m = self.arrs(a[0])
        return Opq('hull', I.freeze(a[0]), I.freeze(kw.get('incremental', NONE)))

    # ------------------------------------------------------------ random
    def r_rand(self, a, kw):
        I = self.I
        dims = [I.simplify(x) for x in a]
        i = next(I.ids)
        if not dims:
            return Poly.atom(('rand', i))
        if all(isinstance(d, Poly) for d in dims) and len(dims) <= 2:
            return I.new_arr(Mat.atom('rand%d' % i, tuple(dims)))
        return I.top('rand')

    r_randn = r_rand

    def r_seed(self, a, kw):
        return NONE
