"""Array attributes, indexing, stores and methods of arrays, lists and dictionaries."""
from .poly import Poly, P, ZERO, ONE, CTX, fresh, prefix_sum, PSV
from . import alg
from .alg import Mat, Term
from .vals import *
from .npmodel import NPCore, B2, push, scal, rowmat, colmat, LV, gmat

IDX_NONE = ('newaxis',)


class NPIndex(NPCore):
    # ------------------------------------------------------------ attributes
    def arr_attr(self, o, c, name):
        I = self.I
        m = c.val
        if isinstance(m, Mat):
            if name == 'shape':
                return Tup(m.shape)
            if name == 'size':
                r = ONE
                for s in m.shape:
                    r = r * s
                return r
            if name == 'ndim':
                return P(m.ndim)
            if name == 'T':
                return I.new_arr(m.T(), c.st) if m.ndim == 2 else o
            if name == 'flat':
                return o
            if name in ('dtype', 'flags'):
                return Opq(name)
            if name == 'real':
                return o
        if isinstance(m, BVec):
            if name == 'shape':
                return Tup((m.n,))
            if name == 'size':
                return m.n
            if name == 'ndim':
                return ONE
        if isinstance(m, Top) and name in ('shape', 'size', 'ndim', 'T'):
            return I.top('attribute of unknown array')
        return Method(o, name)

    def scalar_attr(self, o, name):
        if name == 'T':
            return o
        if name == 'size':
            return ONE
        if name == 'shape':
            return Tup(())
        if name == 'ndim':
            return ZERO
        if self.I.models and name in ('x', 'X', 'Pi', 'CBasis'):
            from . import solvermodel as SM
            v = SM.var_attr(self, o, name)
            if v is not None:
                return v
        return Method(o, name)

    def elem0(self, m, i):
        return push(m.row(i)) if m.ndim == 1 else m.row(i)

    # ------------------------------------------------------------ index parsing
    def norm_idx(self, idx):
        """List of axis indices."""
        if isinstance(idx, tuple) and idx and idx[0] == 'tuple':
            parts = list(idx[1:])
        elif isinstance(idx, Tup):
            parts = list(idx.items)
        else:
            parts = [idx]
        out = []
        for p in parts:
            if isinstance(p, Ext) and p.path.endswith('newaxis') or (isinstance(p, Const) and p.v is None):
                out.append(IDX_NONE)
            elif isinstance(p, Const) and p.v is Ellipsis:
                out.append(('slice', NONE, NONE, NONE))
            else:
                out.append(p)
        return out

    def bounds(self, n, lo, hi):
        def nz(x, d):
            if x == NONE:
                return d
            if not isinstance(x, Poly):
                return None
            if CTX.nonneg(-x - 1):
                x = n + x
            return x
        a, b = nz(lo, ZERO), nz(hi, n)
        if a is None or b is None:
            return None
        if CTX.nonneg(b - n) and b != n:
            b = n
        if CTX.nonneg(a - b) and a != b:
            b = a
        return a, b

    def axis_sel(self, m, axis, p, n):
        """Selection for one axis: ('int', i) | ('rng', a, b) | ('letters', L, k) | ('rows', ps) | None."""
        I = self.I
        if isinstance(p, Poly):
            if CTX.nonneg(-p - 1):
                return ('int', n + p)
            if CTX.nonneg(p - n):
                self.fallible('index out of bounds')
                I.do_raise('IndexError', 'index out of bounds', implicit=True)
            return ('int', p)
        if isinstance(p, Mat) and p.ndim == 0:
            return None
        if isinstance(p, tuple) and p[0] == 'slice':
            st = p[3]
            if st != NONE and st != ONE:
                if st == P(-1) and p[1] == NONE and p[2] == NONE:
                    return ('letters', ('R', ('lst', n - 1 - Poly.atom(LV), LV), n, n, False), n)
                return None
            r = self.bounds(n, p[1], p[2])
            return None if r is None else ('rng',) + r
        if isinstance(p, Ref):
            c = I.cell(p)
            if isinstance(c, ArrC):
                if isinstance(c.val, BVec):
                    g = fresh('q')
                    l = I.new_list([Rep(c.val.n, g, Poly.atom(g), c.val.at(Poly.atom(g)))])
                    return self.axis_sel(m, axis, l, n)
                return None
            if isinstance(c, ListC):
                s = self.sel_of(p, n)
                if s is None:
                    return None
                self.in_range(c, n)
                if s[0] == 'E':
                    if CTX.is_zero(s[3]) is True:
                        return ('rng', ZERO, ZERO)
                    return ('fancy', s[2], s[2] + s[3])
                if s[0] == 'rows':
                    return s
                return ('letters', s, s[3])
        if isinstance(p, Tup):
            s = self.sel_of(p, n)
            if s and s[0] == 'rows':
                return s
            if s and s[0] == 'E':
                return ('fancy', s[2], s[2] + s[3])
        return None

    def in_range(self, c, n):
        """Obligation that the elements of a list are indices of an axis of size n."""
        I = self.I
        cs = []
        if c.segs is None:
            return
        for s in c.segs:
            if isinstance(s, One):
                v, q = s.v, None
            else:
                v, q = s.val, s
            if not isinstance(v, Poly):
                return
            if CTX.nonneg(v) and CTX.nonneg(n - 1 - v):
                continue
            x = cand(ige(v + n), ige(n - 1 - v))
            cs.append(x if q is None else forall(q.n, q.var, cor(cnot(q.cond), x)))
        x = cand(*cs)
        d = I.decide(x)
        if d is True:
            return
        self.fallible('index out of bounds')
        if d is False:
            I.do_raise('IndexError', 'index out of bounds', implicit=True)
        I.may_raise('IndexError', 'index out of bounds', cnot(x))
        I.assume(x, pc=False)

    def apply_sel(self, m, axis, s):
        if s[0] in ('rng', 'fancy'):
            if s[1] == ZERO and s[2] == m.shape[axis]:
                return m
            return m.row_slice(s[1], s[2]) if axis == 0 else m.col_slice(s[1], s[2])
        if s[0] == 'letters':
            L = s[1]
            if axis == 0:
                return m.left((L,), (s[2],) + m.shape[1:])
            return m.right((alg.transpose_letter(L),), (m.shape[0], s[2]))
        if s[0] == 'rows':
            ps = s[1]
            k = P(len(ps))
            acc = Mat.zeros(((k,) + m.shape[1:]) if axis == 0 else (m.shape[0], k))
            for i, p in enumerate(ps):
                if axis == 0:
                    x = m.left((('E', k, P(i), ONE, False), ('E', m.shape[0], p, ONE, True)), acc.shape)
                else:
                    x = m.right((('E', m.shape[1], p, ONE, False), ('E', k, P(i), ONE, True)), acc.shape)
                acc = acc + x
            return acc

    def optional(self, p):
        """Position of a list element that is there only under an undecided condition, in a short list of numbers."""
        I = self.I
        if not isinstance(p, Ref) or not isinstance(I.cell(p), ListC):
            return None
        segs = I.cell(p).segs
        if segs is None or len(segs) > 6 or not all(isinstance(s, One) or s.n == ONE for s in segs):
            return None
        return next((i for i, s in enumerate(segs) if not isinstance(s, One) and not s.cond.is_true()), None)

    def choose(self, p, i, f):
        I = self.I
        c = I.cell(p)
        s = c.segs[i]

        def arm(mid):
            I.st.heap[p.id] = ListC(c.segs[:i] + mid + c.segs[i + 1:], c.kind)
            return f()
        z = {s.var: ZERO}
        return I.split(s.cond.subst(z), lambda: arm((One(I.thaw(s.val.subst(z))),)), lambda: arm(()))

    def arr_get(self, o, c, idx):
        I = self.I
        m = c.val
        parts = self.norm_idx(idx)
        for p in parts:
            g = self.optional(p)
            if g is not None:
                return self.choose(p, g, lambda: self.arr_get(o, c, idx))
        if isinstance(m, BVec):
            p = parts[0]
            if len(parts) == 1 and isinstance(p, Poly):
                return m.at(m.n + p if CTX.nonneg(-p - 1) else p)
            if len(parts) == 1 and isinstance(p, tuple) and p[0] == 'slice':
                r = self.bounds(m.n, p[1], p[2])
                if r is not None:
                    g = fresh('q')
                    return self.new(BVec(r[1] - r[0], g, m.at(Poly.atom(g) + r[0])), c.st)
            return I.top('boolean array item')
        if not isinstance(m, Mat):
            return I.top('item of unknown array')
        if any(p == NONE for p in parts if isinstance(p, Val)):
            I.none_use('None as index')
        # newaxis
        if IDX_NONE in parts:
            if m.ndim == 1 and len(parts) == 2:
                other = parts[1] if parts[0] == IDX_NONE else parts[0]
                if isinstance(other, tuple) and other[:1] == ('slice',):
                    b = self.bounds(m.shape[0], other[1], other[2])
                    if b is not None:
                        mm = self.apply_sel(m, 0, ('rng',) + b)
                        return self.new(rowmat(mm) if parts[0] == IDX_NONE else colmat(mm), c.st)
            if m.ndim == 1 and len(parts) == 1:
                return self.new(rowmat(m), c.st)
            return I.top('newaxis')
        if len(parts) > m.ndim:
            self.fallible('too many indices')
            I.do_raise('IndexError', 'too many indices', implicit=True)
        sels = []
        for ax, p in enumerate(parts):
            s = self.axis_sel(m, ax, p, m.shape[ax])
            if s is None:
                return I.top('array index')
            sels.append(s)
        fancy = any(s[0] in ('fancy', 'letters', 'rows') for s in sels)
        st = None if fancy else c.st
        if m.ndim == 1:
            s = sels[0]
            if s[0] == 'int':
                return push(m.row(s[1]))
            return self.new(self.apply_sel(m, 0, s), st)
        if m.ndim == 2:
            if len(sels) == 1:
                if sels[0][0] == 'int':
                    return self.new(m.row(sels[0][1]), st)
                return self.new(self.apply_sel(m, 0, sels[0]), st)
            a, b = sels
            if a[0] == 'int' and b[0] == 'int':
                return push(m.elem(a[1], b[1]))
            if a[0] in ('fancy', 'letters', 'rows') and b[0] in ('fancy', 'letters', 'rows'):
                return I.top('paired fancy index')
            if a[0] == 'int':
                return self.new(self.apply_sel(m, 1, b).row(a[1]), st)
            if b[0] == 'int':
                return self.new(self.apply_sel(m, 0, a).col(b[1]), st)
            return self.new(self.apply_sel(self.apply_sel(m, 0, a), 1, b), st)
        return I.top('index')

    # ------------------------------------------------------------ stores
    def arr_set(self, o, c, idx, v):
        I = self.I
        m = c.val
        if v == NONE:
            I.none_use('None stored in an array')
        parts = self.norm_idx(idx)
        if isinstance(m, BVec) and len(parts) == 1 and isinstance(parts[0], Poly) and isinstance(v, Cond):
            g = fresh('q')
            e = ieq(Poly.atom(g) - parts[0])
            I.write_array(o, BVec(m.n, g, cor(cand(e, v), cand(cnot(e), m.at(Poly.atom(g))))), 'item store')
            return
        val = self.arrs(v)
        if isinstance(v, Gamma):
            val = gmat(v)
        if not isinstance(m, Mat) or not isinstance(val, Mat):
            I.write_array(o, I.top('store'), 'item store')
            return
        sels = []
        for ax, p in enumerate(parts):
            s = self.axis_sel(m, ax, p, m.shape[ax]) if ax < m.ndim and p != IDX_NONE else None
            if s is None:
                I.write_array(o, I.top('store index'), 'item store')
                return
            sels.append(s)
        rows = next((ax for ax, s in enumerate(sels) if s[0] == 'rows'), None)
        if rows is not None:
            ps = list(sels[rows][1])
            if any(s[0] in ('fancy', 'letters', 'rows') for ax, s in enumerate(sels) if ax != rows):
                I.write_array(o, I.top('store index'), 'item store')
                return
            vax = rows - sum(1 for s in sels[:rows] if s[0] == 'int')
            if not ps:
                I.write_array(o, m, 'item store')
                return
            vd = val.ndim
            tnd = sum(1 for s in sels if s[0] != 'int') + m.ndim - len(sels)
            vax -= tnd - vd
            if vax >= 0 and val.shape[vax] != ONE:
                self.same(val.shape[vax], P(len(ps)), 'could not broadcast the stored value')
            for j, pj in enumerate(ps):
                ix = [s_ if ax != rows else pj for ax, s_ in enumerate(parts)]
                if vax < 0:
                    piece = val
                elif val.shape[vax] == ONE:
                    piece = val.row(ZERO) if vax == 0 else val.col(ZERO)
                else:
                    piece = val.row(P(j)) if vax == 0 else val.col(P(j))
                pv = alg.scalar_poly(piece) if piece.ndim == 0 else self.new(piece)
                c = I.cell(o)
                self.arr_set(o, c, ix[0] if len(ix) == 1 else ('tuple',) + tuple(ix), pv)
            return
        def letters(s, n):
            if s[0] == 'int':
                return (('E', n, s[1], ONE, True),), ONE
            if s[0] in ('rng', 'fancy'):
                return (('E', n, s[1], s[2] - s[1], True),), s[2] - s[1]
            if s[0] == 'letters':
                return (s[1],), s[2]
            return None, None
        L, k = letters(sels[0], m.shape[0])
        if L is None:
            I.write_array(o, I.top('store index'), 'item store')
            return
        LT = alg.transpose_word(L)
        if m.ndim == 1:
            tgt = () if sels[0][0] == 'int' else (k,)
            val = self.fit(val, tgt)
            if val is None:
                I.write_array(o, I.top('store'), 'item store')
                return
            col = Mat((k,), dict(val.terms)) if val.ndim == 0 else val
            r = m - m.left(LT + L, m.shape) + col.left(LT, m.shape)
            I.write_array(o, r, 'item store')
            return
        if len(sels) == 1:
            R, kc = (), m.shape[1]
            full = True
        else:
            R, kc = letters(sels[1], m.shape[1])
            if R is None:
                I.write_array(o, I.top('store index'), 'item store')
                return
            full = False
        tgt = tuple(x for x, s in zip((k, kc), sels + [('rng',)] if full else sels) if s[0] != 'int')
        val = self.fit(val, tgt)
        if val is None:
            I.write_array(o, I.top('store'), 'item store')
            return
        # as a k x kc matrix
        if val.ndim == 1:
            val = rowmat(val) if sels[0][0] == 'int' else colmat(val)
        elif val.ndim == 0:
            val = Mat((ONE, ONE), dict(val.terms))
        RT = alg.transpose_word(R) if R else ()
        old = m.left(LT + L, m.shape)
        new = val.left(LT, (m.shape[0], val.shape[1]))
        if not full:
            old = old.right(RT + R, m.shape)
            new = new.right(R, m.shape)
        I.write_array(o, m - old + new, 'item store')

    def fit(self, val, tgt):
        if val.ndim > len(tgt):
            if val.ndim == 2 and len(tgt) == 1 and val.shape[0] == ONE:
                return self.fit(val.row(ZERO), tgt)
            if val.ndim == 1 and len(tgt) == 0 and val.shape[0] == ONE:
                return val.row(ZERO)
            return None
        if val.ndim == len(tgt):
            for a, b in zip(val.shape, tgt):
                if a != ONE or b == ONE:
                    self.same(a, b, 'could not broadcast the stored value')
        return self.bc(val, tgt) if tgt else val

    # ------------------------------------------------------------ array methods
    MUTATORS = {'sort', 'fill', 'resize', 'itemset', 'partition', 'put', 'setfield', 'byteswap'}

    def arr_method(self, o, name, args, kwargs):
        I = self.I
        c = I.cell(o)
        if name in self.MUTATORS:
            I.write_array(o, I.top(name), '.%s()' % name)
            return NONE
        self.check_out(kwargs)
        m = c.val
        if name == 'dot':
            return self.call('numpy.dot', [o] + list(args), kwargs)
        if name in ('copy', '__copy__', '__deepcopy__'):
            return self.new(m) if isinstance(m, (Mat, BVec)) else I.new_arr(m)
        if name == 'astype':
            return self.new(m) if isinstance(m, (Mat, BVec)) else I.new_arr(m)
        if name in ('tolist',):
            if isinstance(m, Mat) and m.ndim == 1:
                k = fresh('i')
                CTX.ranges[k] = (ZERO, m.shape[0])
                return I.new_list([Rep(m.shape[0], k, push(m.row(Poly.atom(k))))])
            if isinstance(m, BVec):
                k = fresh('i')
                return I.new_list([Rep(m.n, k, m.at(Poly.atom(k)))])
            return I.top('tolist')
        if name in ('flatten', 'ravel'):
            st = c.st if name == 'ravel' else None
            if isinstance(m, Mat):
                if m.ndim == 1:
                    return self.new(m, st)
                if m.ndim == 2 and m.shape[1] == ONE:
                    return self.new(m.col(ZERO), st)
                if m.ndim == 2 and m.shape[0] == ONE:
                    return self.new(m.row(ZERO), st)
                return self.new(Mat.fn(('flat', m), (m.shape[0] * m.shape[1],)), st)
            return I.top('flatten')
        if name == 'squeeze':
            if isinstance(m, Mat):
                if m.ndim == 2 and m.shape[1] == ONE:
                    return self.new(m.col(ZERO), c.st)
                if m.ndim == 2 and m.shape[0] == ONE:
                    return self.new(m.row(ZERO), c.st)
                return o
        if name == 'reshape':
            a = list(args)
            if len(a) == 1 and isinstance(I.simplify(a[0]), Tup):
                a = list(I.simplify(a[0]).items)
            return self.reshape(o, a)
        if name == 'transpose' and not args:
            return self.arr_attr(o, c, 'T')
        if name in ('max', 'min', 'sum', 'all', 'any', 'mean', 'argmax', 'argmin', 'prod', 'round', 'cumsum', 'nonzero'):
            return self.call('numpy.' + name, [o] + list(args), kwargs)
        if name == 'item' and isinstance(m, Mat) and m.ndim >= 1:
            if m.ndim == 1:
                return push(m.row(args[0] if args and isinstance(args[0], Poly) else ZERO))
            if m.ndim == 2 and not args:
                return push(m.elem(ZERO, ZERO))
        if name == '__len__':
            return self.call('builtins.len', [o], {})
        return I.top('array method %s' % name)

    def check_out(self, kwargs):
        I = self.I
        o = kwargs.get('out')
        if o is not None and o != NONE:
            def f(o):
                if isinstance(o, Ref) and isinstance(I.cell(o), ArrC):
                    I.write_array(o, I.top('out='), 'out= argument')
                return NONE
            I.lift(f, o)
        for k, v in kwargs.items():
            if k.startswith('overwrite') and isinstance(v, Cond) and v.is_true():
                return True
        return False

    def reshape(self, o, dims):
        I = self.I
        m = I.arr(o)
        st = I.storage(o) or None
        dims = [I.simplify(d) for d in dims]
        if not isinstance(m, Mat) or not all(isinstance(d, Poly) for d in dims):
            return I.top('reshape')
        n = ONE
        for s in m.shape:
            n = n * s
        # -1
        if any(d == P(-1) for d in dims):
            others = [d for d in dims if d != P(-1)]
            if len(others) == 1 and others[0] == ONE:
                dims = [n if d == P(-1) else d for d in dims]
            elif not others:
                dims = [n]
            elif len(others) == 1 and m.ndim == 2 and others[0] in m.shape:
                oth = m.shape[1] if others[0] == m.shape[0] else m.shape[0]
                dims = [oth if d == P(-1) else d for d in dims]
            else:
                return I.top('reshape')
        tot = ONE
        for d in dims:
            tot = tot * d
        self.same(tot, n, 'cannot reshape')
        v = None
        if m.ndim == 1:
            v = m
        elif m.ndim == 2 and m.shape[1] == ONE:
            v = m.col(ZERO)
        elif m.ndim == 2 and m.shape[0] == ONE:
            v = m.row(ZERO)
        if len(dims) == m.ndim and all(a == b for a, b in zip(dims, m.shape)):
            return I.new_arr(m, st)
        if v is not None:
            if len(dims) == 1:
                return self.new(v, st)
            if len(dims) == 2 and dims[1] == ONE:
                return self.new(colmat(v), st)
            if len(dims) == 2 and dims[0] == ONE:
                return self.new(rowmat(v), st)
        return self.new(Mat.fn(('reshape', m) + tuple(dims), tuple(dims)), st) if len(dims) <= 2 else I.top('reshape')

    def scalar_method(self, o, name, args, kwargs):
        I = self.I
        if I.models and name in ('setAttr', 'getAttr') and args and isinstance(I.simplify(args[0]), Const):
            from . import solvermodel as SM
            if SM.model_of(self, o) is not None:
                if name == 'setAttr':
                    SM.set_var(self, o, I.simplify(args[0]).v, I.simplify(args[1]))
                    return NONE
                return SM.var_attr(self, o, I.simplify(args[0]).v)
        if name in ('dot',):
            return self.call('numpy.dot', [o] + list(args), kwargs)
        if name in ('flatten', 'ravel'):
            return I.new_arr(Mat((ONE,), dict(self.arrs(o).terms)))
        if name in ('item', 'copy', 'astype', 'conjugate', 'squeeze', 'tolist', 'max', 'min', 'sum'):
            return o
        if name in ('is_integer',):
            return Cond(('truth', I.top(name)))
        if name in ('all', 'any'):
            return I.truth(o)
        return I.top('scalar method %s' % name)

    # ------------------------------------------------------------ lists
    def list_method(self, o, name, args, kwargs):
        I = self.I
        c = I.cell(o)
        args = [I.simplify(a) if isinstance(a, Val) else a for a in args]
        mut = name in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear', 'add', 'update',
                       'discard', 'intersection_update', 'difference_update', 'symmetric_difference_update')
        if mut:
            I.write_cell(o, c.kind, name)
        if name in ('append', 'add'):
            if c.kind == 'set':
                return self.set_add(o, args[0])
            segs = None if c.segs is None else c.segs + (One(args[0]),)
            I.st.heap[o.id] = ListC(segs, c.kind, self.note_op(c, 'append', args))
            return NONE
        if name in ('extend', 'update') and args:
            def f(a):
                cc = I.cell(o)
                s = I.iter_segs(a)
                I.st.heap[o.id] = ListC(None if cc.segs is None or s is None else cc.segs + tuple(s), cc.kind,
                                        self.note_op(cc, 'extend', args))
                return NONE
            return I.lift(f, args[0])
        if name == 'insert':
            segs = None
            if c.segs is not None and isinstance(args[0], Poly):
                i = args[0].as_int()
                if i == 0:
                    segs = (One(args[1]),) + c.segs
                elif i is not None and 0 <= i <= len(c.segs) and all(isinstance(s, One) for s in c.segs):
                    segs = c.segs[:i] + (One(args[1]),) + c.segs[i:]
            I.st.heap[o.id] = ListC(segs, c.kind)
            return NONE
        if name == 'pop' and not (args and isinstance(args[0], Poly) and args[0].as_int() is not None and explicit(c)):
            if c.segs:
                i = args[0].as_int() if args and isinstance(args[0], Poly) else (None if args else -1)
                if i == -1 and isinstance(c.segs[-1], One):
                    I.st.heap[o.id] = ListC(c.segs[:-1], c.kind)
                    return c.segs[-1].v
                if i == 0 and isinstance(c.segs[0], One):
                    I.st.heap[o.id] = ListC(c.segs[1:], c.kind)
                    return c.segs[0].v
            I.st.heap[o.id] = ListC(None, c.kind, self.note_op(c, 'pop', args))
            return I.top('pop')
        ex = explicit(c) if name in ('remove', 'discard', 'sort', 'index', 'count', 'pop') else None
        if ex is not None:
            a0 = args[0].as_int() if args and isinstance(args[0], Poly) else None
            if name in ('remove', 'discard') and a0 is not None:
                if a0 in ex:
                    i = ex.index(a0)
                    I.st.heap[o.id] = ListC(tuple(One(P(x)) for x in ex[:i] + ex[i + 1:]), c.kind)
                elif name == 'remove':
                    I.do_raise('ValueError', 'list.remove(x): x not in list', True)
                return NONE
            if name == 'sort' and not kwargs:
                I.st.heap[o.id] = ListC(tuple(One(P(x)) for x in sorted(ex)), c.kind)
                return NONE
            if name == 'count' and a0 is not None:
                return P(ex.count(a0))
            if name == 'index' and a0 is not None and len(args) == 1:
                if a0 not in ex:
                    I.do_raise('ValueError', 'x not in list', True)
                return P(ex.index(a0))
            if name == 'pop' and a0 is not None and -len(ex) <= a0 < len(ex):
                x = ex.pop(a0)
                I.st.heap[o.id] = ListC(tuple(One(P(y)) for y in ex), c.kind)
                return P(x)
        if name in ('remove', 'discard'):
            I.st.heap[o.id] = ListC(None, c.kind, self.note_op(c, 'remove', args))
            return NONE
        if name == 'clear':
            I.st.heap[o.id] = ListC((), c.kind)
            return NONE
        if name == 'sort':
            if not self.is_sorted(c):
                I.st.heap[o.id] = ListC(None, c.kind, self.note_op(c, 'sort', args))
            return NONE
        if name == 'reverse':
            if c.segs is not None and all(isinstance(s, One) for s in c.segs):
                I.st.heap[o.id] = ListC(tuple(reversed(c.segs)), c.kind)
            else:
                r = I.list_slice(c, ('slice', NONE, NONE, P(-1))) if c.segs is not None else None
                I.st.heap[o.id] = ListC(I.cell(r).segs if r is not None else None, c.kind)
            return NONE
        if name in ('copy', 'tolist', 'astype', 'flatten', 'ravel'):
            return I.alloc(ListC(c.segs, c.kind, c.note))
        if name == 'index':
            if c.segs is not None and isinstance(args[0], Poly):
                r = I.list_len(c)
            f = I.freeze(o)
            return Poly.atom(('int', 'index', f, I.freeze(args[0])))
        if name == 'count':
            return Poly.atom(('int', 'count', I.freeze(o), I.freeze(args[0])))
        if name == '__len__':
            return self.call('builtins.len', [o], {})
        if name in ('union', 'symmetric_difference', 'difference', 'intersection'):
            return self.set_op({'union': 'BitOr', 'symmetric_difference': 'BitXor', 'difference': 'Sub',
                                'intersection': 'BitAnd'}[name], o, args[0])
        if name in ('any', 'all', 'sum', 'max', 'min', 'dot'):
            return self.call('numpy.' + name, [o] + args, kwargs)
        return I.top('list method %s' % name)

    def note_op(self, c, op, args):
        """Symbolic note of lists whose contents are only known as an expression."""
        I = self.I
        if c.note is not None:
            base = c.note
        elif c.segs is not None:
            base = I.freeze_content(ListC(c.segs, c.kind), ())
        else:
            return None
        return Opq('l' + op, base, *[I.freeze(a) if isinstance(a, Val) or True else a for a in args])

    def is_sorted(self, c):
        if c.segs is None:
            return False
        if not c.segs:
            return True
        if len(c.segs) == 1:
            s = c.segs[0]
            if isinstance(s, One):
                return True
            if isinstance(s.val, Poly):
                ab = s.val.coeff(s.var)
                return ab is not None and CTX.nonneg(ab[0])
        if all(isinstance(s, One) and isinstance(s.v, Poly) for s in c.segs):
            return all(CTX.nonneg(b.v - a.v) for a, b in zip(c.segs, c.segs[1:]))
        return False

    def set_add(self, o, v):
        I = self.I
        c = I.cell(o)
        if c.segs is None:
            return NONE
        cond = FALSE
        for s in c.segs:
            if isinstance(s, One):
                cond = cor(cond, I.truth(I.simplify(I.compare('Eq', s.v, v))))
            else:
                cond = cor(cond, I.contains(v, o))
        def add():
            cc = I.cell(o)
            I.st.heap[o.id] = ListC(cc.segs + (One(v),), 'set')
            return NONE
        I.split(cond, lambda: NONE, add)
        return NONE

    def mkset(self, segs):
        I = self.I
        o = I.new_list([], 'set')
        if segs is None:
            I.st.heap[o.id] = ListC(None, 'set')
            return o
        for s in segs:
            def go(s=s):
                if isinstance(s, One):
                    I.lift(lambda x: self.set_add(x, I.simplify(s.v)), o)
                else:
                    if s.var not in s.val.free_vars() and s.cond.is_true():
                        I.lift(lambda x: self.set_add(x, I.thaw(s.val)), o)
                    else:
                        c = I.cell(o)
                        if isinstance(c, ListC) and c.segs is not None:
                            I.st.heap[o.id] = ListC(c.segs + (s,), 'set')
                        else:
                            I.st.heap[o.id] = ListC(None, 'set')
            go()
        return o

    def set_op(self, op, a, b):
        I = self.I
        return I.alloc(ListC(None, 'set', Opq('set' + op, I.freeze(a), I.freeze(b))))

    # ------------------------------------------------------------ dictionaries
    def dict_method(self, o, name, args, kwargs):
        I = self.I
        c = I.cell(o)
        args = [I.simplify(a) if isinstance(a, Val) else a for a in args]
        if name == 'get':
            k = args[0]
            if k in c.d:
                return I.simplify(c.d[k])
            if c.open:
                return I.top('dict item')
            return args[1] if len(args) > 1 else NONE
        if name == 'update':
            I.write_cell(o, 'dict', 'update')
            d, op = dict(c.d), c.open
            for a in args:
                if isinstance(a, Ref) and isinstance(I.cell(a), DictC):
                    d.update(I.cell(a).d)
                    op = op or I.cell(a).open
                else:
                    op = True
            for k, v in kwargs.items():
                d[Const(k)] = v
            I.st.heap[o.id] = DictC(d, op)
            return NONE
        if name == 'items':
            if c.open:
                return I.new_list(None)
            return I.new_list([One(Tup((k, v))) for k, v in c.d.items()])
        if name == 'keys':
            return I.new_list([One(k) for k in c.d] if not c.open else None)
        if name == 'values':
            return I.new_list([One(v) for v in c.d.values()] if not c.open else None)
        if name == 'copy':
            return I.alloc(DictC(dict(c.d), c.open))
        if name in ('pop', 'setdefault', 'clear', 'popitem'):
            I.write_cell(o, 'dict', name)
            d = dict(c.d)
            r = I.top('dict.' + name)
            if name == 'clear':
                d = {}
            elif args and args[0] in d:
                r = d[args[0]]
                if name == 'pop':
                    d.pop(args[0])
            elif name == 'setdefault':
                r = args[1] if len(args) > 1 else NONE
                d[args[0]] = r
            I.st.heap[o.id] = DictC(d, c.open)
            return r
        return I.top('dict method %s' % name)


def explicit(c):
    """The elements of a list of known integers, or None."""
    if c.segs is None:
        return None
    out = []
    for s in c.segs:
        if isinstance(s, One):
            v = s.v.as_int() if isinstance(s.v, Poly) else None
            if v is None:
                return None
            out.append(v)
            continue
        n = s.n.as_int()
        if n is None or not isinstance(s.val, Poly) or not s.cond.is_true():
            return None
        for j in range(n):
            v = s.val.subst({s.var: P(j)}).as_int()
            if v is None:
                return None
            out.append(v)
    return out
