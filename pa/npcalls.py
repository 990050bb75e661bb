"""Calls of builtins, numpy, scipy, copy, sympy-like and solver objects."""
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, CTX, fresh, prefix_sum, PSV, assuming
from . import alg
from .alg import Mat, Term
from .vals import *
from .vals import _as_scalar_mat
from .npmodel import B2, push, scal, rowmat, colmat, to2d_row, diag, recip, abs_scalar, LV, gmat
from .npopq import NPOpq

WRITERS = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
           'numpy.random.shuffle': 0, 'numpy.put_along_axis': 0}


class NP(NPOpq):
    def call(self, path, args, kwargs):
        I = self.I
        name = path
        for pre in ('builtins.', 'six.moves.', 'numpy.', 'scipy.', 'copy.'):
            pass
        args = [I.simplify(a) if isinstance(a, Val) else a for a in args]
        kwargs = {k: I.simplify(v) for k, v in kwargs.items()}
        if path in WRITERS:
            def w(a):
                if isinstance(a, Ref) and isinstance(I.cell(a), ArrC):
                    I.write_array(a, I.top(path), path)
                return NONE
            I.lift(w, args[0])
            return NONE
        ow = self.check_out(kwargs)
        if ow and args:
            def w2(a):
                if isinstance(a, Ref) and isinstance(I.cell(a), ArrC):
                    I.write_array(a, I.cell(a).val, 'overwrite option of ' + path)
                return NONE
            I.lift(w2, args[0])
        base = path.split('.')
        if path == 'builtins.dict.fromkeys':
            h = self.b_fromkeys
        elif base[0] in ('builtins', 'six'):
            h = getattr(self, 'b_' + base[-1], None)
        elif base[0] == 'copy':
            h = getattr(self, 'c_' + base[-1], None)
        elif base[0] in ('numpy', 'scipy'):
            h = getattr(self, 'n_' + '_'.join(base[1:]), None) or getattr(self, 'n_' + base[-1], None)
            if base[1:2] == ['random']:
                I.ev('random', path=path)
                h = getattr(self, 'r_' + base[-1], None)
                if h is None:
                    return I.top('random')
        elif base[0] == 'functools' and base[-1] == 'reduce':
            h = self.b_reduce
        elif base[0] == 'itertools':
            h = getattr(self, 'it_' + base[-1], None)
        elif base[0] == 'math':
            h = getattr(self, 'n_' + base[-1], None)
        elif base[0] in ('gurobipy', 'pydrake'):
            h = None
            from . import solvermodel
            return solvermodel.call(self, path, args, kwargs)
        elif base[0] == 'random':
            I.ev('random', path=path)
            return I.top('random')
        else:
            h = None
        if h is not None:
            return self.lift_call(h, args, kwargs)
        return self.unknown_call(path, args, kwargs)

    def lift_call(self, h, args, kwargs):
        """Resolve gammas among positional arguments before calling."""
        I = self.I
        plain = [a for a in args]
        idx = [i for i, a in enumerate(plain) if isinstance(a, Val) and not isinstance(a, tuple)]
        ks = list(kwargs)
        vals = [plain[i] for i in idx] + [kwargs[k] for k in ks]

        def f(*vs):
            a = list(plain)
            for i, v in zip(idx, vs):
                a[i] = v
            kw = dict(zip(ks, vs[len(idx):]))
            return h(a, kw)
        return I.lift(f, *vals)

    def unknown_call(self, path, args, kwargs):
        I = self.I
        try:
            fa = tuple(I.freeze(a[1] if isinstance(a, tuple) else a) for a in args)
            fk = tuple(sorted(((k, I.freeze(v)) for k, v in kwargs.items()), key=hash))
        except Exception:
            return I.top('call ' + path)
        I.ev('extcall', path=path)
        return Opq('ext', path, *(fa + fk))

    # ------------------------------------------------------------ builtins
    def b_range(self, a, kw):
        I = self.I
        lo, hi, st = ZERO, None, ONE
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) > 2:
                st = a[2]
        if NONE in (lo, hi, st):
            I.none_use('range of None')
        if not all(isinstance(x, Poly) for x in (lo, hi, st)):
            return I.new_list(None)
        if st == ONE:
            n = hi - lo
            if not CTX.nonneg(n):
                if CTX.nonneg(-n):
                    n = ZERO
                else:
                    # empty when negative
                    c = ige(n)
                    return I.split(c, lambda: self.mkrange(lo, hi - lo, 1), lambda: I.new_list([]))
            return self.mkrange(lo, n, 1)
        if st == P(-1):
            n = lo - hi
            if not CTX.nonneg(n):
                if CTX.nonneg(-n):
                    n = ZERO
                else:
                    c = ige(n)
                    return I.split(c, lambda: self.mkrange(lo, lo - hi, -1), lambda: I.new_list([]))
            return self.mkrange(lo, n, -1)
        s = st.as_int()
        if s is not None and s > 0 and lo == ZERO:
            q, r = hi.divmono(P(s)) if all(c.denominator == 1 for c in (hi * P(Fraction(1, s))).t.values()) else (None, None)
            if q is not None and not r.t:
                k = fresh('i')
                CTX.ranges[k] = (ZERO, q)
                return I.new_list([Rep(q, k, Poly.atom(k) * s)])
        if len(st.t) == 1 and st.const() is None:
            q, r = (hi - lo).divmono(st)
            if not r.t:
                k = fresh('i')
                CTX.ranges[k] = (ZERO, q)
                return I.new_list([Rep(q, k, lo + Poly.atom(k) * st)])
        return I.new_list(None)

    b_xrange = b_range

    def mkrange(self, lo, n, s):
        I = self.I
        c = n.as_int()
        if c is not None and c <= 3:
            return I.new_list([One(lo + i * s) for i in range(max(c, 0))])
        k = fresh('i')
        CTX.ranges[k] = (ZERO, n)
        return I.new_list([Rep(n, k, lo + Poly.atom(k) * s)])

    def n_arange(self, a, kw):
        return self.b_range([x for x in a if isinstance(x, Poly)], kw)

    def b_len(self, a, kw):
        I = self.I
        v = a[0]
        if v == NONE:
            I.none_use('len of None')
        if isinstance(v, Tup):
            return P(len(v.items))
        if isinstance(v, Ref):
            c = I.cell(v)
            if isinstance(c, ListC):
                if c.kind == 'set':
                    if c.segs is not None and all(isinstance(s, One) for s in c.segs):
                        return P(len(c.segs))
                    return Poly.atom(('len', 'set', I.freeze(v) if c.segs is not None else I.top('set')))
                n = I.list_len(c)
                if n is None:
                    if c.note is not None:
                        return Poly.atom(('len', 'note', c.note))
                    return Poly.atom(('len', 'TOP', next(I.ids)))
                return n
            if isinstance(c, ArrC):
                if isinstance(c.val, Mat):
                    return c.val.shape[0]
                if isinstance(c.val, BVec):
                    return c.val.n
            if isinstance(c, DictC):
                return P(len(c.d))
        if isinstance(v, Const) and isinstance(v.v, str):
            return P(len(v.v))
        if isinstance(v, Opq):
            return self.opq_len(v)
        return Poly.atom(('len', 'TOP', next(I.ids)))

    def opq_len(self, v):
        if v.name == 'symvec':
            return v.args[1]
        return Poly.atom(('len', v))

    def b_enumerate(self, a, kw):
        I = self.I
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        segs = I.iter_segs(a[0])
        if segs is None or not isinstance(start, Poly):
            return I.new_list(None)
        out, pos = [], start
        for s in segs:
            if isinstance(s, One):
                out.append(One(Tup((pos, s.v))))
                pos = pos + 1
            elif s.cond.is_true():
                out.append(Rep(s.n, s.var, Tup((pos + Poly.atom(s.var), s.val))))
                pos = pos + s.n
            else:
                # position among the elements that pass the filter: how many of the earlier ones do
                g = canon_rep(s.n, s.var, ZERO, s.cond)
                k = fresh('i')
                h = canon_rep(Poly.atom(s.var), k, ZERO, s.cond.subst({s.var: Poly.atom(k)}))
                cnt = Poly.atom(('len', 'filter', h[1], h[2], h[4]))
                out.append(Rep(s.n, s.var, Tup((pos + cnt, s.val)), s.cond))
                pos = pos + Poly.atom(('len', 'filter', g[1], g[2], g[4]))
        return I.new_list(out)

    def b_zip(self, a, kw):
        I = self.I
        a = I.flat(a)
        if a is None:
            return I.new_list(None)
        ss = [I.iter_segs(x) for x in a]
        if any(s is None for s in ss):
            return I.new_list(None)
        if all(all(isinstance(s, One) for s in x) for x in ss):
            return I.new_list([One(Tup([s.v for s in t])) for t in zip(*ss)])
        if all(len(x) == 1 and isinstance(x[0], Rep) and x[0].cond.is_true() for x in ss):
            n = ss[0][0].n
            for x in ss[1:]:
                d = x[0].n - n
                if CTX.is_zero(d) is True or CTX.nonneg(d):
                    continue
                if CTX.nonneg(-d):
                    n = x[0].n
                    continue
                return I.new_list(None)
            k = fresh('i')
            CTX.ranges[k] = (ZERO, n)
            return I.new_list([Rep(n, k, Tup([x[0].val.subst({x[0].var: Poly.atom(k)}) for x in ss]))])
        # general: element-wise when lengths agree
        lens = [I.list_len(ListC(tuple(x), 'list')) for x in ss]
        if all(l is not None for l in lens):
            n = lens[0]
            ok = True
            for l in lens[1:]:
                if CTX.nonneg(l - n):
                    continue
                if CTX.nonneg(n - l):
                    n = l
                    continue
                ok = False
            if ok:
                k = fresh('i')
                CTX.ranges[k] = (ZERO, n)
                vals = []
                for x in ss:
                    l = I.new_list(x)
                    v = I.list_get(l, I.cell(l), Poly.atom(k))
                    vals.append(I.freeze(v))
                if not any(isinstance(v, Top) for v in vals):
                    return I.new_list([Rep(n, k, Tup(vals))])
        return I.new_list(None)

    def b_sum(self, a, kw):
        I = self.I
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return self.sum_segs(I.iter_segs(a[0]), start)

    def drop_small(self, v, cond):
        return drop_small(v, cond)

    def sum_segs(self, segs, acc):
        I = self.I
        if segs is None:
            return I.top('sum')
        first = True
        for s in segs:
            if isinstance(s, One):
                acc = s.v if (isinstance(acc, Poly) and acc == ZERO) else I.binop('Add', acc, s.v)
                continue
            v = s.val
            if isinstance(v, Gamma):
                g = gmat(v)
                v = g if g is not None else v
            cond = s.cond
            if not cond.is_true():
                v2 = drop_small(v, cond)
                if v2 is not None:
                    v, cond = v2, TRUE
            if isinstance(v, Cond) and cond.is_true():
                g = canon_rep(s.n, s.var, ZERO, v)
                acc = I.binop('Add', acc, Poly.atom(('len', 'filter', g[1], g[2], g[4])))
                continue
            if isinstance(v, Poly) and is_int(v) and cond.is_true():
                acc = I.binop('Add', acc, prefix_sum(v.subst({s.var: Poly.atom(PSV)}), s.n))
                continue
            m = v.val if isinstance(v, FArr) else (Mat.scalar(v) if isinstance(v, Poly) else v)
            if not isinstance(m, Mat):
                return I.top('sum of unknown')
            if not cond.is_true():
                from .npmodel import cond_guards
                gl = cond_guards(cond)
                ts = []
                if gl is None:
                    k = Poly.atom(('ind', cond))      # one where the filter holds, zero elsewhere
                    for t in m.term_list():
                        ts.append(Term(t.coef * k, t.word, t.binders, t.guards))
                for gs in gl or ():
                    for t in m.term_list():
                        ts.append(Term(t.coef, t.word, t.binders, t.guards + tuple(gs)))
                with assuming({s.var: (ZERO, s.n)}):
                    m = Mat.make(m.shape, ts)
            g = fresh('k')
            r = m.subst({s.var: Poly.atom(g)}).sum_over(g, ZERO, s.n)
            r = self.new(r)
            if isinstance(acc, Poly) and acc == ZERO:
                acc = r     # an empty sum would be the number 0
            else:
                acc = I.binop('Add', acc, r)
        return acc

    def b_max(self, a, kw):
        return self.extreme('max', a, kw)

    def b_min(self, a, kw):
        return self.extreme('min', a, kw)

    def extreme(self, op, a, kw):
        I = self.I
        if len(a) == 1:
            v = a[0]
            m = I.arr(v)
            if isinstance(m, Mat) and m.ndim >= 1:
                return Poly.atom((op + 'v', m))
            segs = I.iter_segs(v)
            if segs is None:
                return I.top(op)
            if not segs:
                I.do_raise('ValueError', op + ' of empty', implicit=True)
            if all(isinstance(s, One) for s in segs):
                a = [s.v for s in segs]
            else:
                t = self.toarr(v)
                if isinstance(t, Mat):
                    return Poly.atom((op + 'v', t))
                return Poly.atom(('num', op, I.freeze(v) if not isinstance(v, Top) else v))
        if len(a) >= 2:
            if any(x == NONE for x in a):
                I.none_use('%s of None' % op)
            r = a[0]
            for x in a[1:]:
                c = I.truth(I.compare('GtE' if op == 'max' else 'LtE', r, x))
                r = I.split(c, lambda: r, lambda: x)
            return r
        return a[0] if a else I.top(op)

    def b_abs(self, a, kw):
        return self.n_abs(a, kw)

    def b_any(self, a, kw):
        return self.quant(a[0], True)

    def b_all(self, a, kw):
        return self.quant(a[0], False)

    def quant(self, v, ex):
        I = self.I
        if v == NONE:
            I.none_use('any/all of None')
        if isinstance(v, Cond):
            return v
        m = I.arr(v)
        if isinstance(m, BVec):
            return exists(m.n, m.v, m.c) if ex else forall(m.n, m.v, m.c)
        if isinstance(m, B2):
            if ex:
                return exists(m.n, m.v, exists(m.m, m.w, m.c))
            return forall(m.n, m.v, forall(m.m, m.w, m.c))
        if isinstance(m, Mat):
            if m.ndim == 0:
                return I.truth(v)
            if m.ndim == 1:
                g = fresh('q')
                c = cnot(req(push(m.row(Poly.atom(g))), ZERO))
                return exists(m.shape[0], g, c) if ex else forall(m.shape[0], g, c)
        if isinstance(m, Top):
            return Cond(('truth', I.top('any/all')))
        segs = I.iter_segs(v)
        if segs is None:
            return Cond(('truth', I.top('any/all')))
        cs = []
        for s in segs:
            if isinstance(s, One):
                cs.append(I.truth(I.simplify(s.v)))
            else:
                t = I.thaw(s.val)
                c = I.truth(t)
                if ex:
                    cs.append(exists(s.n, s.var, cand(s.cond, c)))
                else:
                    cs.append(forall(s.n, s.var, cor(cnot(s.cond), c)))
        return cor(*cs) if ex else cand(*cs)

    def b_sorted(self, a, kw):
        I = self.I
        v = a[0]
        if v == NONE:
            I.none_use('sorted(None)')
        m = I.arr(v)
        if isinstance(m, Mat):
            return I.top('sorted array')
        segs = I.iter_segs(v)
        note = None
        if isinstance(v, Ref) and isinstance(I.cell(v), ListC):
            note = I.cell(v).note
        if segs is not None:
            c = ListC(tuple(segs), 'list')
            if self.is_sorted(c) and not kw:
                return I.alloc(c)
            note = I.freeze(v)
        if note is not None and not kw:
            return I.alloc(ListC(None, 'list', Opq('sorted', note)))
        return I.new_list(None)

    def b_set(self, a, kw):
        I = self.I
        if not a:
            return I.new_list([], 'set')
        segs = I.iter_segs(a[0])
        if segs is None:
            note = None
            if isinstance(a[0], Ref) and isinstance(I.cell(a[0]), ListC) and I.cell(a[0]).note is not None:
                note = Opq('set', I.cell(a[0]).note)
            return I.alloc(ListC(None, 'set', note))
        return self.mkset(segs)

    b_frozenset = b_set

    def b_list(self, a, kw):
        I = self.I
        if not a:
            return I.new_list([])
        v = a[0]
        if isinstance(v, Ref) and isinstance(I.cell(v), ListC):
            c = I.cell(v)
            if c.kind == 'set' and c.segs is not None and not (len(c.segs) <= 1 and all(
                    isinstance(s, One) or s.var not in s.val.free_vars() for s in c.segs)) and not self.is_sorted(ListC(c.segs, 'list')):
                # the order of a set is not the order of insertion
                return I.alloc(ListC(None, 'list', Opq('set', I.freeze_content(ListC(c.segs, 'list'), ()))))
            return I.alloc(ListC(c.segs, 'list', c.note))
        segs = I.iter_segs(v)
        return I.new_list(segs)

    def b_tuple(self, a, kw):
        I = self.I
        if not a:
            return Tup(())
        segs = I.iter_segs(a[0])
        if segs is not None and all(isinstance(s, One) for s in segs):
            return Tup([s.v for s in segs])
        return self.b_list(a, kw)

    def b_iter(self, a, kw):
        return a[0]

    def b_dict(self, a, kw):
        I = self.I
        d, op = {}, False
        if a:
            v = a[0]
            if isinstance(v, Ref) and isinstance(I.cell(v), DictC):
                d.update(I.cell(v).d)
                op = I.cell(v).open
            else:
                segs = I.iter_segs(v)
                if segs is not None and all(isinstance(s, One) and isinstance(s.v, Tup) for s in segs):
                    for s in segs:
                        d[s.v.items[0]] = s.v.items[1]
                elif segs is not None:
                    return self.dict_family(segs)
                else:
                    op = True
        for k, v in kw.items():
            d[Const(k)] = v
        return I.alloc(DictC(d, op))

    def b_fromkeys(self, a, kw):
        I = self.I
        segs = I.iter_segs(a[0])
        v = a[1] if len(a) > 1 else NONE
        if segs is not None and all(isinstance(s, One) and isinstance(s.v, (Const, Poly)) for s in segs):
            return I.alloc(DictC({s.v: v for s in segs}, False))
        return I.alloc(DictC({}, True))

    def dict_family(self, segs):
        """Dictionaries {xi: const for xi in symbolic vector}."""
        I = self.I
        d = {}
        for s in segs:
            if isinstance(s, Rep) and isinstance(s.val, Tup) and s.cond.is_true():
                k, v = s.val.items
                if isinstance(k, Opq) and k.name == 'symelem' and s.var not in v.free_vars() and k.args[1] == Poly.atom(s.var):
                    d[Opq('allof', k.args[0])] = v
                    continue
            return I.top('dict comprehension')
        return I.alloc(DictC(d, False))

    def b_isinstance(self, a, kw):
        I = self.I
        v, t = a
        ts = [x for x in t.items] if isinstance(t, Tup) else [t]
        out = FALSE
        for x in ts:
            out = cor(out, self.isinst(v, x))
        return out

    def isinst(self, v, t):
        I = self.I
        if isinstance(t, ClassV):
            if isinstance(v, Ref) and isinstance(I.cell(v), ObjC):
                ci = I.cell(v).ci
                return cbool(ci is not None and any(c.qual == t.ci.qual for c in ci.mro(I.prog)))
            if isinstance(v, Top):
                return Cond(('truth', I.top('isinstance')))
            return FALSE
        if isinstance(t, Ext):
            n = t.path.split('.')[-1]
            if isinstance(v, Top):
                return Cond(('truth', I.top('isinstance')))
            isarr = isinstance(v, Ref) and isinstance(I.cell(v), ArrC)
            islist = isinstance(v, Ref) and isinstance(I.cell(v), ListC)
            if n == 'ndarray':
                return cbool(isarr)
            if n in ('list', 'set', 'tuple'):
                return cbool(islist and I.cell(v).kind == n or isinstance(v, Tup) and n == 'tuple')
            if n == 'dict':
                return cbool(isinstance(v, Ref) and isinstance(I.cell(v), DictC))
            if n == 'str':
                return cbool(isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Opq) and v.name == 'str')
            if n in ('float', 'floating', 'float64'):
                if isinstance(v, Mat):
                    return TRUE
                if isinstance(v, Poly):
                    return cbool(not is_int(v))
                return FALSE
            if n in ('int', 'integer', 'Integral', 'int64'):
                return cbool(isinstance(v, Poly) and is_int(v))
            if n in ('Number', 'Real'):
                return cbool(isinstance(v, (Poly, Mat)))
            if n == 'bool':
                return cbool(isinstance(v, Cond))
        return Cond(('truth', I.top('isinstance')))

    def b_hasattr(self, a, kw):
        I = self.I
        v, n = a
        if isinstance(v, Ref) and isinstance(I.cell(v), ObjC) and isinstance(n, Const):
            c = I.cell(v)
            return cbool(n.v in c.f or c.ci is not None and c.ci.lookup(I.prog, n.v) is not None)
        if isinstance(v, Ref) and isinstance(I.cell(v), ArrC) and isinstance(n, Const):
            return cbool(n.v in ('shape', 'size', 'ndim', 'T', 'dot', '__len__', 'flatten', 'copy'))
        return Cond(('truth', I.top('hasattr')))

    def b_getattr(self, a, kw):
        I = self.I
        if isinstance(a[1], Const):
            if len(a) > 2:
                h = self.b_hasattr(a[:2], {})
                return I.split(h, lambda: I.getattr(a[0], a[1].v), lambda: a[2])
            return I.getattr(a[0], a[1].v)
        return I.top('getattr')

    def b_setattr(self, a, kw):
        I = self.I
        if isinstance(a[1], Const):
            I.setattr(a[0], a[1].v, a[2])
        else:
            I.ev('wfield', cell=a[0].id if isinstance(a[0], Ref) else None, origin=None, field='?', value=a[2], cls=None)
        return NONE

    def b_print(self, a, kw):
        return NONE

    def b_str(self, a, kw):
        I = self.I
        if a and isinstance(a[0], Const) and isinstance(a[0].v, str):
            return a[0]
        if a and isinstance(a[0], Poly):
            return Opq('str', a[0])
        return Opq('str')

    def b_repr(self, a, kw):
        return Opq('str')

    def b_format(self, a, kw):
        return Opq('str')

    def b_id(self, a, kw):
        return Poly.atom(('int', 'id', next(self.I.ids)))

    def b_type(self, a, kw):
        I = self.I
        v = a[0]
        if isinstance(v, Ref) and isinstance(I.cell(v), ObjC) and I.cell(v).ci:
            return ClassV(I.cell(v).ci)
        return Opq('type')

    def b_int(self, a, kw):
        v = a[0] if a else ZERO
        if v == NONE:
            self.I.none_use('int(None)')
        if isinstance(v, Cond):
            return gamma(v, ONE, ZERO)
        if isinstance(v, Poly):
            return v if is_int(v) else Poly.atom(('int', 'trunc', v))
        if isinstance(v, Mat):
            return Poly.atom(('int', 'trunc', v))
        return self.I.top('int')

    def b_float(self, a, kw):
        v = a[0] if a else ZERO
        if v == NONE:
            self.I.none_use('float(None)')
        if isinstance(v, Cond):
            return gamma(v, ONE, ZERO)
        if isinstance(v, (Poly, Mat)):
            return v
        m = self.I.arr(v)
        if isinstance(m, Mat) and m.ndim == 1:
            return push(m.row(ZERO))
        return self.I.top('float')

    def b_bool(self, a, kw):
        return self.I.truth(a[0]) if a else FALSE

    def b_next(self, a, kw):
        I = self.I
        v = a[0]
        if isinstance(v, Ref) and isinstance(I.cell(v), ListC):
            c = I.cell(v)
            if c.segs is None:
                return I.top('next')
            if not c.segs:
                return a[1] if len(a) > 1 else I.top('next')
            return I.first_item(list(c.segs), a[1] if len(a) > 1 else None)
        return I.top('next')

    def b_reversed(self, a, kw):
        I = self.I
        segs = I.iter_segs(a[0])
        if segs is None:
            return I.new_list(None)
        if all(isinstance(s, One) for s in segs):
            return I.new_list(list(reversed(segs)))
        return I.list_slice(ListC(tuple(segs), 'list'), ('slice', NONE, NONE, P(-1)))

    def b_map(self, a, kw):
        I = self.I
        if len(a) != 2:
            z = self.b_zip(a[1:], {})
            segs, star = I.iter_segs(z), True
        else:
            segs, star = I.iter_segs(a[1]), False
        if segs is None:
            return I.new_list(None)
        out = I.new_list([])
        f = a[0]
        env = I.st.env

        def body():
            v = I.st.env['$x']
            r = I.call(f, list(v.items) if star else [v], {})
            c = I.cell(out)
            I.st.heap[out.id] = ListC(None if c.segs is None else c.segs + (One(r),), 'list')
        I.loop_segs(segs, lambda v: I.st.env.__setitem__('$x', v), body, [], None)
        I.st.env.pop('$x', None)
        return out

    def b_filter(self, a, kw):
        I = self.I
        segs = I.iter_segs(a[1])
        if segs is None:
            return I.new_list(None)
        out = []
        for s in segs:
            if isinstance(s, Rep):
                c = I.truth(I.simplify(I.call(a[0], [I.thaw(s.val)], {})))
                out.append(Rep(s.n, s.var, s.val, cand(s.cond, c)))
            else:
                c = I.truth(I.simplify(I.call(a[0], [s.v], {})))
                if c.is_true():
                    out.append(s)
                elif not c.is_false():
                    out.append(Rep(ONE, fresh('z'), I.freeze(s.v), c))
        return I.new_list(out)

    def b_reduce(self, a, kw):
        I = self.I
        f, it = a[0], a[1]
        segs = I.iter_segs(it)
        if segs is None:
            return I.top('reduce')
        if len(a) > 2:
            I.st.env['$acc'] = a[2]
        else:
            if not segs:
                I.do_raise('TypeError', 'reduce of empty', implicit=True)
            l = I.new_list(segs)
            I.st.env['$acc'] = I.getitem(l, ZERO)
            segs = I.iter_segs(I.getitem(l, ('slice', ONE, NONE, NONE)))
            if segs is None:
                return I.top('reduce')

        def body():
            I.st.env['$acc'] = I.call(f, [I.st.env['$acc'], I.st.env['$x']], {})
        I.loop_segs(segs, lambda v: I.st.env.__setitem__('$x', v), body, [], None)
        r = I.st.env.pop('$acc')
        I.st.env.pop('$x', None)
        return r

    def b_slice(self, a, kw):
        if len(a) == 1:
            return ('slice', NONE, a[0], NONE)
        return ('slice', a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_round(self, a, kw):
        if a and isinstance(a[0], Poly) and is_int(a[0]):
            return a[0]
        return self.I.top('round')

    def it_product(self, a, kw):
        return self.I.new_list(None)

    def it_chain(self, a, kw):
        I = self.I
        out = []
        for x in self.segs_of(a) or []:
            s = I.iter_segs(x.v) if isinstance(x, One) else None
            if s is None:
                return I.new_list(None)
            out.extend(s)
        return I.new_list(out)

    # ------------------------------------------------------------ copy
    def c_copy(self, a, kw):
        I = self.I
        v = a[0]
        if isinstance(v, Ref):
            c = I.cell(v)
            if isinstance(c, ObjC):
                r = c.ci.lookup(I.prog, '__copy__') if c.ci else None
                if r is not None:
                    return I.call_func(r[1], [v], {})
                return I.alloc(ObjC(c.ci, dict(c.f)))
            if isinstance(c, ListC):
                return I.alloc(ListC(c.segs, c.kind, c.note))
            if isinstance(c, DictC):
                return I.alloc(DictC(dict(c.d), c.open))
            if isinstance(c, ArrC):
                return I.new_arr(c.val)
        return v

    def c_deepcopy(self, a, kw):
        return self.deep(a[0])

    def deep(self, v, memo=None):
        I = self.I
        if isinstance(v, Ref):
            c = I.cell(v)
            if isinstance(c, ObjC):
                return I.alloc(ObjC(c.ci, {k: self.deep(x) for k, x in c.f.items()}))
            if isinstance(c, ListC):
                if c.segs is None:
                    return I.alloc(ListC(None, c.kind, c.note))
                return I.new_list([One(self.deep(s.v)) if isinstance(s, One) else
                                   Rep(s.n, s.var, fresh_storage(I, s.val), s.cond) for s in c.segs], c.kind)
            if isinstance(c, DictC):
                return I.alloc(DictC({k: self.deep(x) for k, x in c.d.items()}, c.open))
            if isinstance(c, ArrC):
                return I.new_arr(c.val)
        if isinstance(v, Gamma):
            return gamma(v.c, self.deep(v.a), self.deep(v.b))
        if isinstance(v, Tup):
            return Tup([self.deep(x) for x in v.items])
        return v


def fresh_storage(I, v):
    if isinstance(v, FArr):
        return FArr(v.val, frozenset([next(I.ids)]))
    if isinstance(v, FObj):
        return FObj(v.ci, tuple((k, fresh_storage(I, x)) for k, x in v.items), None)
    if isinstance(v, FDict):
        return FDict(tuple((k, fresh_storage(I, x)) for k, x in v.items), v.open, None)
    if isinstance(v, FList) and v.segs is not None:
        return FList(tuple((s[0], fresh_storage(I, s[1])) if s[0] == 'one' else
                           s[:3] + (fresh_storage(I, s[3]), s[4]) for s in v.segs), v.kind, None)
    if isinstance(v, Tup):
        return Tup([fresh_storage(I, x) for x in v.items])
    return v


def small_literal(c):
    """Condition |e| > tol with a tiny tolerance: returns e (scalar Mat) or None."""
    k = c.k
    if k[0] != 'or' or len(k[1]) != 2:
        return None
    es = []
    for x in k[1]:
        if x.k[0] != 'gt0':
            return None
        m = _as_scalar_mat(x.k[1])
        t = m.terms.get(((), (), ()), ZERO).const()
        if t is None or not (-Fraction(1, 10**7) <= t <= 0):
            return None
        es.append(m - Mat.scalar(P(t)))
    if es[0] == -es[1]:
        return es[0]
    return None


def drop_small(v, cond):
    """Sum of e*y over |e| > tiny: the filter is dropped (coefficients below the tolerance count as zero)."""
    e = small_literal(cond)
    if e is None:
        return None
    p = alg.scalar_poly(e)
    if len(p.t) != 1:
        return None
    (mono, _), = p.t.items()
    m = v.val if isinstance(v, FArr) else v
    q = alg.scalar_poly(m) if isinstance(m, Mat) and m.ndim == 0 else (m if isinstance(m, Poly) else None)
    if q is None:
        return None
    from .poly import _mono_div
    if all(contains_factor(mm, mono) for mm in q.t):
        return v
    return None


def contains_factor(m, f):
    d = dict(m)
    if all(d.get(a, 0) >= e for a, e in f):
        return True
    # the factor may be part of a longer word
    fl = [a for a, _ in f if a[0] == 'sc']
    if len(fl) == 1:
        w = fl[0][1].single_word()
        for a, _ in m:
            if a[0] == 'sc' and w is not None:
                for (w2, b, g), c in a[1].terms.items():
                    if not (subword(w, w2) or subword(alg.transpose_word(w), w2)):
                        return False
                return True
    return False


def subword(w, v):
    return any(v[i:i + len(w)] == w for i in range(len(v) - len(w) + 1))
