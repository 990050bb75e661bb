"""Opaque library objects: sympy expressions, qhull objects, strings, exceptions."""
import re
from .poly import Poly, P, ZERO, ONE, CTX, fresh
from . import alg
from .alg import Mat, Term
from .vals import *
from .npmodel import push, scal
from .npfuncs2 import NPFuncs2

HULL_FIELDS = {'equations', 'points', 'vertices', 'intersections', 'simplices', 'volume', 'area', 'neighbors'}


class NPOpq(NPFuncs2):
    def opq_attr(self, o, name):
        I = self.I
        if o.name in ('hsi', 'hull'):
            return self.hull_attr(o, name)
        if o.name == 'symvec' and name == 'shape':
            return Tup([o.args[1], ONE])
        if o.name == 'finfo':
            return Poly.atom(('eps', name))
        return Method(o, name)

    def hull_attr(self, o, name):
        I = self.I
        if name not in HULL_FIELDS:
            return Method(o, name)
        key = (o.name, name) + o.args
        if name in ('volume', 'area'):
            return Poly.atom(('num',) + key)
        dims = None
        a0 = o.args[0]
        if isinstance(a0, FArr) and isinstance(a0.val, Mat) and a0.val.ndim == 2:
            d = a0.val.shape[1]
            if o.name == 'hsi':
                d = d - 1
            k = Poly.atom(('len',) + key)
            if name == 'equations':
                dims = (k, d + 1)
            elif name in ('points', 'intersections'):
                dims = (k, d)
            elif name == 'vertices':
                dims = (k,)
            elif name == 'simplices':
                dims = (k, d)
        if dims is None:
            return I.top('attribute %s of %s' % (name, o.name))
        return I.new_arr(Mat.fn(key, dims))

    def opq_item(self, o, idx):
        I = self.I
        if o.name == 'symvec' and isinstance(idx, Poly):
            return Opq('symelem', o, idx)
        if o.name == 'ext':
            return I.top('item of %s' % o.args[0])
        return I.top('item of %s' % o.name)

    def opq_iter(self, v):
        I = self.I
        if v.name == 'symvec':
            k = fresh('i')
            CTX.ranges[k] = (ZERO, v.args[1])
            return [Rep(v.args[1], k, Opq('symelem', v, Poly.atom(k)))]
        if v.name == 'ndindex':
            return None
        return None

    def opq_call(self, f, args, kwargs):
        I = self.I
        if f.name == 'callback':
            I.ev('callback', name=f.args[0])
            return I.top('callback')
        if f.name == 'ext':
            return self.unknown_call('%s()' % f.args[0], args, kwargs)
        return I.top('call of %s' % f.name)

    def opq_method(self, o, name, args, kwargs):
        I = self.I
        if isinstance(o, Const):
            if isinstance(o.v, str):
                if name in ('format', 'join', 'strip', 'lower', 'upper', 'replace', 'title', 'capitalize'):
                    if name in ('lower', 'upper', 'strip', 'title', 'capitalize') and not args:
                        return Const(getattr(o.v, name)())
                    if name == 'format' and not kwargs:
                        lit = re.split(r'(\{\d*\})', o.v)
                        out, auto = [], 0
                        for x in lit:
                            if re.fullmatch(r'\{\d*\}', x):
                                i = int(x[1:-1]) if x != '{}' else auto
                                auto += 1
                                out.append(args[i] if i < len(args) else None)
                            elif '{' in x or '}' in x:
                                out.append(None)
                            elif x:
                                out.append(Const(x))
                        return I.text([I.simplify(v) if v is not None else None for v in out])
                    return Opq('str')
                if name in ('startswith', 'endswith') and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
                    return cbool(getattr(o.v, name)(args[0].v))
            if o == NONE:
                I.none_use('method %s of None' % name)
            return I.top('method of constant')
        if o.name == 'constrref' and name == 'getAttr' and args and isinstance(I.simplify(args[0]), Const):
            from . import solvermodel as SM
            return SM.handle_attr(self, o, I.simplify(args[0]).v)
        if o.name == 'solverobj':
            return Opq('solverobj', name)
        if o.name == 'symexpr' or o.name == 'symvec':
            return self.sym_method(o, name, args, kwargs)
        if o.name == 'str':
            return Opq('str')
        if o.name in ('hsi', 'hull'):
            if name in ('close',):
                return NONE
            if name in ('add_points',):
                I.ev('hull_add', value=I.freeze(args[0]) if args else None)
                return NONE
            return I.top('%s of %s' % (name, o.name))
        if o.name == 'ext':
            return self.unknown_call('%s.%s' % (o.args[0], name), [o] + list(args), kwargs)
        return I.top('%s of %s' % (name, o.name))

    # ------------------------------------------------------------ sympy
    def sym_method(self, o, name, args, kwargs):
        I = self.I
        if name == 'jacobian' and args:
            x = I.simplify(args[0])
            if isinstance(x, Opq) and x.name == 'symvec' and o.name == 'symexpr':
                return Opq('symmat', ('jac', o, x), o.args[1], x.args[1])
        if name == 'subs' and args:
            d = I.simplify(args[0])
            s = self.subs_spec(d)
            if s is not None and o.name == 'symexpr':
                return Opq('symmat', ('at', o) + s, o.args[1], ONE)
        if name in ('simplify', 'expand', 'doit'):
            return o
        return I.top('symbolic %s' % name)

    def subs_spec(self, d):
        """Canonical description of a substitution dictionary: sorted ((vec, value), ...)."""
        I = self.I
        out = []
        if isinstance(d, Ref) and isinstance(I.cell(d), DictC):
            if I.cell(d).open:
                return None
            for k, v in I.cell(d).d.items():
                if isinstance(k, Opq) and k.name == 'allof':
                    out.append((k.args[0], v))
                else:
                    return None
        elif isinstance(d, Ref) and isinstance(I.cell(d), ListC) and I.cell(d).segs is not None:
            for s in I.cell(d).segs:
                if isinstance(s, Rep) and isinstance(s.val, Tup) and len(s.val.items) == 2 and \
                        isinstance(s.val.items[0], Opq) and s.val.items[0].name == 'symelem' and \
                        s.val.items[0].args[1] == Poly.atom(s.var):
                    out.append((s.val.items[0].args[0], s.val.items[1]))
                else:
                    return None
        else:
            return None
        return tuple(sorted(set(out), key=hash))

    def opq_array(self, v):
        I = self.I
        if v.name == 'symmat':
            return I.new_arr(Mat.fn(('sym',) + v.args[0], (v.args[1], v.args[2])))
        if v.name == 'symexpr' or v.name == 'symvec':
            return I.new_arr(Mat.fn(('symv', v), (v.args[1], ONE)))
        return None
