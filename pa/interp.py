"""Abstract interpreter: value-graph extraction over the syntax trees of the program.

Forward dataflow, one visit per statement and call context; branches are joined with gated (gamma) values,
loops are summarised by closed forms of their recurrences.  No code of the analysed program is executed.
"""
import ast
import itertools
import re
from fractions import Fraction
from . import poly as PL
from .poly import Poly, P, ZERO, ONE, CTX, assuming, fresh
from . import alg
from .alg import Mat, Term, Undecided
from .vals import *
from .vals import _as_scalar_mat
from . import model as MD
from . import solvermodel as SM


class DeadPath(Exception):
    pass


class Limit(Exception):
    pass


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'hyps', 'pc')

    def __init__(self, env=None, heap=None, facts=None, hyps=None, pc=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.hyps = hyps if hyps is not None else []
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), list(self.hyps), list(self.pc))


class GamC(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Event(object):
    def __init__(self, kind, site, fn, **kw):
        self.kind, self.site, self.fn = kind, site, fn
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ('kind', 'site', 'fn', 'pc', 'facts')}
        return '%s@%s in %s %r' % (self.kind, self.site, self.fn, d)


class Frame(object):
    def __init__(self, fi, id):
        self.fi, self.id = fi, id
        self.exits = []
        self.loops = []


class LoopCtl(object):
    def __init__(self):
        self.breaks, self.conts = [], []


def common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, opaque=None):
        self.prog = prog
        self.opaque = opaque or {}         # qual -> handler(interp, fi, bound args dict, site) or None
        self.ids = itertools.count(1)
        self.events = []
        self.raises = []
        self.sinks = [self.raises]
        self.frames = []
        self.loop_log = []
        self.site = '?'
        self.st = State()
        self.origin = {}
        self.calls = 0
        self.analysed = set()
        self.unknowns = []
        self.modcache = {}
        self.globals_cells = {}
        self.steps = 0
        self.unroll = 3
        self.models = []
        from . import npcalls
        self.np = npcalls.NP(self)
        CTX.hyps = self.st.hyps

    # ------------------------------------------------------------ state
    def set_state(self, st):
        self.st = st
        CTX.hyps = st.hyps

    def decide(self, c):
        if c.is_true():
            return True
        if c.is_false():
            return False
        f = self.st.facts
        if c in f:
            return f[c]
        n = cnot(c)
        if n in f:
            return not f[n]
        k = c.k
        CTX.hyps = self.st.hyps
        if k[0] == 'and':
            ds = [self.decide(x) for x in k[1]]
            if False in ds:
                return False
            if all(d is True for d in ds):
                return True
            # a conjunction already known false with all but one conjunct true
            return self._via_disj(c)
        if k[0] == 'or':
            ds = [self.decide(x) for x in k[1]]
            if True in ds:
                return True
            if all(d is False for d in ds):
                return False
            return self._via_disj(c)
        if k[0] == 'not':
            d = self.decide(k[1])
            return None if d is None else not d
        if k[0] == 'ige':
            return CTX.sign_cmp(k[1])
        if k[0] == 'ieq':
            return CTX.is_zero(k[1])
        if k[0] == 'gt0':
            if f.get(Cond(('ge0', k[1]))) is False:
                return False
        if k[0] == 'ge0':
            if f.get(Cond(('gt0', k[1]))) is True:
                return True
        return self._via_disj(c)

    def _via_disj(self, c):
        """Use facts that are disjunctions with all the other disjuncts refuted."""
        for x, v in self.st.facts.items():
            if v is not True or x.k[0] != 'or':
                continue
            for pol in (True, False):
                lit = c if pol else cnot(c)
                if lit in x.k[1]:
                    rest = [y for y in x.k[1] if y != lit]
                    if all(self._lookup(y) is False for y in rest):
                        return pol
        return None

    def _lookup(self, y):
        f = self.st.facts
        if y in f:
            return f[y]
        n = cnot(y)
        if n in f:
            return not f[n]
        if y.k[0] == 'ige':
            return CTX.sign_cmp(y.k[1])
        if y.k[0] == 'and':
            r = [self._lookup(z) for z in y.k[1]]
            return False if False in r else (True if all(r) else None)
        if y.k[0] == 'or':
            r = [self._lookup(z) for z in y.k[1]]
            return True if True in r else (False if all(z is False for z in r) else None)
        return None

    def assume(self, c, pc=True):
        d = self.decide(c)
        if d is False:
            raise DeadPath()
        if pc and d is None:
            self.st.pc.append(c)
        self._assume(c)

    def _assume(self, c):
        k = c.k
        st = self.st
        if k[0] == 't':
            return
        st.facts[c] = True
        if k[0] == 'and':
            for x in k[1]:
                self._assume(x)
        elif k[0] == 'ige':
            st.hyps.append(k[1])
        elif k[0] == 'ieq':
            st.hyps.append(k[1])
            st.hyps.append(-k[1])
        elif k[0] == 'not' and k[1].k[0] == 'ieq':
            p = k[1].k[1]
            CTX.hyps = st.hyps
            if CTX.nonneg(p):
                st.hyps.append(p - 1)
            elif CTX.nonneg(-p):
                st.hyps.append(-p - 1)
        CTX.hyps = st.hyps

    def run_arm(self, st0, c, f):
        self.set_state(st0.copy())
        try:
            self.assume(c)
            v = f()
            return v, self.st
        except DeadPath:
            return None, None

    def split(self, c, ft, ff):
        d = self.decide(c)
        if d is True:
            return ft()
        if d is False:
            return ff()
        self.steps += 1
        if self.steps > 60000:
            raise Limit('too many branches')
        st0 = self.st
        CTX.hyps = st0.hyps
        nc = cnot(c)
        v1, s1 = self.run_arm(st0, c, ft)
        v2, s2 = self.run_arm(st0, nc, ff)
        CTX.hyps = st0.hyps
        if s1 is None and s2 is None:
            self.set_state(st0)
            raise DeadPath()
        if s1 is None:
            self.set_state(s2)
            return v2
        if s2 is None:
            self.set_state(s1)
            return v1
        self.set_state(self.merge(c, s1, s2, st0.pc))
        return self.vmerge(c, v1, v2)

    def vmerge(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(self.vmerge(c, x, y) for x, y in zip(a.items, b.items))
        return gamma(c, a, b)

    def merge(self, c, s1, s2, pc):
        env = {}
        for n in set(s1.env) | set(s2.env):
            env[n] = self.vmerge(c, s1.env.get(n, UNDEF), s2.env.get(n, UNDEF))
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for i in h1:
            x = h1[i]
            y = h2.get(i)
            if y is None or x is y:
                heap[i] = x
            else:
                heap[i] = self.cmerge(c, x, y)
        for i in h2:
            if i not in h1:
                heap[i] = h2[i]
        facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        # weak facts that hold in both arms: (c and x) or (not c and y)
        e1 = [k for k, v in s1.facts.items() if v and k not in facts and k != c][:6]
        e2 = [k for k, v in s2.facts.items() if v and k not in facts and k != cnot(c)][:6]
        if c.k[0] not in ('t', 'f'):
            for k in e1:
                if k.k[0] not in ('or', 'and'):
                    facts[cor(cnot(c), k)] = True
            for k in e2:
                if k.k[0] not in ('or', 'and'):
                    facts[cor(c, k)] = True
        facts.pop(TRUE, None)
        hyps = [h for h in s1.hyps if h in s2.hyps]
        n = common_prefix(s1.pc, s2.pc)
        return State(env, heap, facts, hyps, list(s1.pc[:n]) if pc is None else list(pc))

    def cmerge(self, c, x, y):
        if type(x) is type(y):
            if isinstance(x, ArrC):
                if x.val == y.val and x.st == y.st:
                    return x
                return ArrC(gamma(c, x.val, y.val), x.st | y.st)
            if isinstance(x, ListC):
                if x.segs == y.segs:
                    return x
                if x.segs is not None and y.segs is not None and x.kind == y.kind:
                    if y.segs == x.segs[:len(y.segs)] and all(isinstance(s, One) for s in x.segs[len(y.segs):]):
                        extra = tuple(Rep(ONE, fresh('z'), self.freeze(s.v), c) for s in x.segs[len(y.segs):])
                        return ListC(y.segs + extra, x.kind)
                    if x.segs == y.segs[:len(x.segs)] and all(isinstance(s, One) for s in y.segs[len(x.segs):]):
                        extra = tuple(Rep(ONE, fresh('z'), self.freeze(s.v), cnot(c)) for s in y.segs[len(x.segs):])
                        return ListC(x.segs + extra, x.kind)
                return GamC(c, x, y)
            if isinstance(x, DictC):
                d = {}
                for k in list(x.d) + [k for k in y.d if k not in x.d]:
                    d[k] = self.vmerge(c, x.d.get(k, UNDEF), y.d.get(k, UNDEF))
                return DictC(d, x.open or y.open)
            if isinstance(x, ObjC):
                f = {}
                for k in list(x.f) + [k for k in y.f if k not in x.f]:
                    f[k] = self.vmerge(c, x.f.get(k, UNDEF), y.f.get(k, UNDEF))
                return ObjC(x.ci, f)
        return GamC(c, x, y)

    # ------------------------------------------------------------ heap
    def alloc(self, content):
        i = next(self.ids)
        self.st.heap[i] = content
        return Ref(i)

    def new_arr(self, val, st=None):
        if isinstance(val, Mat) and val.ndim == 0:
            return val
        return self.alloc(ArrC(val, st if st is not None else frozenset([next(self.ids)])))

    def new_list(self, segs, kind='list'):
        return self.alloc(ListC(tuple(segs) if segs is not None else None, kind))

    def cell(self, ref):
        return self.st.heap[ref.id]

    def ev(self, kind, **kw):
        e = Event(kind, self.site, self.frames[-1].fi.qual if self.frames else '?', pc=list(self.st.pc),
                  facts=self.st.facts, **kw)
        e.stack = [f.fi.qual for f in self.frames]
        self.events.append(e)
        return e

    def top(self, why):
        self.unknowns.append((self.site, why))
        return Top(why)

    def none_use(self, what):
        self.ev('none_use', what=what)
        self.sinks[-1].append(Event('raise', self.site, self.frames[-1].fi.qual if self.frames else '?',
                                    exc='TypeError', pc=list(self.st.pc), implicit=True, msg=what, state=self.st.copy()))
        raise DeadPath()

    # lifting over gamma values
    def lift(self, fn, *vals):
        for i, v in enumerate(vals):
            if isinstance(v, Gamma):
                return self.split(v.c, lambda: self.lift(fn, *(vals[:i] + (v.a,) + vals[i + 1:])),
                                  lambda: self.lift(fn, *(vals[:i] + (v.b,) + vals[i + 1:])))
            if isinstance(v, Ref):
                cc = self.st.heap.get(v.id)
                if isinstance(cc, GamC):
                    def arm(x, v=v):
                        self.st.heap[v.id] = x
                        return self.lift(fn, *vals)
                    return self.split(cc.c, lambda: arm(cc.a), lambda: arm(cc.b))
                if isinstance(cc, ArrC) and isinstance(cc.val, Gamma):
                    g = cc.val

                    def arm2(x, v=v, st=cc.st):
                        self.st.heap[v.id] = ArrC(x, st)
                        return self.lift(fn, *vals)
                    return self.split(g.c, lambda: arm2(g.a), lambda: arm2(g.b))
        return fn(*vals)

    # ------------------------------------------------------------ freeze / thaw
    def freeze(self, v, seen=()):
        if isinstance(v, Ref):
            if v.id in seen:
                return Opq('cycle', v.id)
            seen = seen + (v.id,)
            c = self.st.heap.get(v.id)
            return self.freeze_content(c, seen, v.id)
        if isinstance(v, Gamma):
            d = self.decide(v.c)
            if d is True:
                return self.freeze(v.a, seen)
            if d is False:
                return self.freeze(v.b, seen)
            return gamma(v.c, self.freeze(v.a, seen), self.freeze(v.b, seen))
        if isinstance(v, Tup):
            return Tup(self.freeze(x, seen) for x in v.items)
        if isinstance(v, Method):
            return Method(self.freeze(v.recv, seen), v.name)
        return v

    def freeze_content(self, c, seen, id=None):
        if isinstance(c, GamC):
            return gamma(c.c, self.freeze_content(c.a, seen, id), self.freeze_content(c.b, seen, id))
        if isinstance(c, ArrC):
            val = c.val
            if isinstance(val, Gamma):
                val = self.freeze(val)
                return self._gmap(val, lambda x: FArr(x, c.st))
            return FArr(val, c.st)
        if isinstance(c, ListC):
            if c.segs is None:
                if isinstance(c.note, Val):
                    return Opq('listnote', c.kind, c.note)
                return Top('list')
            out = []
            for s in c.segs:
                if isinstance(s, One):
                    out.append(('one', self.freeze(s.v, seen)))
                else:
                    out.append(canon_rep(s.n, s.var, s.val, s.cond))
            return FList(tuple(out), c.kind, self.orig(id))
        if isinstance(c, DictC):
            return FDict(tuple((k, self.freeze(x, seen)) for k, x in c.d.items()), c.open, self.orig(id))
        if isinstance(c, ObjC):
            return FObj(c.ci, tuple(sorted((k, self.freeze(x, seen)) for k, x in c.f.items())), self.orig(id))
        return Top('cell')

    def orig(self, id):
        return self.origin.get(id, id)

    def _gmap(self, v, f):
        if isinstance(v, Gamma):
            return gamma(v.c, self._gmap(v.a, f), self._gmap(v.b, f))
        return f(v)

    def thaw(self, f):
        if isinstance(f, FArr):
            if isinstance(f.val, Mat) and f.val.ndim == 0:
                return f.val
            return self.alloc(ArrC(f.val, f.st))
        if isinstance(f, FList):
            if f.segs is None:
                r = self.new_list(None, f.kind)
            else:
                segs = []
                for s in f.segs:
                    if s[0] == 'one':
                        segs.append(One(self.thaw(s[1])))
                    else:
                        g = fresh('t')
                        CTX.ranges[g] = (ZERO, s[1])
                        sub = {s[2]: Poly.atom(g)}
                        segs.append(Rep(s[1], g, s[3].subst(sub), s[4].subst(sub)))
                r = self.new_list(segs, f.kind)
            if f.org is not None:
                self.origin[r.id] = f.org
            return r
        if isinstance(f, Opq) and f.name == 'listnote':
            return self.alloc(ListC(None, f.args[0], f.args[1]))
        if isinstance(f, FDict):
            r = self.alloc(DictC({k: self.thaw(v) for k, v in f.items}, f.open))
            if f.org is not None:
                self.origin[r.id] = f.org
            return r
        if isinstance(f, FObj):
            r = self.alloc(ObjC(f.ci, {k: self.thaw(v) for k, v in f.items}))
            if f.org is not None:
                self.origin[r.id] = f.org
            return r
        if isinstance(f, Gamma):
            return gamma(f.c, self.thaw(f.a), self.thaw(f.b))
        if isinstance(f, Tup):
            return Tup(self.thaw(x) for x in f.items)
        if isinstance(f, Method):
            return Method(self.thaw(f.recv), f.name)
        return f

    # ------------------------------------------------------------ conditions
    def truth(self, v):
        """Condition that v is truthy."""
        if isinstance(v, Cond):
            return v
        if isinstance(v, Const):
            return cbool(bool(v.v))
        if isinstance(v, Poly):
            if is_int(v):
                return cnot(ieq(v))
            return cnot(req(v, ZERO))
        if isinstance(v, Mat):
            return cnot(req(v, ZERO))
        if isinstance(v, Gamma):
            return cor(cand(v.c, self.truth_in(v.c, v.a)), cand(cnot(v.c), self.truth_in(cnot(v.c), v.b)))
        if isinstance(v, Tup):
            return cbool(len(v.items) > 0)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListC):
                n = self.list_len(c)
                return cnot(ieq(n)) if n is not None else Cond(('truth', self.top('list')))
            if isinstance(c, DictC):
                return cbool(len(c.d) > 0)
            if isinstance(c, ObjC):
                return TRUE
            if isinstance(c, ArrC):
                if isinstance(c.val, BVec) and c.val.n == ONE:
                    return c.val.at(ZERO)
                return Cond(('truth', self.freeze(v)))
            if isinstance(c, GamC):
                return Cond(('truth', self.freeze(v)))
        if isinstance(v, (Func, Method, ClassV, Ext)):
            return TRUE
        return Cond(('truth', v))

    def truth_in(self, c, v):
        return self.truth(v)

    def isnone(self, v):
        if isinstance(v, Gamma):
            return cor(cand(v.c, self.isnone(v.a)), cand(cnot(v.c), self.isnone(v.b)))
        if v == NONE:
            return TRUE
        if isinstance(v, (Top,)):
            return Cond(('isnone', v))
        if isinstance(v, Opq):
            if v.name in ('nullable',):
                return Cond(('isnone', v))
            return FALSE
        return FALSE

    # ------------------------------------------------------------ functions
    def bind(self, fi, args, kwargs, star=None, dstar=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        elif rest:
            env['$extra'] = Tup(rest)
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = ('$default', d)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = ('$default', d)
        if a.kwarg:
            env[a.kwarg.arg] = ('$kwargs', extra)
        for n in names + kwonly:
            if n not in env:
                env[n] = UNDEF
        return env

    def call_func(self, fi, args, kwargs, closure=None):
        self.calls += 1
        env = self.bind(fi, args, kwargs)
        h = self.opaque.get(fi.qual)
        if h is not None:
            for n, v in list(env.items()):
                if isinstance(v, tuple) and v and v[0] == '$default':
                    env[n] = self.eval_default(fi, v[1])
                elif isinstance(v, tuple) and v and v[0] == '$kwargs':
                    env[n] = self.alloc(DictC({Const(k): x for k, x in v[1].items()}))
            self.ev('call', callee=fi.qual, args=dict(env))
            return h(self, fi, env)
        if len(self.frames) > self.MAXDEPTH or sum(1 for f in self.frames if f.fi is fi) > 2:
            return self.top('recursion %s' % fi.qual)
        self.analysed.add(fi.qual)
        saved_env, saved_site = self.st.env, self.site
        pc0 = len(self.st.pc)
        fr = Frame(fi, next(self.ids))
        self.frames.append(fr)
        try:
            for n, v in list(env.items()):
                if isinstance(v, tuple) and v and v[0] == '$default':
                    env[n] = self.eval_default(fi, v[1])
                elif isinstance(v, tuple) and v and v[0] == '$kwargs':
                    env[n] = self.alloc(DictC({Const(k): x for k, x in v[1].items()}))
            self.ev('enter', callee=fi.qual, args=dict(env))
            e = dict(env)
            e['$closure'] = closure
            self.st.env = e
            body = fi.node.body
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(body)
                fr.exits.append((self.st, v))
            else:
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fi.node))
                if gen:
                    e['$yield'] = self.new_list([])
                try:
                    self.exec_block(body)
                    fr.exits.append((self.st, NONE))
                except DeadPath:
                    pass
                if gen:
                    fr.exits = [(s, s.env['$yield']) for s, _ in fr.exits]
        finally:
            self.frames.pop()
            self.site = saved_site
        if not fr.exits:
            raise DeadPath()
        s, v = self.merge_exits(fr.exits)
        s = s.copy() if s is self.st else s
        s.env = saved_env
        self.set_state(s)
        return v

    def merge_exits(self, exits):
        """Fold a list of (state, value) with tree-structured path conditions."""
        items = list(exits)
        s, v = items[-1]
        for s1, v1 in reversed(items[:-1]):
            n = common_prefix(s1.pc, s.pc)
            CTX.hyps = s.hyps[:common_prefix(s1.hyps, s.hyps)]
            c = cand(*s1.pc[n:])
            c2 = cand(*s.pc[n:])
            if c.is_true() and not c2.is_true():
                c = cnot(c2)
            pc = s.pc[:n]
            ex1, ex2 = {}, {}
            s = self.merge(c, State({'$v': v1}, s1.heap, s1.facts, s1.hyps, s1.pc),
                           State({'$v': v}, s.heap, s.facts, s.hyps, s.pc), pc) \
                if v1 is not None else self.merge(c, s1, s, pc)
            if v1 is not None:
                v = s.env['$v']
        return s, v

    def eval_default(self, fi, node):
        if isinstance(node, (ast.List, ast.Dict, ast.Set)) or (isinstance(node, ast.Call)):
            # evaluated once at definition time: shared object
            k = ('default', fi.qual, node.lineno, node.col_offset)
            if k not in self.globals_cells:
                env = self.st.env
                self.st.env = {'$mod': fi.mod}
                v = self.eval(node)
                self.st.env = env
                self.globals_cells[k] = v
                if isinstance(v, Ref):
                    self.origin[v.id] = ('global', '%s default' % fi.qual)
                    c = self.cell(v)
                    if isinstance(c, ArrC):
                        self.st.heap[v.id] = ArrC(c.val, frozenset([('global', '%s default' % fi.qual)]))
            v = self.globals_cells[k]
            if isinstance(v, Ref) and v.id not in self.st.heap:
                return self.top('default')
            return v
        env = self.st.env
        self.st.env = {'$mod': fi.mod}
        try:
            return self.eval(node)
        finally:
            self.st.env = env

    def mod(self):
        return self.frames[-1].fi.mod if self.frames else None

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        m = self.mod()
        if m is not None and hasattr(s, 'lineno'):
            self.site = '%s:%d' % (m.rel, s.lineno)
        getattr(self, 'x_' + type(s).__name__, self.x_unknown)(s)

    def x_unknown(self, s):
        self.top('statement %s' % type(s).__name__)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.ev('global_decl', names=list(s.names))
        self.st.env.setdefault('$globals', Const(tuple(s.names)))

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split('.')[0]] = self.imported(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, s):
        base = MD.Program.absname(self.mod(), s)
        for a in s.names:
            self.st.env[a.asname or a.name] = self.imported(base + '.' + a.name)

    def imported(self, dotted):
        return self.static_val(self.prog.resolve_dotted(dotted))

    def static_val(self, e):
        if e is None:
            return None
        if isinstance(e, MD.FuncInfo):
            return Func(e)
        if isinstance(e, MD.ClassInfo):
            return ClassV(e)
        if isinstance(e, MD.Module):
            return ModV(e)
        if isinstance(e, tuple) and e[0] == 'ext':
            return Ext(e[1])
        return None

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.assume(c)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.frames[-1].exits.append((self.st, v))
        self.st = self.st.copy()
        raise DeadPath()

    def x_Raise(self, s):
        name = '?'
        msg = ''
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = n.id if isinstance(n, ast.Name) else (n.attr if isinstance(n, ast.Attribute) else '?')
            if name not in EXC and isinstance(n, ast.Name):
                # a helper building the exception, or a class of the program
                r = self.prog.resolve_in(self.mod(), n.id)
                if isinstance(r, MD.ClassInfo):
                    name = self.exc_base(r)
                elif isinstance(s.exc, ast.Call):
                    v = self.eval(s.exc)
                    if isinstance(v, Opq) and v.name == 'exc':
                        name = v.args[0]
                    else:
                        name = '?'
                else:
                    v = self.st.env.get(n.id)
                    name = v.args[0] if isinstance(v, Opq) and v.name == 'exc' else '?'
            msg = ast.unparse(s.exc)
        self.do_raise(name, msg)

    def exc_base(self, ci):
        for b in ci.bases:
            if isinstance(b, ast.Name):
                if b.id in EXC:
                    return b.id
                r = self.prog.resolve_in(ci.mod, b.id)
                if isinstance(r, MD.ClassInfo):
                    return self.exc_base(r)
        return '?'

    def do_raise(self, name, msg, implicit=False):
        e = Event('raise', self.site, self.frames[-1].fi.qual if self.frames else '?', exc=name, pc=list(self.st.pc),
                  implicit=implicit, msg=msg, state=self.st.copy())
        self.sinks[-1].append(e)
        raise DeadPath()

    def may_raise(self, name, msg, c):
        """Record that an operation raises when c holds; the caller goes on assuming it does not."""
        self.sinks[-1].append(Event('raise', self.site, self.frames[-1].fi.qual if self.frames else '?', exc=name,
                                    pc=list(self.st.pc) + [c], implicit=True, msg=msg, state=self.st.copy()))

    def x_If(self, s):
        c = self.cond(s.test)
        self.split(c, lambda: self.arm(s.body), lambda: self.arm(s.orelse))

    def arm(self, body):
        self.exec_block(body)
        return None

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.inplace(op, old, self.eval(s.value))
            self.set_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            new = self.inplace(op, old, self.eval(s.value))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            idx = self.eval_index(t.slice)
            old = self.getitem(o, idx)
            # an element taken out of an array is written back by setitem; no in-place effect on views needed
            rhs = self.eval(s.value)
            isarr = isinstance(o, Ref) and isinstance(self.st.heap.get(o.id), ArrC)
            new = self.binop(op, old, rhs) if isarr else self.inplace(op, old, rhs)
            self.setitem(o, idx, new)

    def inplace(self, op, old, rhs):
        def f(a, b):
            if isinstance(a, Ref):
                c = self.cell(a)
                if isinstance(c, ArrC):
                    r = self.binop(op, a, b)
                    rc = self.cell(r) if isinstance(r, Ref) else None
                    self.write_array(a, rc.val if isinstance(rc, ArrC) else self.top('inplace'), 'in-place %s=' % op)
                    return a
                if isinstance(c, ListC) and op == 'Add':
                    self.write_cell(a, 'list', '+=')
                    c2 = self.iter_segs(b)
                    if c.segs is None or c2 is None:
                        self.st.heap[a.id] = ListC(None, c.kind)
                    else:
                        self.st.heap[a.id] = ListC(c.segs + tuple(c2), c.kind)
                    return a
            return self.binop(op, a, b)
        return self.lift(f, old, rhs)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                idx = self.eval_index(t.slice)
                self.delitem(o, idx)

    def delitem(self, o, idx):
        def f(o):
            if isinstance(o, Ref):
                c = self.cell(o)
                self.write_cell(o, 'item', 'del')
                if isinstance(c, DictC) and isinstance(idx, Val):
                    d = dict(c.d)
                    d.pop(idx, None)
                    self.st.heap[o.id] = DictC(d, c.open)
                elif isinstance(c, ListC):
                    segs = None
                    if c.segs is not None and isinstance(idx, Poly) and idx == ZERO and c.segs and isinstance(c.segs[0], One):
                        segs = c.segs[1:]
                    self.st.heap[o.id] = ListC(segs, c.kind)
            return NONE
        return self.lift(f, o)

    def x_FunctionDef(self, s):
        fi = MD.FuncInfo(s, self.mod(), None)
        fi.qual = self.frames[-1].fi.qual + '.' + s.name
        self.st.env[s.name] = Func(fi, closure=self.frames[-1].id)
        self.note_closure(fi)

    def note_closure(self, fi):
        if not hasattr(self, 'closure_envs'):
            self.closure_envs = {}
        self.closure_envs[self.frames[-1].id] = self.st

    def x_Try(self, s):
        sink = []
        self.sinks.append(sink)
        st0 = self.st.copy()
        normal = None
        try:
            self.exec_block(s.body)
            self.exec_block(s.orelse)
            normal = self.st
        except DeadPath:
            pass
        finally:
            self.sinks.pop()
        outs = []
        rest = []
        for e in sink:
            h = None
            for hd in s.handlers:
                names = handler_names(hd)
                if names is None or e.exc in names or 'Exception' in names or (e.exc == '?'):
                    h = hd
                    break
            if h is None or e.state is None and h is None:
                rest.append(e)
                continue
            st = e.state.copy() if e.state is not None else st0.copy()
            st.pc = list(e.pc)
            self.set_state(st)
            try:
                if h.name:
                    self.st.env[h.name] = Opq('exc', e.exc)
                self.exec_block(h.body)
                outs.append((self.st, None))
            except DeadPath:
                pass
        # implicit exceptions
        for hd in s.handlers:
            names = handler_names(hd)
            if any(names is None or e.exc in names or 'Exception' in (names or ()) for e in sink):
                continue
            st = st0.copy()
            self.set_state(st)
            c = Cond(('exc', self.site, next(self.ids)))
            try:
                self.assume(c)
                if hd.name:
                    self.st.env[hd.name] = Opq('exc', '?')
                self.exec_block(hd.body)
                outs.append((self.st, None))
            except DeadPath:
                pass
            if normal is not None:
                normal.pc = normal.pc + [cnot(c)]
        self.sinks[-1].extend(rest)
        if normal is not None:
            outs.append((normal, None))
        if not outs:
            raise DeadPath()
        if len(outs) == 1:
            self.set_state(outs[0][0])
        else:
            s2, _ = self.merge_exits(outs)
            self.set_state(s2)
        self.exec_block(s.finalbody)

    def x_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.exec_block(s.body)

    def x_Break(self, s):
        self.frames[-1].loops[-1].breaks.append((self.st, None))
        self.st = self.st.copy()
        raise DeadPath()

    def x_Continue(self, s):
        self.frames[-1].loops[-1].conts.append((self.st, None))
        self.st = self.st.copy()
        raise DeadPath()

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.eval(s.iter)
        self.for_over(it, lambda v: self.assign(s.target, v), s.body, s.orelse, s)

    def for_over(self, it, bindf, body, orelse, node):
        # resolve gammas in the iterable by splitting
        def run(itv):
            if isinstance(itv, Opq) and itv.name == 'ndindex':
                return self.loop_nd(itv, bindf, body, orelse, node)
            segs = self.iter_segs(itv)
            self.loop_segs(segs, bindf, body, orelse, node)
            return None
        self.lift(run, it)

    def loop_nd(self, itv, bindf, body, orelse, node):
        n, m = itv.args
        box = []

        def inner():
            i = box[-1]
            r = self.np.mkrange(ZERO, m, 1)
            self.loop_segs(self.iter_segs(r), lambda j: bindf(Tup([i, j])), body, [], node)
        r = self.np.mkrange(ZERO, n, 1)
        self.loop_segs(self.iter_segs(r), box.append, inner, orelse, node)
        return None

    def loop_segs(self, segs, bindf, body, orelse, node):
        breaks = []
        dead = False
        if segs is None:
            seg = Rep(Poly.atom(('dim', 'TOPlen%d' % next(self.ids))), fresh('i'), self.top('iteration'))
            segs = [seg]
        for seg in segs:
            try:
                if isinstance(seg, One):
                    breaks += self.once(seg.v, bindf, body)
                elif seg.n.as_int() is not None and seg.n.as_int() <= self.unroll:
                    for j in range(seg.n.as_int()):
                        sub = {seg.var: P(j)}
                        c = seg.cond.subst(sub)
                        v = seg.val.subst(sub)

                        def go():
                            try:
                                breaks.extend(self.once(self.thaw(v), bindf, body))
                            except DeadBreak as e:
                                breaks.extend(e.breaks)
                                raise DeadPath()
                            return None
                        if c.is_true():
                            go()
                        else:
                            self.split(c, go, lambda: None)
                else:
                    breaks += self.summarise(seg, bindf, body, node)
            except DeadBreak as e:
                breaks += e.breaks
                dead = True
                break
            except DeadPath:
                dead = True
                break
        if not dead:
            try:
                self.exec_block(orelse)
            except DeadPath:
                dead = True
        if breaks:
            outs = list(breaks)
            if not dead:
                outs.append((self.st, None))
            if len(outs) == 1:
                self.set_state(outs[0][0])
            else:
                s2, _ = self.merge_exits(outs)
                self.set_state(s2)
        elif dead:
            raise DeadPath()

    def once(self, v, bindf, body):
        """One execution of the loop body; returns break states; leaves the fallthrough state in self.st."""
        fr = self.frames[-1]
        ctl = LoopCtl()
        fr.loops.append(ctl)
        alive = True
        try:
            bindf(v)
            self.run_body(body)
        except DeadPath:
            alive = False
        finally:
            fr.loops.pop()
        outs = list(ctl.conts)
        if alive:
            outs.append((self.st, None))
        if not outs:
            if ctl.breaks:
                if len(ctl.breaks) == 1:
                    s = ctl.breaks[0][0]
                else:
                    s, _ = self.merge_exits(ctl.breaks)
                self.break_only = s
                raise DeadBreak(ctl.breaks)
            raise DeadPath()
        if len(outs) == 1:
            self.set_state(outs[0][0])
        else:
            s2, _ = self.merge_exits(outs)
            self.set_state(s2)
        return ctl.breaks

    def run_body(self, body):
        if callable(body):
            body()
        else:
            self.exec_block(body)

    def summarise(self, seg, bindf, body, node):
        from .loops import summarise
        return summarise(self, seg, bindf, body, node)

    def x_While(self, s):
        from .loops import while_loop
        while_loop(self, s)

    # ------------------------------------------------------------ assignment
    def set_name(self, n, v):
        g = self.st.env.get('$globals')
        if isinstance(g, Const) and n in g.v:
            self.ev('global_write', name=n)
        self.st.env[n] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            idx = self.eval_index(t.slice)
            self.setitem(o, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n, t=None):
        def f(v):
            if v == NONE:
                self.none_use('unpacking')
            if isinstance(v, Tup) and len(v.items) == n:
                return Tup(v.items)
            if isinstance(v, Ref):
                c = self.cell(v)
                if isinstance(c, ListC) and c.segs is not None:
                    return Tup([self.getitem(v, P(i)) for i in range(n)])
                if isinstance(c, ArrC):
                    return Tup([self.getitem(v, P(i)) for i in range(n)])
            return Tup([self.top('unpack') for _ in range(n)])
        r = self.lift(f, v)
        if isinstance(r, Tup):
            return list(r.items)
        return [self._gproj(r, i) for i in range(n)]

    def _gproj(self, r, i):
        if isinstance(r, Gamma):
            return gamma(r.c, self._gproj(r.a, i), self._gproj(r.b, i))
        if isinstance(r, Tup):
            return r.items[i]
        return r

    def write_cell(self, ref, what, name):
        self.ev('wcell', cell=ref.id, origin=self.orig(ref.id), what=what, name=name)

    def write_array(self, ref, val, how):
        c = self.cell(ref)
        self.ev('warray', cell=ref.id, storage=c.st, how=how)
        for i, x in list(self.st.heap.items()):
            if isinstance(x, ArrC) and i != ref.id and (x.st & c.st):
                self.st.heap[i] = ArrC(self.top('aliased write'), x.st)
        self.st.heap[ref.id] = ArrC(val, c.st)

    def setattr(self, o, name, v):
        def f(o):
            if o == NONE:
                self.none_use('attribute %s of None' % name)
            if isinstance(o, Ref):
                c = self.cell(o)
                if isinstance(c, ObjC):
                    r = c.ci.lookup(self.prog, name) if c.ci else None
                    if c.ci:
                        for k in c.ci.mro(self.prog):
                            if name in k.setters:
                                self.call_func(k.setters[name], [o, v], {})
                                return NONE
                    self.ev('wfield', cell=o.id, origin=self.orig(o.id), field=name, value=v, cls=c.ci.name if c.ci else None)
                    ff = dict(self.cell(o).f)
                    ff[name] = v
                    self.st.heap[o.id] = ObjC(c.ci, ff)
                    return NONE
            if isinstance(o, (ClassV, ModV, Func)):
                self.ev('global_write', name='%r.%s' % (o, name))
            return NONE
        self.lift(f, o)

    # ------------------------------------------------------------ lookup
    def lookup(self, name):
        env = self.st.env
        if name in env:
            v = env[name]
            v = self.simplify(v)
            if v is not env[name]:
                env[name] = v
            if v is UNDEF or v == UNDEF:
                self.ev('unbound', name=name)
                return self.top('unbound %s' % name)
            return v
        cl = env.get('$closure')
        if cl is not None:
            if isinstance(cl, dict):
                if name in cl:
                    return cl[name]
                if cl.get('$closure') is not None:
                    c2 = cl['$closure']
                    if isinstance(c2, dict) and name in c2:
                        return c2[name]
        m = self.mod() or env.get('$mod')
        if '$mod' in env:
            m = env['$mod']
        return self.global_name(m, name)

    def global_name(self, m, name):
        if m is not None:
            e = self.prog.resolve_in(m, name)
            v = self.static_val(e)
            if v is not None:
                return v
            if isinstance(e, tuple) and e[0] == 'assign':
                k = (m.name, name)
                if k not in self.globals_cells:
                    env = self.st.env
                    self.st.env = {'$mod': m}
                    fr = Frame(MD.FuncInfo(ast.parse('def _module_(): pass').body[0], m), next(self.ids))
                    self.frames.append(fr)
                    try:
                        v = self.eval(e[1])
                    finally:
                        self.frames.pop()
                        self.st.env = env
                    if isinstance(v, Ref):
                        self.origin[v.id] = ('global', '%s.%s' % k)
                        c = self.cell(v)
                        if isinstance(c, ArrC):
                            self.st.heap[v.id] = ArrC(c.val, frozenset([('global', '%s.%s' % k)]))
                    self.globals_cells[k] = v
                v = self.globals_cells[k]
                if isinstance(v, Ref) and v.id not in self.st.heap:
                    return self.top('global %s' % name)
                return v
        return Ext('builtins.' + name)

    def simplify(self, v):
        while isinstance(v, Gamma):
            d = self.decide(v.c)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            else:
                break
        return v

    # ------------------------------------------------------------ expressions
    def cond(self, node):
        return self.truth(self.simplify(self.eval(node)))

    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.top('expression %s' % type(n).__name__)
        v = m(n)
        return v

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return cbool(v)
        if isinstance(v, int):
            return P(v)
        if isinstance(v, float):
            return P(Fraction(repr(v)))
        return Const(v) if v is not None else NONE

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = self.simplify(self.eval(x.value))
                parts.append(v if x.format_spec is None and x.conversion in (-1, 115) else None)
            else:
                parts.append(Const(x.value))
        return self.text(parts)

    def text(self, parts):
        """The string that concatenates the texts of the parts (numbers, strings); None: unknown text."""
        out = None
        for v in parts:
            if isinstance(v, Poly):
                v = Opq('str', v)
            elif not (isinstance(v, Const) and isinstance(v.v, str)) and not (isinstance(v, Opq) and v.name in ('str', 'strcat') and v.args):
                return Opq('str')
            if out is None:
                out = v
            elif isinstance(out, Const) and isinstance(v, Const):
                out = Const(out.v + v.v)
            else:
                out = Opq('strcat', out, v)
        return out if out is not None else Const('')

    def e_Tuple(self, n):
        return self.seq(n.elts, lambda items: Tup(items), tuple_=True)

    def seq(self, elts, mk, tuple_=False):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.iter_segs(self.simplify(self.eval(e.value)))
                if s is None:
                    segs = None
                    break
                segs.extend(s)
            else:
                segs.append(One(self.eval(e)))
        if tuple_:
            if segs is not None and all(isinstance(s, One) for s in segs):
                return Tup([s.v for s in segs])
            return self.new_list(segs)
        return self.new_list(segs)

    def e_List(self, n):
        return self.seq(n.elts, None)

    def e_Set(self, n):
        r = self.seq(n.elts, None)
        c = self.cell(r)
        self.st.heap[r.id] = ListC(c.segs, 'set')
        return r

    def e_Dict(self, n):
        d = {}
        opn = False
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.simplify(self.eval(v))
                if isinstance(o, Ref) and isinstance(self.cell(o), DictC):
                    d.update(self.cell(o).d)
                    opn = opn or self.cell(o).open
                else:
                    opn = True
                continue
            kk = self.eval(k)
            vv = self.eval(v)
            if isinstance(kk, (Const, Poly)):
                d[kk] = vv
            else:
                opn = True
        return self.alloc(DictC(d, opn))

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return cnot(self.truth(self.simplify(v)))
        op = type(n.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        def f(v):
            if v == NONE:
                self.none_use('operator on None')
            if op == 'USub':
                if isinstance(v, Poly):
                    return -v
                if isinstance(v, Mat):
                    return -v
                m = self.arr(v)
                if isinstance(m, Mat):
                    return self.new_arr(-m)
            if op == 'UAdd':
                return v
            if op == 'Invert':
                m = self.arr(v)
                if isinstance(m, BVec):
                    g = fresh('q')
                    return self.new_arr(BVec(m.n, g, cnot(m.at(Poly.atom(g)))))
                if isinstance(v, Cond):
                    return cnot(v)
            return self.top('unary')
        return self.lift(f, v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        def go(i):
            v = self.simplify(self.eval(n.values[i]))
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(v, Cond):
                if isand:
                    r = self.split(c, lambda: go(i + 1), lambda: FALSE)
                else:
                    r = self.split(c, lambda: TRUE, lambda: go(i + 1))
                return r
            if isand:
                return self.split(c, lambda: go(i + 1), lambda: v)
            return self.split(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_IfExp(self, n):
        c = self.cond(n.test)
        return self.split(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_Lambda(self, n):
        fi = MD.FuncInfo(n, self.mod(), None)
        fi.qual = (self.frames[-1].fi.qual if self.frames else '?') + '.<lambda>@%d' % n.lineno
        f = Func(fi, closure=dict(self.st.env))
        return f

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        y = self.st.env.get('$yield')
        if isinstance(y, Ref):
            c = self.cell(y)
            if isinstance(c, ListC) and c.segs is not None:
                self.st.heap[y.id] = ListC(c.segs + (One(v),), 'list')
            else:
                self.st.heap[y.id] = ListC(None)
        return NONE

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n):
        left = self.eval(n.left)
        conds = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            c = self.compare(type(op).__name__, left, right)
            if conds is None:
                conds = c
            else:
                a, b = self.truth(conds), self.truth(c)
                conds = cand(a, b)
            left = right
        return conds

    # array content
    def arr(self, v):
        """Mat (also for numbers), BVec, Opq or Top; None when v is not numeric."""
        if isinstance(v, Poly):
            return Mat.scalar(v)
        if isinstance(v, Mat):
            return v
        if isinstance(v, Cond):
            return None
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ArrC):
                return c.val
            if isinstance(c, DictC) and SM.is_model(c) and c.d[SM.T].v == 'expr':
                x = self.simplify(c.d[SM.K('val')])
                return self.arr(x)
        if isinstance(v, Top):
            return v
        return None

    def storage(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ArrC):
                return c.st
        return frozenset()

    def binop(self, op, a, b):
        return self.lift(lambda x, y: self.binop1(op, x, y), a, b)

    def binop1(self, op, a, b):
        if a == NONE or b == NONE:
            self.none_use('None in arithmetic (%s)' % op)
        if isinstance(a, Cond) and isinstance(b, Cond):
            if op == 'BitAnd':
                return cand(a, b)
            if op == 'BitOr':
                return cor(a, b)
            if op == 'BitXor':
                return cor(cand(a, cnot(b)), cand(cnot(a), b))
        if isinstance(a, Cond):
            a = gamma(a, ONE, ZERO)
            return self.binop(op, a, b)
        if isinstance(b, Cond):
            b = gamma(b, ONE, ZERO)
            return self.binop(op, a, b)
        # strings
        if isinstance(a, Const) or isinstance(b, Const) or (isinstance(a, Opq) and a.name == 'str') or \
                (isinstance(b, Opq) and b.name == 'str'):
            if isinstance(a, Const) and isinstance(b, Const) and op == 'Add' and isinstance(a.v, str) and isinstance(b.v, str):
                return Const(a.v + b.v)
            if op == 'Add' and isinstance(a, (Const, Opq)) and isinstance(b, (Const, Opq)):
                return Opq('strcat', a, b)
            if op == 'Mod':
                if isinstance(a, Const) and isinstance(a.v, str):
                    lit = re.split(r'(%[sd])', a.v)
                    vs = list(b.items) if isinstance(b, Tup) else [b]
                    if sum(x in ('%s', '%d') for x in lit) == len(vs) and '%' not in ''.join(x for x in lit if x not in ('%s', '%d')):
                        return self.text([vs.pop(0) if x in ('%s', '%d') else Const(x) for x in lit if x])
                return Opq('str')
        # sequences
        if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
            return Tup(a.items + b.items)
        la, lb = self.aslist(a), self.aslist(b)
        if la is not None and lb is not None and op == 'Add':
            if la.segs is None or lb.segs is None:
                return self.new_list(None)
            return self.new_list(la.segs + lb.segs, la.kind)
        if la is not None and lb is not None and la.kind == 'set':
            return self.np.set_op(op, a, b)
        if op == 'Mult':
            for l, n in ((la, b), (lb, a)):
                if l is not None and isinstance(n, Poly):
                    return self.list_repeat(l, n)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.polyop(op, a, b)
        return self.np.binop(op, a, b)

    def aslist(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListC):
                return c
        if isinstance(v, Tup):
            return ListC(tuple(One(x) for x in v.items), 'tuple')
        return None

    def list_repeat(self, l, n):
        if l.segs is None:
            return self.new_list(None)
        c = n.as_int()
        if c is not None and c <= 8:
            return self.new_list(l.segs * max(c, 0))
        if len(l.segs) == 1 and isinstance(l.segs[0], One):
            k = fresh('r')
            CTX.ranges[k] = (ZERO, n)
            return self.new_list([Rep(n, k, self.freeze(l.segs[0].v))])
        if len(l.segs) == 1 and isinstance(l.segs[0], Rep) and l.segs[0].cond.is_true() and \
                l.segs[0].var not in l.segs[0].val.free_vars():
            k = fresh('r')
            return self.new_list([Rep(n * l.segs[0].n, k, l.segs[0].val)])
        if not l.segs:
            return self.new_list([])
        return self.new_list(None)

    def polyop(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            c = b.const()
            if c is not None and c != 0:
                return a * P(Fraction(1) / c)
            return a * Poly.atom(('recip', b))
        if op == 'FloorDiv':
            if a.const() is not None and b.const():
                return P(a.const() // b.const())
            if len(b.t) == 1:
                q, r = a.divmono(b)
                if not r.t:
                    return q
            return Poly.atom(('int', 'floordiv', a, b))
        if op == 'Mod':
            if a.const() is not None and b.const():
                return P(a.const() % b.const())
            return Poly.atom(('int', 'mod', a, b))
        if op == 'Pow':
            e = b.as_int()
            if e is not None and 0 <= e <= 4:
                r = ONE
                for _ in range(e):
                    r = r * a
                return r
            if b == P(Fraction(1, 2)):
                return Poly.atom(('sqrt', a))
            return Poly.atom(('powr', a, b))
        return self.top('operator %s' % op)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            c = self.is_same(self.simplify(a), self.simplify(b))
            return c if op == 'Is' else cnot(c)
        if op in ('In', 'NotIn'):
            r = self.lift(lambda x, y: self.contains(x, y), a, b)
            r = self.truth(r)
            return r if op == 'In' else cnot(r)
        return self.lift(lambda x, y: self.compare1(op, x, y), a, b)

    def is_same(self, a, b):
        if b == NONE:
            return self.isnone(a)
        if a == NONE:
            return self.isnone(b)
        if isinstance(a, Gamma):
            return cor(cand(a.c, self.is_same(a.a, b)), cand(cnot(a.c), self.is_same(a.b, b)))
        if isinstance(b, Gamma):
            return self.is_same(b, a)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cor(cand(a, b), cand(cnot(a), cnot(b)))
        if a == b:
            return TRUE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return FALSE
        return Cond(('same', a, b))

    def compare1(self, op, a, b):
        if (a == NONE or b == NONE) and op in ('Lt', 'LtE', 'Gt', 'GtE'):
            self.none_use('comparison with None')
        if op in ('Eq', 'NotEq'):
            if a == NONE or b == NONE:
                c = cbool(a == b)
                return c if op == 'Eq' else cnot(c)
            r = self.equal(a, b)
            if isinstance(r, Cond):
                return r if op == 'Eq' else cnot(r)
            if op == 'NotEq':
                return self.unop('Invert', r)
            return r
        if isinstance(a, Poly) and isinstance(b, Poly):
            k = SM.constr(op, a, b) if self.models else None
            if k is not None:
                return k
            if is_int(a) and is_int(b):
                return {'Lt': lambda: ige(b - a - 1), 'LtE': lambda: ige(b - a),
                        'Gt': lambda: ige(a - b - 1), 'GtE': lambda: ige(a - b)}[op]()
            return {'Lt': lambda: rgt(b - a), 'LtE': lambda: rge(b - a),
                    'Gt': lambda: rgt(a - b), 'GtE': lambda: rge(a - b)}[op]()
        ma, mb = self.arr(a), self.arr(b)
        if isinstance(ma, Mat) and isinstance(mb, Mat):
            return self.np.compare(op, ma, mb)
        if isinstance(ma, Top) or isinstance(mb, Top):
            return self.top('comparison')
        return Cond(('truth', Opq('cmp', op, self.freeze(a), self.freeze(b)), ))

    def equal(self, a, b):
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cor(cand(a, b), cand(cnot(a), cnot(b)))
        if isinstance(a, Const) and isinstance(b, Const):
            return cbool(a.v == b.v)
        if isinstance(a, Poly) and isinstance(b, Poly):
            k = SM.constr('Eq', a, b) if self.models else None
            if k is not None:
                return k
            if is_int(a) and is_int(b):
                return ieq(a - b)
            return req(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return cand(*[self.truth(self.equal(x, y)) for x, y in zip(a.items, b.items)])
        ma, mb = self.arr(a), self.arr(b)
        if isinstance(ma, Mat) and isinstance(mb, Mat):
            return self.np.compare('Eq', ma, mb)
        la, lb = self.aslist(a), self.aslist(b)
        if la is not None and lb is not None:
            fa, fb = self.freeze(a), self.freeze(b)
            if fa == fb:
                return TRUE
            return Cond(('eqv',) + tuple(sorted((fa, fb), key=hash)))
        if isinstance(a, (Opq, Ext)) and isinstance(b, (Const, Ext)) or isinstance(a, (Const, Ext)) and isinstance(b, (Opq, Ext)) or \
                isinstance(a, Opq) and isinstance(b, Opq):
            if a == b:
                return TRUE
            return Cond(('eqv',) + tuple(sorted((a, b), key=hash)))
        if isinstance(a, Top) or isinstance(b, Top):
            return Cond(('truth', self.top('==')))
        if (isinstance(a, Const) and isinstance(a.v, str)) != (isinstance(b, Const) and isinstance(b.v, str)):
            return FALSE
        return Cond(('truth', self.top('==')))

    def contains(self, x, cont):
        if cont == NONE:
            self.none_use('membership test in None')
        l = self.aslist(cont)
        if l is not None and l.segs is not None:
            out = []
            for s in l.segs:
                if isinstance(s, One):
                    out.append(self.truth(self.simplify(self.compare('Eq', x, s.v))))
                else:
                    v = self.thaw(s.val)
                    out.append(exists(s.n, s.var, cand(s.cond, self.truth(self.simplify(self.compare('Eq', x, v))))))
            return cor(*out)
        if isinstance(cont, Ref):
            c = self.cell(cont)
            if isinstance(c, DictC):
                if isinstance(x, (Const, Poly)):
                    if x in c.d:
                        return TRUE
                    if not c.open:
                        return FALSE
            if isinstance(c, ListC) and c.note:
                return Cond(('in', self.freeze(x), c.note))
        if isinstance(cont, (Opq, Const)):
            return Cond(('in', self.freeze(x), cont))
        return Cond(('truth', self.top('in')))

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n):
        o = self.eval(n.value)
        return self.getattr(o, n.attr)

    def getattr(self, o, name):
        return self.lift(lambda x: self.getattr1(x, name), o)

    def getattr1(self, o, name):
        if o == NONE:
            self.none_use('attribute %s of None' % name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjC):
                if name in c.f:
                    v = self.simplify(c.f[name])
                    if v == UNDEF:
                        return self.top('undefined attribute %s' % name)
                    return v
                if c.ci is not None:
                    r = c.ci.lookup(self.prog, name)
                    if r is not None:
                        kind, e, cls = r
                        if kind == 'prop':
                            return self.call_func(e, [o], {})
                        if kind in ('method', 'class'):
                            return Method(o, name)
                        if kind == 'static':
                            return Func(e)
                        if kind == 'attr':
                            return self.class_attr(cls, name, e)
                    if name == '__dict__':
                        return Opq('__dict__', o)
                    if name == '__class__':
                        return ClassV(c.ci)
                return self.top('attribute %s' % name)
            if isinstance(c, ArrC):
                return self.np.arr_attr(o, c, name)
            if isinstance(c, DictC) and SM.is_model(c):
                return SM.attr(self.np, o, c, name)
            return Method(o, name)
        if isinstance(o, Mat) or isinstance(o, Poly):
            return self.np.scalar_attr(o, name)
        if isinstance(o, ModV):
            v = self.static_val(self.prog.resolve_in(o.mod, name))
            if v is None:
                return self.global_name(o.mod, name)
            return v
        if isinstance(o, Ext):
            k = SM.const(o.path + '.' + name)
            return k if k is not None else Ext(o.path + '.' + name)
        if isinstance(o, ClassV):
            r = o.ci.lookup(self.prog, name)
            if r is not None:
                kind, e, cls = r
                if kind in ('static',):
                    return Func(e)
                if kind == 'method':
                    return Func(e)
                if kind == 'class':
                    return Method(o, name)
                if kind == 'attr':
                    return self.class_attr(cls, name, e)
            if name in ('__name__',):
                return Const(o.ci.name)
            return self.top('class attribute %s' % name)
        if isinstance(o, Opq):
            return self.np.opq_attr(o, name)
        if isinstance(o, (Const, Tup)):
            return Method(o, name)
        return self.top('attribute %s' % name)

    def class_attr(self, cls, name, e):
        k = ('classattr', cls.qual, name)
        if k not in self.globals_cells:
            env = self.st.env
            self.st.env = {'$mod': cls.mod}
            v = self.eval(e)
            self.st.env = env
            if isinstance(v, Ref):
                self.origin[v.id] = ('global', cls.qual + '.' + name)
                c = self.cell(v)
                if isinstance(c, ArrC):
                    self.st.heap[v.id] = ArrC(c.val, frozenset([('global', cls.qual + '.' + name)]))
            self.globals_cells[k] = v
        v = self.globals_cells[k]
        if isinstance(v, Ref) and v.id not in self.st.heap:
            return self.top('class attribute')
        return v

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n):
        o = self.eval(n.value)
        return self.getitem(o, self.eval_index(n.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            lo = self.eval(s.lower) if s.lower is not None else NONE
            hi = self.eval(s.upper) if s.upper is not None else NONE
            st = self.eval(s.step) if s.step is not None else NONE
            return ('slice', self.simplify(lo), self.simplify(hi), self.simplify(st))
        if isinstance(s, ast.Tuple):
            return ('tuple',) + tuple(self.eval_index(x) for x in s.elts)
        return self.simplify(self.eval(s))

    def index_gammas(self, idx):
        if isinstance(idx, Gamma):
            return idx
        if isinstance(idx, tuple):
            for x in idx[1:]:
                g = self.index_gammas(x)
                if g is not None:
                    return g
        if isinstance(idx, Ref):
            c = self.cell(idx)
            if isinstance(c, GamC):
                return None
        return None

    def subst_index(self, idx, g, v):
        if idx is g:
            return v
        if isinstance(idx, tuple):
            return (idx[0],) + tuple(self.subst_index(x, g, v) for x in idx[1:])
        return idx

    def getitem(self, o, idx):
        g = self.index_gammas(idx)
        if g is not None:
            return self.split(g.c, lambda: self.getitem(o, self.subst_index(idx, g, g.a)),
                              lambda: self.getitem(o, self.subst_index(idx, g, g.b)))
        for p in (idx.items if isinstance(idx, Tup) else (idx,)):
            if isinstance(p, Ref) and isinstance(self.st.heap.get(p.id), GamC):
                return self.lift(lambda x: self.getitem(o, idx), p)
        return self.lift(lambda x: self.getitem1(x, idx), o)

    def getitem1(self, o, idx):
        if o == NONE:
            self.none_use('subscript of None')
        if isinstance(idx, Const) and idx == NONE and not isinstance(o, Ref):
            self.none_use('None as index')
        if isinstance(o, Tup):
            if isinstance(idx, Poly) and idx.as_int() is not None:
                i = idx.as_int()
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
            if isinstance(idx, tuple) and idx[0] == 'slice' or isinstance(idx, Poly):
                l = self.new_list([One(x) for x in o.items])
                return self.getitem1(l, idx)
            return self.top('tuple index')
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictC):
                if isinstance(idx, (Const, Poly)):
                    if idx in c.d:
                        v = self.simplify(c.d[idx])
                        if v == UNDEF or (isinstance(v, Gamma) and (v.a == UNDEF or v.b == UNDEF)):
                            self.ev('key_missing', key=idx)
                        return v
                    if not c.open:
                        self.ev('key_missing', key=idx)
                        self.do_raise('KeyError', repr(idx), implicit=True)
                return self.top('dict item')
            if isinstance(c, ListC):
                return self.list_get(o, c, idx)
            if isinstance(c, ArrC):
                return self.np.arr_get(o, c, idx)
            if isinstance(c, ObjC):
                return self.top('item of object')
        if isinstance(o, Opq):
            return self.np.opq_item(o, idx)
        if isinstance(o, Const):
            return self.top('string index')
        return self.top('subscript')

    def list_len(self, c):
        if c.segs is None:
            return None
        n = ZERO
        for s in c.segs:
            if isinstance(s, One):
                n = n + 1
            elif s.cond.is_true():
                n = n + s.n
            else:
                g = canon_rep(s.n, s.var, ZERO, s.cond)
                n = n + Poly.atom(('len', 'filter', g[1], g[2], g[4]))
        if c.kind == 'set':
            return None
        return n

    def list_get(self, o, c, idx):
        if c.segs is None:
            return self.top('list item')
        if isinstance(idx, Poly):
            if c.note and isinstance(c.note, tuple) and c.note[0] == 'carry':
                r = self.carry_item(c, idx)
                if r is not None:
                    return r
            n = self.list_len(c)
            e = idx
            if n is None:
                return self.top('set index')
            if CTX.nonneg(-idx - 1):
                e = n + idx
            pos = ZERO
            for s in c.segs:
                if isinstance(s, One):
                    if CTX.is_zero(e - pos) is True:
                        return s.v
                    if CTX.nonneg(e - pos - 1):
                        pos = pos + 1
                        continue
                    if CTX.nonneg(pos - e - 1):
                        break
                    return self.undecided_item(c, e)
                if not s.cond.is_true():
                    if len(c.segs) == 1:
                        return self.filter_item(s, e)
                    if pos == ZERO and e == ZERO and s is c.segs[0]:
                        return self.first_item(list(c.segs))
                    return self.top('filtered list item')
                if CTX.nonneg(e - pos) and (CTX.nonneg(pos + s.n - 1 - e) or s is c.segs[-1]):
                    return self.thaw(s.val.subst({s.var: e - pos}))
                if CTX.nonneg(e - pos - s.n):
                    pos = pos + s.n
                    continue
                return self.undecided_item(c, e)
            return self.top('list index')
        if isinstance(idx, tuple) and idx[0] == 'slice':
            return self.list_slice(c, idx)
        return self.top('list index')

    def first_item(self, segs, default=None):
        """First element of a list of plain and filtered segments; `default` (a value) when there is none."""
        if not segs:
            if default is not None:
                return default
            self.do_raise('IndexError', 'index out of range', implicit=True)
        s = segs[0]
        if isinstance(s, One):
            return s.v
        if len(segs) == 1 and default is None:
            return self.filter_item(s, ZERO) if not s.cond.is_true() else self.thaw(s.val.subst({s.var: ZERO}))
        if s.n == ONE:
            return self.split(s.cond.subst({s.var: ZERO}), lambda: self.thaw(s.val.subst({s.var: ZERO})),
                              lambda: self.first_item(segs[1:], default))
        get = lambda: self.filter_item(s, ZERO) if not s.cond.is_true() else self.thaw(s.val.subst({s.var: ZERO}))
        return self.split(exists(s.n, s.var, s.cond), get, lambda: self.first_item(segs[1:], default))

    def filter_item(self, s, e):
        """e-th element satisfying the filter."""
        g = canon_rep(s.n, s.var, ZERO, s.cond)
        if e == ZERO:
            c0 = forall(s.n, s.var, cnot(s.cond))
            d = self.decide(c0)
            if d is True:
                self.do_raise('IndexError', 'index out of range', implicit=True)
            if d is None:
                self.may_raise('IndexError', 'index out of range', c0)
                self.assume(cnot(c0), pc=False)
            # first index satisfying the condition
            return self.thaw(s.val.subst({s.var: Poly.atom(('first', g[1], g[2], g[4]))}))
        return self.thaw(s.val.subst({s.var: Poly.atom(('int', 'nth', e, g[1], g[2], g[4]))}))

    def undecided_item(self, c, e):
        """Element e where the segment is not known: split on position when there are few segments."""
        pos = ZERO
        for s in c.segs[:-1]:
            if isinstance(s, One):
                cnd = ieq(e - pos)
                nxt = pos + 1
            else:
                cnd = ige(pos + s.n - 1 - e)
                nxt = pos + s.n
            if self.decide(cnd) is None and self.steps < 40000:
                l2 = self.new_list(c.segs)
                return self.split(cnd, lambda: self.getitem1(l2, e), lambda: self.getitem1(l2, e))
            pos = nxt
        return self.top('list item (position undecided)')

    def carry_item(self, c, idx):
        return None

    def list_slice(self, c, idx):
        _, lo, hi, st = idx
        step = 1
        if st != NONE:
            if not (isinstance(st, Poly) and st.as_int() is not None):
                return self.top('slice step')
            step = st.as_int()
        n = self.list_len(c)
        if n is None:
            return self.new_list(None)
        def norm(x, default):
            if x == NONE:
                return default
            if not isinstance(x, Poly):
                return None
            if CTX.nonneg(-x - 1):
                return n + x
            return x
        if step == 1:
            a, b = norm(lo, ZERO), norm(hi, n)
            if a is None or b is None:
                return self.new_list(None)
            if CTX.nonneg(b - n):
                b = n
            if len(c.segs) == 0:
                return self.new_list([])
            if len(c.segs) == 1 and isinstance(c.segs[0], Rep) and c.segs[0].cond.is_true():
                s = c.segs[0]
                m = b - a
                g = fresh('s')
                CTX.ranges[g] = (ZERO, m)
                return self.new_list([Rep(m, g, s.val.subst({s.var: Poly.atom(g) + a}))])
            # constant positions
            out, pos = [], ZERO
            ok = True
            for s in c.segs:
                ln = ONE if isinstance(s, One) else s.n
                if not isinstance(s, One) and not s.cond.is_true():
                    ok = False
                    break
                if CTX.nonneg(a - pos - ln) or CTX.nonneg(pos - b):
                    pos = pos + ln
                    continue
                if CTX.nonneg(pos - a) and CTX.nonneg(b - pos - ln):
                    out.append(s)
                    pos = pos + ln
                    continue
                if isinstance(s, Rep):
                    # partial
                    a2 = a - pos if CTX.nonneg(a - pos) else (ZERO if CTX.nonneg(pos - a) else None)
                    b2 = b - pos if CTX.nonneg(pos + ln - b) else (ln if CTX.nonneg(b - pos - ln) else None)
                    if a2 is None or b2 is None:
                        ok = False
                        break
                    g = fresh('s')
                    CTX.ranges[g] = (ZERO, b2 - a2)
                    out.append(Rep(b2 - a2, g, s.val.subst({s.var: Poly.atom(g) + a2})))
                    pos = pos + ln
                    continue
                ok = False
                break
            return self.new_list(out if ok else None)
        if step == -1:
            a = n - 1 if lo == NONE else norm(lo, None)
            b = P(-1) if hi == NONE else norm(hi, None)
            if a is None or b is None:
                return self.new_list(None)
            if CTX.nonneg(a - n + 1):
                a = n - 1
            m = a - b
            if all(isinstance(s, One) for s in c.segs):
                ia, ib = a.as_int(), b.as_int()
                if ia is not None and ib is not None:
                    return self.new_list([c.segs[i] for i in range(ia, ib, -1)])
            if len(c.segs) == 1 and isinstance(c.segs[0], Rep) and c.segs[0].cond.is_true():
                s = c.segs[0]
                g = fresh('s')
                CTX.ranges[g] = (ZERO, m)
                return self.new_list([Rep(m, g, s.val.subst({s.var: a - Poly.atom(g)}))])
        return self.new_list(None)

    def setitem(self, o, idx, v):
        g = self.index_gammas(idx)
        if g is not None:
            return self.split(g.c, lambda: self.setitem(o, self.subst_index(idx, g, g.a), v),
                              lambda: self.setitem(o, self.subst_index(idx, g, g.b), v))
        return self.lift(lambda x: self.setitem1(x, idx, v), o)

    def setitem1(self, o, idx, v):
        if o == NONE:
            self.none_use('item assignment to None')
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictC):
                self.write_cell(o, 'dict', idx if isinstance(idx, Val) else '?')
                d = dict(c.d)
                if isinstance(idx, (Const, Poly)):
                    d[idx] = v
                    self.st.heap[o.id] = DictC(d, c.open)
                elif isinstance(idx, Opq) and idx.name == 'symelem' and self.sweeps(idx.args[1], idx.args[0].args[1]) and \
                        not (idx.args[1].free_vars() & v.free_vars()):
                    # one entry per symbol of the vector, all with the same value: the loop visits every symbol
                    d[Opq('allof', idx.args[0])] = v
                    self.st.heap[o.id] = DictC(d, c.open)
                else:
                    self.st.heap[o.id] = DictC(d, True)
            elif isinstance(c, ListC):
                self.write_cell(o, 'list', 'item')
                segs = None
                if c.segs is not None and isinstance(idx, Poly):
                    n = self.list_len(c)
                    e = n + idx if n is not None and CTX.nonneg(-idx - 1) else idx
                    segs = self.list_set(c, e, v)
                self.st.heap[o.id] = ListC(segs, c.kind)
            elif isinstance(c, ArrC):
                self.np.arr_set(o, c, idx, v)
        return NONE

    def sweeps(self, e, n):
        """e is the index of a loop over range(n)."""
        for a in e.free_vars():
            if e == Poly.atom(a):
                return CTX.ranges.get(a) == (ZERO, n)
        return False

    def list_set(self, c, e, v):
        if e.as_int() is not None and all(isinstance(s, One) for s in c.segs) and 0 <= e.as_int() < len(c.segs):
            i = e.as_int()
            return c.segs[:i] + (One(v),) + c.segs[i + 1:]
        if len(c.segs) == 1 and isinstance(c.segs[0], Rep) and c.segs[0].cond.is_true():
            s = c.segs[0]
            fv = self.freeze(v)
            return (Rep(s.n, s.var, gamma(ieq(Poly.atom(s.var) - e), fv, s.val)),)
        return None

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v):
        """Segments of an iterable, or None."""
        if v == NONE:
            self.none_use('iteration over None')
        if isinstance(v, Tup):
            return [One(x) for x in v.items]
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListC):
                return list(c.segs) if c.segs is not None else None
            if isinstance(c, ArrC):
                m = c.val
                if isinstance(m, Mat) and m.ndim >= 1:
                    k = fresh('i')
                    CTX.ranges[k] = (ZERO, m.shape[0])
                    r = self.np.elem0(m, Poly.atom(k))
                    return [Rep(m.shape[0], k, FArr(r, c.st) if isinstance(r, Mat) and r.ndim else r)]
                if isinstance(m, BVec):
                    k = fresh('i')
                    return [Rep(m.n, k, m.at(Poly.atom(k)))]
            if isinstance(c, DictC) and not c.open:
                return [One(k) for k in c.d]
            if isinstance(c, GamC):
                return self.iter_gamma(c)
        if isinstance(v, Opq):
            return self.np.opq_iter(v)
        if isinstance(v, Gamma):
            s = self.simplify(v)
            if s is not v:
                return self.iter_segs(s)
        return None

    def iter_gamma(self, c):
        return None

    # comprehension
    def e_ListComp(self, n):
        return self.comp(n, lambda: self.eval(n.elt))

    def e_GeneratorExp(self, n):
        return self.comp(n, lambda: self.eval(n.elt))

    def e_SetComp(self, n):
        r = self.comp(n, lambda: self.eval(n.elt))
        def f(r):
            c = self.cell(r)
            self.st.heap[r.id] = ListC(c.segs, 'set')
            return r
        return self.lift(f, r)

    def e_DictComp(self, n):
        r = self.comp(n, lambda: Tup([self.eval(n.key), self.eval(n.value)]))
        def f(r):
            c = self.cell(r)
            if c.segs is not None and all(isinstance(s, One) and isinstance(s.v, Tup) and
                                          isinstance(s.v.items[0], (Const, Poly)) for s in c.segs):
                return self.alloc(DictC({s.v.items[0]: s.v.items[1] for s in c.segs}))
            if c.segs is not None:
                return self.np.dict_family(c.segs)
            return self.top('dict comprehension')
        return self.lift(f, r)

    def comp(self, n, elt):
        out = self.new_list([])
        env0 = dict(self.st.env)

        def level(i):
            if i == len(n.generators):
                v = elt()
                c = self.cell(out)
                self.st.heap[out.id] = ListC(None if c.segs is None else c.segs + (One(v),), 'list', c.note)
                return
            g = n.generators[i]
            it = self.eval(g.iter)

            def body():
                cs = TRUE
                for t in g.ifs:
                    cs = cand(cs, self.cond(t))
                if cs.is_true():
                    level(i + 1)
                else:
                    self.split(cs, lambda: level(i + 1), lambda: None)
            self.for_over(it, lambda v: self.assign(g.target, v), body, [], n)
        fr_loops = self.frames[-1].loops
        level(0)
        keep = self.st.env
        self.st.env = dict(env0)
        return out

    def sum_comp(self, n):
        """Sum of a comprehension over pairs of indices: the loops that accumulate it; None for other comprehensions."""
        first = self.eval(n.generators[0].iter)
        nd = isinstance(first, Opq) and first.name == 'ndindex'
        if not nd and len(n.generators) == 1:
            return None
        env0 = dict(self.st.env)
        self.st.env['$acc'] = ZERO

        def level(i, cs):
            if i == len(n.generators):
                v = self.eval(n.elt)
                if not cs.is_true():
                    v2 = self.np.drop_small(v, cs)
                    if v2 is None:
                        self.split(cs, lambda: add(v), lambda: None)
                        return
                    v = v2
                add(v)
                return
            g = n.generators[i]
            it = first if i == 0 else self.eval(g.iter)

            def body():
                c = cs
                for t in g.ifs:
                    c = cand(c, self.cond(t))
                level(i + 1, c)
            self.for_over(it, lambda v: self.assign(g.target, v), body, [], n)

        def add(v):
            self.st.env['$acc'] = self.binop('Add', self.st.env['$acc'], v)
        level(0, TRUE)
        r = self.st.env['$acc']
        self.st.env = dict(env0)
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        site = self.site
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            return self.super_call(n)
        f = self.eval(n.func)
        if isinstance(f, Ext) and f.path in ('builtins.sum', 'gurobipy.quicksum') and len(n.args) == 1 and not n.keywords and \
                isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)):
            r = self.sum_comp(n.args[0])
            if r is not None:
                return r
        args, kwargs = self.eval_args(n)
        if m_site(self, n):
            self.site = m_site(self, n)
        r = self.call(f, args, kwargs)
        self.site = site
        return r

    def super_call(self, n):
        fi = self.frames[-1].fi
        args, kwargs = self.eval_args(n)
        self_v = None
        a = fi.node.args.args
        if a:
            self_v = self.st.env.get(a[0].arg)
        if fi.cls is not None:
            for b in fi.cls.base_classes(self.prog):
                r = b.lookup(self.prog, n.func.attr)
                if r is not None and r[0] in ('method', 'prop'):
                    return self.call_func(r[1], [self_v] + args, kwargs)
        return NONE

    def eval_args(self, n):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.simplify(self.eval(a.value))
                if isinstance(v, Gamma):
                    args.append(('$star', v))
                    continue
                segs = self.iter_segs(v)
                if segs is not None and all(isinstance(s, One) for s in segs):
                    args.extend(s.v for s in segs)
                else:
                    args.append(('$star', v))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.simplify(self.eval(k.value))
                if isinstance(v, Ref) and isinstance(self.cell(v), DictC):
                    for kk, vv in self.cell(v).d.items():
                        if isinstance(kk, Const):
                            kwargs[kk.v] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        return args, kwargs

    def call(self, f, args, kwargs):
        f = self.simplify(f)
        if isinstance(f, Gamma):
            return self.split(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        kwargs = {k: v for k, v in kwargs.items() if k != '**'}
        if f == NONE:
            self.none_use('calling None')
        if isinstance(f, Func):
            args = self.flat(args)
            if args is None:
                return self.top('call with unknown *args')
            cl = f.closure
            if cl is not None and not isinstance(cl, dict):
                cl = self.st.env if self.frames and self.frames[-1].id == cl else dict(self.st.env)
            return self.call_func(f.fi, args, kwargs, closure=cl)
        if isinstance(f, ClassV):
            args = self.flat(args)
            if args is None:
                return self.top('call with unknown *args')
            return self.construct(f.ci, args, kwargs)
        if isinstance(f, Method):
            return self.call_method(f, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call(f.path, args, kwargs)
        if isinstance(f, Opq):
            return self.np.opq_call(f, args, kwargs)
        return self.top('call of unknown')

    def flat(self, args):
        out = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == '$star':
                segs = self.iter_segs(self.simplify(a[1]))
                if segs is None or not all(isinstance(s, One) for s in segs):
                    return None
                out.extend(s.v for s in segs)
            else:
                out.append(a)
        return out

    def construct(self, ci, args, kwargs):
        h = self.opaque.get(ci.qual)
        if h is not None:
            return h(self, ci, args, kwargs)
        if any(isinstance(b, ast.Name) and b.id in EXC for b in ci.bases):
            return Opq('exc', self.exc_base(ci))
        o = self.alloc(ObjC(ci, {}))
        r = ci.lookup(self.prog, '__init__')
        if r is not None:
            self.call_func(r[1], [o] + args, kwargs)
        self.ev('construct', cls=ci.name, cell=o.id)
        return o

    def call_method(self, f, args, kwargs):
        o, name = f.recv, f.name
        if isinstance(o, ClassV):
            r = o.ci.lookup(self.prog, name)
            if r and r[0] == 'class':
                a = self.flat(args)
                if a is None:
                    return self.top('call with unknown *args')
                return self.call_func(r[1], [o] + a, kwargs)
            return self.top('class method')
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjC):
                r = c.ci.lookup(self.prog, name)
                if r is not None:
                    a = self.flat(args)
                    if a is None:
                        return self.top('call with unknown *args')
                    if r[0] == 'class':
                        return self.call_func(r[1], [ClassV(c.ci)] + a, kwargs)
                    return self.call_func(r[1], [o] + a, kwargs)
                return self.top('method %s' % name)
            if isinstance(c, ArrC):
                return self.np.arr_method(o, name, args, kwargs)
            if isinstance(c, ListC):
                return self.np.list_method(o, name, args, kwargs)
            if isinstance(c, DictC):
                if SM.is_model(c):
                    return SM.method(self.np, o, name, args, kwargs)
                return self.np.dict_method(o, name, args, kwargs)
            if isinstance(c, GamC):
                return self.lift(lambda x: self.call_method(Method(x, name), args, kwargs), o)
        if isinstance(o, (Mat, Poly)):
            return self.np.scalar_method(o, name, args, kwargs)
        if isinstance(o, (Const, Opq)):
            return self.np.opq_method(o, name, args, kwargs)
        if isinstance(o, Tup):
            l = self.new_list([One(x) for x in o.items])
            return self.np.list_method(l, name, args, kwargs)
        return self.top('method %s' % name)


class DeadBreak(DeadPath):
    """All paths through one execution of a loop body end in break."""

    def __init__(self, breaks):
        self.breaks = breaks


EXC = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'Exception', 'NotImplementedError',
       'AssertionError', 'AttributeError', 'ImportError', 'ArithmeticError', 'ZeroDivisionError', 'OverflowError',
       'LookupError', 'StopIteration', 'NameError', 'OSError', 'BaseException', 'UserWarning', 'LinAlgError'}


def handler_names(h):
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = set()
    for t in ts:
        out.add(t.id if isinstance(t, ast.Name) else (t.attr if isinstance(t, ast.Attribute) else '?'))
    if 'BaseException' in out:
        return None
    return out


def walk_own(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def m_site(self, n):
    m = self.mod()
    return '%s:%d' % (m.rel, n.lineno) if m is not None else None
