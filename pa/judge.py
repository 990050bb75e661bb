"""Comparison of what the source computes with what the property states.

Both sides are abstract outcomes: the frozen value of the normal exit, the raises with their path conditions, and
the frozen post-states of the objects of interest.
"""
import itertools
import random
from .vals import *
from .poly import CTX, Poly
from . import alg
from .point import Point, EvalError, EvalTop, Singular, differ, plain, stable, Arr, F
from .drive import run, Result, DeadPath
from .interp import Interp

EQUAL, DIFFERENT, UNKNOWN = 'EQUAL', 'DIFFERENT', 'UNKNOWN'


class Outcome(object):
    """val: frozen value or None when there is no normal exit; raises: [(conds, exc, where, msg)]."""

    def __init__(self, I, r, extra=None):
        self.dead = r.dead
        self.val = None if r.dead else r.frozen()
        self.raises = [(list(e.pc), e.exc, e.fn, e.msg, getattr(e, 'implicit', False)) for e in r.raises]
        self.extra = {k: I.freeze(v) for k, v in (extra or {}).items()} if not r.dead else {}
        self.I = I

    def syntactic(self):
        return (self.val, tuple((tuple(p), x) for p, x, _, _, _ in self.raises), tuple(sorted(self.extra.items(), key=lambda z: z[0])))

    def at(self, pt):
        """Concrete outcome at a point: ('raise', exc) or ('value', v, extra)."""
        for pc, exc, fn, msg, imp in self.raises:
            if all(pt.cond(c, {}) for c in pc):
                if exc == '?':
                    raise Singular() if msg == 'loop bound' else EvalError('unmodelled: ' + str(msg))
                return ('raise', exc)
        if self.dead:
            raise EvalError('no exit')
        pt.clog = set(pt.log)
        return ('value', pt.conc(self.val, {}), {k: pt.conc(v, {}) for k, v in self.extra.items()})


def poly_view(v):
    """Replace polyhedra by the set of their constraints (order, duplicates and positive scaling do not matter)."""
    if isinstance(v, tuple) and v and v[0] == 'obj':
        q = v[1] or ''
        if q.endswith('.Polyhedron') or q.endswith('.CriticalRegionPolyhedron'):
            d = v[2]
            A, b, C, dd = (d.get(x) for x in ('A', 'b', 'C', 'd'))
            if all(isinstance(x, Arr) for x in (A, b, C, dd)) and len(A.shape) == 2 and len(C.shape) == 2 and \
                    len(b.shape) == 1 and len(dd.shape) == 1:
                if A.shape[0] != b.shape[0] or C.shape[0] != dd.shape[0] or A.shape[1] != C.shape[1]:
                    return ('badpoly', A.shape, b.shape, C.shape, dd.shape)
                return region_rows(A, b, C, dd)
        return ('obj', v[1], {k: poly_view(x) for k, x in v[2].items()})
    if isinstance(v, tuple) and v and v[0] in ('list', 'tup'):
        return (v[0], v[1], [poly_view(x) for x in v[2]])
    if isinstance(v, tuple) and v and v[0] == 'dict':
        return ('dict', {k: poly_view(x) for k, x in v[1].items()}) + v[2:]
    return v


def region_rows(A, b, C=None, d=None):
    rows = set()
    items = [([x for x in r], y[0]) for r, y in zip(A.m, b.m)]
    if C is not None:
        items += [([x for x in r], y[0]) for r, y in zip(C.m, d.m)]
        items += [([-x for x in r], -y[0]) for r, y in zip(C.m, d.m)]
    for r, y in items:
        s = max([abs(x) for x in r] or [F(0)])
        if s == 0:
            if y < 0:
                rows.add(('false',))
            continue
        rows.add(tuple(stable(x / s) for x in r) + (stable(y / s),))
    return ('region', A.shape[1], frozenset(rows))


def show(v, n=240):
    if isinstance(v, Arr):
        s = str([[str(x) for x in r] for r in v.m])
    elif isinstance(v, tuple) and v and v[0] in ('list', 'tup'):
        s = '[' + ', '.join(show(x, 80) for x in v[2]) + ']'
    elif isinstance(v, tuple) and v and v[0] == 'obj':
        s = '%s(%s)' % (v[1], ', '.join('%s=%s' % (k, show(x, 60)) for k, x in sorted(v[2].items())))
    else:
        s = str(v)
    return s if len(s) <= n else s[:n] + '...'


def points(n, dims=None, scales=None, seed=0):
    for i in range(n):
        r = random.Random(hash((seed, i)))
        dd = {}
        for k, rng in (dims or {}).items():
            dd[k] = r.choice(rng)
        yield Point(hash((seed, i)), dd, scales)


MODES = ('unit', 'zeros', 'ones', 'unit', 'big', 'zeros')


def dims_of(p):
    """Sizes a polynomial depends on; None when it depends on something else."""
    out = set()
    for mn in p.t:
        for a, e in mn:
            if a[0] != 'dim' or e < 0:
                return None
            out.add(a[1])
    return out


def directed(guards, dims, scales, seed, most=24):
    """Further points, where conditions of the source hold that did not hold so far (and conversely)."""
    made = 0
    base = lambda i: {k: random.Random(hash((seed, i, 'd'))).choice(rng) for k, rng in (dims or {}).items()}
    for c in sorted((c for c, v in guards.items() if len(v) == 1 and c.k[0] in ('ige', 'ieq')), key=repr):
        if made >= most:
            break
        ds = dims_of(c.k[1])
        if not ds or len(ds) > 3:
            continue
        rng = [tuple(dims[d]) if len(set((dims or {}).get(d, (0, 1)))) == 1 else range(CTX.low.get(('dim', d), 0), 8) for d in sorted(ds)]
        want = not next(iter(guards[c]))
        sols = []
        for vals in itertools.product(*rng):
            sub = dict(zip(sorted(ds), vals))
            v = Point(0, sub).poly(c.k[1], {})
            if (v >= 0 if c.k[0] == 'ige' else v == 0) == want:
                sols.append((sum(vals), sub))
        for j, (_, sub) in enumerate(sorted(sols, key=lambda x: (x[0], sorted(x[1].items())))[:2]):
            dd = base(1000 + made)
            # other sizes small, to keep the cost down
            dd = {k: min(rng) if k not in sub and max(sub.values()) > 3 else dd[k] for k, rng in (dims or {}).items()}
            dd.update(sub)
            made += 1
            yield Point(hash((seed, 'dir', made)), dd, scales)
    real = lambda: [c for c, v in guards.items() if len(v) == 1 and c.k[0] in ('ge0', 'gt0', 'req', 'close', 'allclose', 'arrayeq', 'eqv', 'in')]
    for i in range(most):
        if not real():
            return
        dd = base(2000 + i)
        dd['?mode'] = MODES[i % len(MODES)]
        yield Point(hash((seed, 'mode', i)), dd, scales)


def more(n, dims, scales, seed, guards):
    for pt in points(n, dims, scales, seed):
        yield pt
    for pt in directed(guards, dims, scales, seed):
        yield pt


def names_in(x, out, seen):
    """All strings that occur in an abstract value."""
    if isinstance(x, str):
        out.add(x)
        return
    if isinstance(x, (tuple, list, frozenset)):
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out.add(repr(x[0]))
        for y in x:
            names_in(y, out, seen)
        return
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, Poly):
        for mn in x.t:
            names_in(mn, out, seen)
    elif isinstance(x, alg.Mat):
        for k, c in x.terms.items():
            names_in(k, out, seen)
            names_in(c, out, seen)
    elif isinstance(x, Cond):
        names_in(x.k, out, seen)
    elif isinstance(x, Opq):
        out.add('opq:' + str(x.name))
        names_in(x.args, out, seen)
    elif isinstance(x, FArr):
        names_in(x.val, out, seen)
    elif isinstance(x, Val):
        names_in(x.key(), out, seen)


class Comparison(object):
    def __init__(self):
        self.verdict, self.why, self.detail, self.how, self.tried = UNKNOWN, '', None, '', 0
        self.guards = self.oneway = 0


def compare(a, e, n=60, dims=None, scales=None, view=poly_view, pre=None, raise_type=True, seed=0, need=8, vocab=(), when=None):
    """Compare two Outcomes (or frozen values)."""
    res = Comparison()
    if a.syntactic() == e.syntactic():
        res.verdict, res.how = EQUAL, 'normal form'
        return res
    good, bad, tops, errs, aerr = 0, None, 0, {}, 0
    vocab = set(vocab)
    names_in(e.syntactic(), vocab, {})
    guards = {}
    for pt in more(n, dims, scales, seed, guards):
        try:
            if pre is not None and not pre(pt):
                continue
            pe = Point(pt.seed, pt.dims, scales)
            ve = None
            ve = e.at(pe)
            pa = Point(pt.seed, pe.dims, scales)
            pa.guards = guards
            va = a.at(pa)
        except EvalTop as x:
            tops += 1
            errs[str(x)] = errs.get(str(x), 0) + 1
            if tops > 25 and not good:
                break
            continue
        except Singular:
            continue
        except EvalError as x:
            errs[str(x)] = errs.get(str(x), 0) + 1
            if ve is not None:
                aerr += 1
            continue
        good += 1
        if when is not None and not when(ve, va):
            continue
        if ve[0] != va[0]:
            d = ('outcome', show(va), show(ve))
        elif ve[0] == 'raise':
            d = None if (not raise_type or ve[1] == va[1]) else ('exception', va[1], ve[1])
        else:
            try:
                d = differ(view(va[1]), view(ve[1]), 'result')
                for k in ve[2]:
                    d = d or differ(view(va[2].get(k)), view(ve[2][k]), k)
            except EvalError:
                continue
        if d is not None:
            used = pa.clog if d[0] == 'outcome' and va[0] == 'value' and hasattr(pa, 'clog') else pa.log
            odd = {x for x in used - pe.log - vocab if not (x.startswith("('int', ") and x[9:-2] in vocab)}
            if odd:
                # the source used an uninterpreted operation that the reference does not use: no verdict
                errs['uninterpreted ' + str(sorted(odd))[:80]] = 1
                continue
            bad = (d, pe.dims, va, ve)
            break
    res.tried = good
    res.guards = len(guards)
    res.oneway = sum(1 for v in guards.values() if len(v) == 1)
    if bad:
        res.verdict = DIFFERENT
        d, dims_, va, ve = bad
        res.why = '%s: the source gives %s, the property requires %s' % (d[0], show(d[1]), show(d[2]))
        res.detail = {'sizes': dims_, 'source': show(va[1], 2000), 'required': show(ve[1], 2000)}
        return res
    if good >= need and not tops and aerr * 8 <= good and not any(k.startswith('unint') for k in errs):
        res.verdict, res.how = EQUAL, 'random interpretation (%d points%s)' % (good, ', %d of %d conditions seen both ways' % (len(guards) - res.oneway, len(guards)) if guards else '')
    else:
        res.why = 'undecided: %s' % dict(list(errs.items())[:4])
    return res


def set_view(v):
    """poly_view, and tuples (A, b, C, d) or (A, b) of a reference definition as the set they describe."""
    if isinstance(v, tuple) and v and v[0] == 'tup' and len(v[2]) in (2, 4) and all(isinstance(x, Arr) for x in v[2]):
        A, b = v[2][:2]
        C, d = v[2][2:] if len(v[2]) == 4 else (None, None)
        if len(A.shape) == 2 and len(b.shape) == 1:
            return region_rows(A, b, C, d)
    if isinstance(v, tuple) and v and v[0] in ('list', 'tup'):
        return (v[0], v[1], [set_view(x) for x in v[2]])
    return poly_view(v)


def decide(a, oracle, n=60, dims=None, scales=None, seed=0, need=8, vocab=(), pre=None):
    """Judge an outcome by a predicate: oracle(point, concrete outcome) is None (fine) or says what is wrong."""
    res = Comparison()
    good, tops, errs, aerr = 0, 0, {}, 0
    guards = {}
    for pt in more(n, dims, scales, seed, guards):
        try:
            if pre is not None and not pre(pt):
                continue
            pa = Point(pt.seed, pt.dims, scales)
            pa.guards = guards
            va = a.at(pa)
            odd = pa.log - set(vocab)
            po = Point(pt.seed, pa.dims, scales)
            why = oracle(po, va)
        except EvalTop as x:
            tops += 1
            errs[str(x)] = errs.get(str(x), 0) + 1
            if tops > 25 and not good:
                break
            continue
        except Singular:
            continue
        except EvalError as x:
            errs[str(x)] = errs.get(str(x), 0) + 1
            aerr += 1
            continue
        if why == SKIP:
            continue
        if odd:
            errs['uninterpreted ' + str(sorted(odd))[:80]] = 1
            continue
        good += 1
        if why is not None:
            res.verdict, res.why = DIFFERENT, '%s: the source gives %s' % (why, show(va[1]))
            res.detail = {'sizes': pa.dims, 'source': show(va[1], 2000)}
            return res
    res.tried = good
    res.guards = len(guards)
    res.oneway = sum(1 for v in guards.values() if len(v) == 1)
    if good >= need and not tops and aerr * 8 <= good and not any(k.startswith('unint') for k in errs):
        res.verdict, res.how = EQUAL, 'random interpretation (%d points%s)' % (good, ', %d of %d conditions seen both ways' % (len(guards) - res.oneway, len(guards)) if guards else '')
    else:
        res.why = 'undecided: %s %s' % (good, dict(list(errs.items())[:4]))
    return res


SKIP = object()
