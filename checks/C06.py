"""C06: a modification that raises leaves the constraints of the polyhedron as they were."""
from pa.check import *
from pa.judge import points, show
from pa.point import Point, EvalError, EvalTop, Singular, differ

FIELDS = ('A', 'b', 'C', 'd')
R1, R2, K1, K2 = dim('r1', 0), dim('r2', 0), dim('k1'), dim('k2', 0)
DIMS = dict(SMALL, r1=(0, 1, 2, 3), r2=(0, 1, 2, 3), k1=(1, 2, 3), k2=(0, 1, 2), nx=(1, 2, 3), r3=(0, 1, 2, 3))
MUT = [PO + '.' + x for x in ('add_inequality', 'add_equality', 'add_lower_bound', 'add_upper_bound', 'add_bounds')]


def atomic(k, go, anchor, what):
    """Every exit by exception of go(I, P) has the fields of P as before the call."""
    I = k.interp()
    P1 = poly(I)
    before = {f: I.freeze(I.getattr(P1, f)) for f in FIELDS}
    r = go(I, P1)
    k.note(I)
    n = 0
    exits = [(e, e.state) for e in r.raises if getattr(e, 'state', None) is not None and e.exc != '?']
    for e, st in exits:
        I.set_state(st)
        after = {}
        for f in FIELDS:
            try:
                after[f] = I.freeze(I.getattr(P1, f))
            except DeadPath:
                after[f] = None
        bad = [f for f in FIELDS if after[f] != before[f]]
        n += 1
        if not bad:
            continue
        w = witness(e, before, after, bad)
        if w == 'unknown':
            k.unsure('raise in %s' % e.fn, 'state %s' % bad)
        elif w:
            k.violation('modified before raise:%s' % what, e.fn, 'raises %s (%s) in %s after %s of the polyhedron changed: %s' % (
                e.exc, e.msg, e.fn, ', '.join(bad), w), {'sizes': w})
    k.ok('%d exits by exception of %s: %s' % (n, what, sorted({str(e.msg)[:40] for e, _ in exits})))
    return r, n


def witness(e, before, after, bad):
    seen = 0
    for pt in points(400, DIMS):
        try:
            if not all(pt.cond(c, {}) for c in e.pc):
                continue
            seen += 1
            for f in bad:
                if after[f] is None:
                    return 'field %s missing' % f
                d = differ(pt.conc(after[f], {}), pt.conc(before[f], {}), f)
                if d:
                    return '%s: %s instead of %s at %s' % (d[0], show(d[1], 90), show(d[2], 90), pt.dims)
        except EvalTop:
            return 'unknown'
        except (EvalError, Singular):
            continue
    return None if seen < 3 else None


def indices_any(I, n):
    """Indices that may be out of range."""
    ELEM_RANGE['anyidx'] = lambda pt, idx: (0, 4)
    return family(I, n, lambda i: elem('anyidx', i))


CASES = {
    'add_inequality': lambda I, ix: (mat(I, 'A1', R1, K1), mat(I, 'b1', R2)) + ix,
    'add_inequality column b': lambda I, ix: (mat(I, 'A1', R1, K1), mat(I, 'b1', R1, ONE)) + ix,
    'add_inequality vector A': lambda I, ix: (mat(I, 'A1', K1), mat(I, 'b1', R2)) + ix,
    'add_equality': lambda I, ix: (mat(I, 'A1', R1, K1), mat(I, 'b1', R2)) + ix,
    'add_equality column b': lambda I, ix: (mat(I, 'A1', R1, K1), mat(I, 'b1', R1, ONE)) + ix,
    'add_lower_bound': lambda I, ix: (mat(I, 'l', R1),) + ix,
    'add_upper_bound': lambda I, ix: (mat(I, 'h', R1),) + ix,
    'add_lower_bound column': lambda I, ix: (mat(I, 'l', R1, ONE),) + ix,
    'add_upper_bound column': lambda I, ix: (mat(I, 'h', R1, ONE),) + ix,
    'add_lower_bound float': lambda I, ix: (scalar('l0'),) + ix,
    'add_upper_bound float': lambda I, ix: (scalar('l0'),) + ix,
    'add_bounds': lambda I, ix: (mat(I, 'l', R1), mat(I, 'h', R2)) + ix,
    'add_bounds column': lambda I, ix: (mat(I, 'l', R1), mat(I, 'h', R1, ONE)) + ix,
    'add_bounds float': lambda I, ix: (scalar('l0'), mat(I, 'h', R2)) + ix,
    'add_bounds float2': lambda I, ix: (mat(I, 'l', R2), scalar('l0')) + ix,
}
for name, mk in CASES.items():
    for ixn in ('none', 'given'):
        @ob('C06', '%s indices %s' % (name, ixn), [PO + '.' + name.split()[0]])
        def _(k, name=name, mk=mk, ixn=ixn):
            meth = name.split()[0]
            atomic(k, lambda I, P1: method(I, P1, meth, *mk(I, () if ixn == 'none' else (indices_any(I, K2),))), PO + '.' + meth, meth)

for kind in ('inequality', 'equality'):
    @ob('C06', 'add_symbolic_' + kind, [PO + '.add_symbolic_' + kind])
    def _(k, kind=kind):
        atomic(k, lambda I, P1: method(I, P1, 'add_symbolic_' + kind, Opq('symvec', 'x', K1), Opq('symexpr', 'e', R1)), PO, 'add_symbolic_' + kind)
