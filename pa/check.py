"""Kit used by the checks: obligations, abstract runs, reference definitions, findings."""
import ast
import os
import signal
import sys
import time
import traceback
from . import model as MD
from . import alg
from .drive import *
from .vals import *
from .poly import Poly, P, ZERO, ONE, CTX, fresh
from .alg import Mat
from .interp import Interp, DeadPath, Limit
from .programs import handlers, region
from . import judge as J
from .judge import Outcome, compare, EQUAL, DIFFERENT, UNKNOWN
from .point import ELEM_RANGE
from .build import *

OBS = []


class Missing(Exception):
    """A public construct the property is anchored in does not exist."""


class Timeout(Exception):
    pass


class Ob(object):
    def __init__(self, prop, name, fn, anchors, thorough, limit, when=None, control=None, dims=None):
        self.prop, self.name, self.fn, self.anchors, self.thorough, self.limit = prop, name, fn, anchors, thorough, limit
        self.when, self.control, self.dims = when, control, dims


def ob(prop, name, anchors=(), thorough=False, limit=100):
    def d(f):
        OBS.append(Ob(prop, name, f, list(anchors), thorough, limit))
        return f
    return d


def again(prop, source, pick, when=None, control=None):
    """Obligations of another property that decide this one as well; `when` restricts the outcomes that are compared.
    `control` (name -> pairs of a name of the source and sizes): cases outside this property; where one of them fails too,
    the failure belongs to the source property."""
    for o in list(OBS):
        if o.prop == source and pick(o.name):
            OBS.append(Ob(prop, o.name, o.fn, o.anchors, o.thorough, o.limit, when, control and [(source,) + c for c in control(o.name)]))


class Kit(object):
    """One run of one obligation."""

    def __init__(self, prog, ob, tier):
        self.prog, self.ob, self.tier = prog, ob, tier
        self.findings = []       # (rule, construct, message, detail)
        self.proved = []         # (what, how)
        self.undecided = []      # (what, why)
        self.analysed = set()
        self.loops = []
        self.calls = 0
        self.facts = 0

    # -- running
    def interp(self, opaque=None):
        h = handlers()
        h.update(opaque or {})
        I = Interp(self.prog, h)
        I.kit = self
        self._I = I
        return I

    def note(self, I):
        self.analysed |= {x for x in I.analysed if x.startswith('pympc')}
        self.loops += I.loop_log
        self.calls += I.calls

    def actual(self, f, opaque=None):
        """Outcome of f(I), which returns a Result or (Result, dict of values to freeze)."""
        I = self.interp(opaque)
        r = f(I)
        extra = None
        if isinstance(r, tuple):
            r, extra = r
        o = Outcome(I, r, extra)
        self.note(I)
        return o

    def spec(self, src, argf, name='f', opaque=None):
        """Outcome of a reference definition."""
        I = self.interp(opaque)
        fi = snippet(self.prog, src, name)
        args = argf(I)
        kw = {}
        if isinstance(args, tuple) and args and isinstance(args[-1], dict):
            args, kw = args[:-1], args[-1]
        r = run(I, fi, *args, **kw)
        return Outcome(I, r)

    # -- judging
    def where(self):
        return self.ob.anchors[0] if self.ob.anchors else self.ob.name

    def same(self, a, e, what='', construct=None, rule='differs', **kw):
        what = what or 'result'
        if self.tier == 'thorough':
            kw['n'] = 4 * kw.get('n', 60)
        if self.ob.dims:
            kw['dims'] = dict(kw.get('dims') or {}, **self.ob.dims)
        c = compare(a, e, when=self.ob.when, **kw)
        if c.verdict == EQUAL:
            self.proved.append((what, c.how))
        elif c.verdict == DIFFERENT:
            self.violation(rule + ':' + what, construct or self.where(), c.why, c.detail)
        else:
            self.undecided.append((what, c.why + ' ' + str(a.I.unknowns[:3])[:300]))
        return c

    def judge(self, a, oracle, what='', construct=None, rule='breaks', **kw):
        what = what or 'result'
        if self.tier == 'thorough':
            kw['n'] = 4 * kw.get('n', 60)
        c = J.decide(a, oracle, **kw)
        if c.verdict == EQUAL:
            self.proved.append((what, c.how))
        elif c.verdict == DIFFERENT:
            self.violation(rule + ':' + what, construct or self.where(), c.why, c.detail)
        else:
            self.undecided.append((what, c.why + ' ' + str(a.I.unknowns[:3])[:300]))
        return c

    def settle(self, tier):
        """Keep the findings only where the control cases are fine."""
        for source, name, dims in self.ob.control:
            for c in [c for c in OBS if c.prop == source and c.name == name]:
                k = Kit(self.prog, Ob(c.prop, c.name, c.fn, c.anchors, c.thorough, c.limit, dims=dims), tier)
                c.fn(k)
                if k.findings:
                    self.undecided += [(f[0], 'fails in general, see %s %s' % (source, name)) for f in self.findings]
                    self.findings = []
                    return

    def violation(self, rule, construct, msg, detail=None):
        self.findings.append((rule, construct, msg, detail))

    def ok(self, what, how='dataflow'):
        self.proved.append((what, how))

    def unsure(self, what, why=''):
        self.undecided.append((what, str(why)[:300]))

    def need(self, qual):
        """A public construct of the program."""
        x = self.prog.find(qual)
        if x is None:
            raise Missing(qual)
        return x


def run_ob(prog, o, tier):
    """Run one obligation; returns a plain dict."""
    t0 = time.time()
    k = Kit(prog, o, tier)
    err = None
    missing = None

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, o.limit * (3 if tier == 'thorough' else 1))
    try:
        for a in o.anchors:
            k.need(a)
        o.fn(k)
        if k.findings and o.control:
            k.settle(tier)
    except Timeout:
        k.unsure('analysis', 'time limit of %s s' % o.limit)
    except Missing as e:
        missing = str(e)
    except RecursionError:
        k.unsure('analysis', 'recursion limit')
    except Exception as e:
        if os.environ.get('PA_DEBUG'):
            traceback.print_exc()
        err = traceback.format_exc(limit=-3)
        k.unsure('analysis', 'engine: %s: %s' % (type(e).__name__, str(e)[:150]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'name': o.name, 'anchors': o.anchors, 'findings': k.findings, 'proved': k.proved, 'undecided': k.undecided,
            'analysed': sorted(k.analysed), 'loops': len(k.loops), 'calls': k.calls, 'missing': missing, 'error': err,
            'wall': time.time() - t0}
