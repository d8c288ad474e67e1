"""Core vocabulary of the simulator: runs, contexts, violations, worlds."""
import contextlib
import hashlib
import io
import os
import random
import sys
import time
import traceback

from vsim import seams
from vsim.seams import World, Clock, Entropy


class SimBase(BaseException):
    """Simulator control flow: derives from BaseException so the code under test cannot absorb it
    by accident with 'except Exception'."""


class Violation(SimBase):
    def __init__(self, kind, detail=''):
        BaseException.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


class SimCrash(SimBase):
    """The simulated process dies here."""


class HarnessError(Exception):
    """A defect of the harness itself: never a verdict."""


class InvalidPlan(HarnessError):
    pass


class Ctx(object):
    """Per-run context: event log, probes, fault counts, verdict."""
    KEEP = 400

    def __init__(self, prop):
        self.prop = prop
        self._h = hashlib.sha256()
        self.events = []
        self.nevents = 0
        self.probes = {}
        self.faults = {}
        self.nontriv = False
        self.simtime_us = 0
        self.errout = ''
        self.known = ()
        self.known_hit = {}
        self.step = 0

    def log(self, *items):
        s = repr(items)
        self._h.update(s.encode('utf-8', 'backslashreplace'))
        self.nevents += 1
        if len(self.events) < self.KEEP:
            self.events.append(s if len(s) < 300 else s[:300] + '...')

    def digest(self):
        return self._h.hexdigest()[:24]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontriv = True

    def mild(self, kind):
        """A disturbance that is everyday life: counted, but does not make a run non-trivial."""
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def nontrivial(self):
        self.nontriv = True

    def violate(self, kind, detail='', sig=None):
        """sig: identity of a specific failing input/call site, matched against known findings."""
        if sig is not None and sig in self.known:
            self.known_hit[sig] = self.known_hit.get(sig, 0) + 1
            return
        self.log('VIOLATION', kind)
        raise Violation(kind, detail)

    def check(self, cond, kind, detail='', sig=None):
        if not cond:
            self.violate(kind, detail() if callable(detail) else detail, sig)


def short(x, n=160):
    if isinstance(x, (bytes, bytearray)) and len(x) > n:
        return '%r...<%d bytes>' % (bytes(x[:n]), len(x))
    s = repr(x)
    return s if len(s) <= n * 3 else s[:n * 3] + '...'


def diff_bytes(want, got):
    """Short description of the first difference."""
    if not isinstance(got, (bytes, bytearray)):
        return 'want bytes, got %s' % short(got)
    i = 0
    m = min(len(want), len(got))
    if want[:m] == got[:m]:
        i = m
    else:
        lo, hi = 0, m
        while lo < hi:
            mid = (lo + hi) // 2
            if want[:mid + 1] == got[:mid + 1]:
                lo = mid + 1
            else:
                hi = mid
        i = lo
    return 'lengths want %d got %d, first difference at %d: want %r got %r' % (
        len(want), len(got), i, bytes(want[i:i + 24]), bytes(got[i:i + 24]))


def tb_of(e, limit=6):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-limit:])


def blame(e):
    """Innermost frame inside the code under test, as file:function (stable across line edits)."""
    best = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/warcio/' in fn.replace('\\', '/') and '/verif/' not in fn:
            best = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return best


@contextlib.contextmanager
def world(ctx, seed=0, start_us=1700000000 * 10**6, fs=None, sched=None, tz='UTC'):
    """Activate a fresh simulated world for the duration of the block."""
    w = World()
    w.clock = Clock(start_us)
    w.entropy = Entropy(seed)
    w.fs = fs
    w.sched = sched
    w.ctx = ctx
    if fs is not None:
        fs.attach(w, ctx)
    prev = World.cur
    olderr, oldout, oldin = sys.stderr, sys.stdout, sys.stdin
    oldtz = os.environ.get('TZ')
    sys.stderr = io.StringIO()
    st = random.getstate()
    random.seed(seed)
    if tz != oldtz:
        os.environ['TZ'] = tz
        time.tzset()
    World.cur = w
    try:
        yield w
    finally:
        World.cur = prev
        ctx.simtime_us += w.clock.elapsed
        ctx.errout += sys.stderr.getvalue()[:2000] if isinstance(sys.stderr, io.StringIO) else ''
        sys.stderr, sys.stdout, sys.stdin = olderr, oldout, oldin
        random.setstate(st)
        if tz != oldtz:
            if oldtz is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = oldtz
            time.tzset()


def execute(mod, plan, known=(), line_budget=None):
    """One run: plan -> result dict.  Never raises for anything the code under test does."""
    ctx = Ctx(mod.PROP)
    ctx.known = known
    vio = None
    tracer = None
    if line_budget:
        count = [0]

        def tracer(frame, event, arg):
            if '/vsim/' in frame.f_code.co_filename:
                return None
            if event == 'line':
                count[0] += 1
                if count[0] > line_budget:
                    raise Violation('hang', 'no end after %d source lines' % line_budget)
            return tracer
    try:
        if tracer:
            sys.settrace(tracer)
        try:
            mod.run(plan, ctx)
        finally:
            if tracer:
                sys.settrace(None)
    except Violation as e:
        vio = {'kind': e.kind, 'detail': e.detail}
    except HarnessError:
        raise
    except RecursionError as e:
        vio = {'kind': 'unexpected RecursionError', 'detail': tb_of(e)}
    except (Exception, SystemExit) as e:
        # the harness checks every result it uses; what escapes was raised by the code under test
        # or by a result no correct implementation returns
        where = blame(e)
        vio = {'kind': 'unexpected %s in %s' % (type(e).__name__, where or 'harness use of result'),
               'detail': tb_of(e)}
    ctx.log('end', vio['kind'] if vio else 'ok')
    return {'vio': vio, 'digest': ctx.digest(), 'probes': ctx.probes, 'faults': ctx.faults,
            'nontriv': ctx.nontriv, 'simtime_us': ctx.simtime_us, 'nevents': ctx.nevents,
            'events': ctx.events, 'known': ctx.known_hit, 'errout': ctx.errout}
