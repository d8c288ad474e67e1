"""Threads under a scheduler: real threads of which exactly one runs, and which the plan switches.

A switch can happen at every source line (or bytecode) of warcio, at every operation on the simulated
network, and at every lock.  sw: [[points to go, choice], ...]; after the last entry a thread runs until it blocks.
"""
import _thread
import gc
import importlib
import sys
import types

from vsim.core import HarnessError, SimBase, Violation
from vsim.seams import World

MODULES = ('warcio.capture_http', 'warcio.warcwriter', 'warcio.recordbuilder')


SEAMS = ('write', 'written', 'lock', 'unlock', 'send', 'recv', 'connect')


class SimAbort(SimBase):
    pass


class _T(object):
    def __init__(self, n, func):
        self.n = n
        self.func = func
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.cond = None        # blocked until this is true
        self.wake = None        # ... or until this time
        self.what = None
        self.done = False
        self.ingc = False
        self.ident = None


def current():
    w = World.cur
    s = w.sched if w is not None else None
    return s.me() if s is not None else None


class Sched(object):
    LIMIT = 2000000

    def __init__(self, ctx, w, plan):
        self.ctx, self.w = ctx, w
        self.sw = [(max(1, int(a)), int(b)) for a, b in (x for x in plan.get('sw') or [] if isinstance(x, list) and len(x) == 2)]
        self.pick = [int(x) for x in plan.get('pick') or [] if isinstance(x, int)] or [0]
        self.gcs = set(x for x in plan.get('gc') or [] if isinstance(x, int))
        self.fine = bool(plan.get('fine'))
        self.seams = plan.get('seams') or 0
        self.gcw = set(x for x in plan.get('gcw') or [] if isinstance(x, int))
        self.writes = 0
        self.threads = []
        self.byid = {}
        self.cur = None
        self.steps = 0
        self.npick = 0
        self.left = self.sw[0][0] if self.sw else None
        self.nsw = 0
        self.abort = False
        self.error = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.switches = 0
        self.running = False
        w.sched = self

    def me(self):
        return self.byid.get(_thread.get_ident())

    # -------- what the threads call
    def point(self, what='line'):
        t = self.me()
        if t is None or self.abort or not self.running:
            return
        self.steps += 1
        if self.steps > self.LIMIT:
            self.fail(Violation('no progress', 'more than %d steps' % self.LIMIT))
        if self.steps in self.gcs:
            self.ctx.fault('gc')
            self.ctx.log('gc', t.n, self.steps)
            self.collect(t)
        if what == 'write':
            self.writes += 1
            if self.writes in self.gcw:
                self.ctx.fault('gc')
                self.ctx.log('gc', t.n, 'write', self.writes)
                self.collect(t)
        if self.left is not None and (not self.seams or what in (SEAMS if self.seams == 1 else ('write', 'written'))):
            self.left -= 1
            if self.left <= 0:
                choice = self.sw[self.nsw][1]
                self.nsw += 1
                self.left = self.sw[self.nsw][0] if self.nsw < len(self.sw) else None
                ready = [x for x in self.threads if self.ready(x) and x is not t]
                if ready:
                    self.ctx.fault('preempt')
                    self.switch(t, ready[choice % len(ready)], what)

    def collect(self, t):
        was, t.ingc = t.ingc, True
        try:
            gc.collect()
        finally:
            t.ingc = was

    def ready(self, x):
        if x.done:
            return False
        if x.cond is None and x.wake is None:
            return True
        return bool(x.cond is not None and x.cond()) or (x.wake is not None and self.w.clock.us >= x.wake)

    def block(self, cond=None, wake=None, what=''):
        """Give way until cond() holds or the time has come."""
        t = self.me()
        if t is None or not self.running:
            if wake is not None and wake > self.w.clock.us:
                self.w.clock.advance(wake - self.w.clock.us)
            elif cond is not None and not cond():
                raise HarnessError('blocked outside the simulation: ' + what)
            return
        if self.abort:
            return
        t.cond, t.wake, t.what = cond, wake, what
        nxt = self.choose()
        if nxt is not t:
            self.switch(t, nxt, what)
        t.cond = t.wake = None

    def choose(self):
        while True:
            ready = [x for x in self.threads if self.ready(x)]
            if ready:
                k = self.pick[self.npick % len(self.pick)]
                self.npick += 1
                return ready[k % len(ready)]
            times = [x.wake for x in self.threads if not x.done and x.wake is not None]
            if not times:
                self.fail(Violation('deadlock', '; '.join('thread %d waits for %s' % (x.n, x.what) for x in self.threads if not x.done)))
            self.w.clock.advance(max(1, int(min(times) - self.w.clock.us)))

    def sleep_until(self, t, peer=None):
        def due():
            # the end of the connection comes after everything sent on it
            if peer is not None and peer.out:
                return peer.out[0][0]
            return peer.end[0] if peer is not None and peer.end is not None else None

        def arrived():
            x = due()
            return x is not None and x <= self.w.clock.us
        # what is already on its way to the peer arrives by then
        if due() is not None:
            t = min(t, due())
        self.block(arrived, t, 'the network')

    def switch(self, t, nxt, what):
        self.switches += 1
        self.ctx.log('switch', t.n, nxt.n, what if isinstance(what, str) else 'line')
        self.cur = nxt
        nxt.go.release()
        t.go.acquire()
        if self.abort:
            raise SimAbort()

    def fail(self, e):
        if self.error is None:
            self.error = e
        self.abort = True
        raise SimAbort()

    # -------- running
    def spawn(self, func):
        t = _T(len(self.threads), func)
        self.threads.append(t)
        return t

    def run(self):
        for t in self.threads:
            started = _thread.allocate_lock()
            started.acquire()
            _thread.start_new_thread(self._body, (t, started))
            started.acquire()
        if not self.threads:
            return
        self.running = True
        with yielding(self.fine):
            self.cur = self.choose()
            self.cur.go.release()
            ok = self.main.acquire(True, 120)
        if not ok:
            self.abort = True
            raise HarnessError('the threads hang: ' + '; '.join('%d %s' % (x.n, 'done' if x.done else x.what) for x in self.threads))
        self.running = False
        if self.error is not None:
            raise self.error

    def _body(self, t, started):
        t.ident = _thread.get_ident()
        self.byid[t.ident] = t
        started.release()
        t.go.acquire()
        if not self.abort:
            try:
                t.func()
            except SimAbort:
                pass
            except BaseException as e:
                e.__traceback__ = e.__traceback__
                if self.error is None:
                    self.error = e
                self.abort = True
        t.func = None
        t.done = True
        self.byid.pop(t.ident, None)
        self.ctx.log('done', t.n)
        self._next()

    def _next(self):
        live = [x for x in self.threads if not x.done]
        if not live:
            self.main.release()
            return
        if not self.abort:
            try:
                self.cur = self.choose()
                self.cur.go.release()
                return
            except SimAbort:
                pass
        live[0].go.release()


# ---------------------------------------------------------------- yield points inside warcio
TOOL = 4
_codes = {}
_ready = [False]


def _walk(code, out):
    if code not in out:
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _walk(c, out)


def _codes_of(name):
    mod = importlib.import_module(name)
    out = []

    def visit(o, depth=0):
        o = getattr(o, '__wrapped__', o)
        if isinstance(o, (classmethod, staticmethod)):
            o = o.__func__
        if isinstance(o, property):
            for x in (o.fget, o.fset):
                if x is not None:
                    visit(x, depth)
        elif isinstance(o, types.FunctionType):
            if o.__module__ == name:
                _walk(o.__code__, out)
        elif isinstance(o, type) and o.__module__ == name and depth < 4:
            for x in list(vars(o).values()):
                visit(x, depth + 1)
    for o in list(vars(mod).values()):
        visit(o)
    return out


def _on_event(code, where):
    w = World.cur
    if w is not None and w.sched is not None:
        w.sched.point(code.co_name)


class yielding(object):
    """While active, threads can be switched at every source line (fine: at every bytecode) of these modules."""
    def __init__(self, fine=False):
        self.fine = fine

    def __enter__(self):
        m = sys.monitoring
        ev = m.events.INSTRUCTION if self.fine else m.events.LINE
        if not _ready[0]:
            _ready[0] = True
            m.use_tool_id(TOOL, 'vsim')
            m.register_callback(TOOL, m.events.LINE, _on_event)
            m.register_callback(TOOL, m.events.INSTRUCTION, _on_event)
            for n in MODULES:
                _codes[n] = _codes_of(n)
        for cs in _codes.values():
            for c in cs:
                m.set_local_events(TOOL, c, ev)

    def __exit__(self, *a):
        m = sys.monitoring
        for cs in _codes.values():
            for c in cs:
                m.set_local_events(TOOL, c, 0)


class SimLock(object):
    def __init__(self):
        self.owner = None
        self.count = 0

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        w = World.cur
        s = w.sched if w is not None else None
        if s is not None:
            s.point('lock')
        if self._again(me):
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if s is None or s.abort:
                self.owner = None
            else:
                end = None if timeout is None or timeout < 0 else w.clock.us + int(timeout * 1e6)
                s.ctx.fault('lock-wait')
                while self.owner is not None:
                    s.block(self._free, end, 'a lock')
                    if self.owner is not None and end is not None and w.clock.us >= end:
                        return False
        self.owner = me
        self.count = 1
        return True

    def _again(self, me):
        return False

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        self.count = 0
        w = World.cur
        if w is not None and w.sched is not None:
            w.sched.point('unlock')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock(SimLock):
    def _again(self, me):
        if self.owner == me:
            self.count += 1
            return True
        return False

    def release(self):
        if self.owner != _thread.get_ident():
            w = World.cur
            if w is not None and w.sched is not None and w.sched.abort:
                return
            raise RuntimeError('cannot release un-acquired lock')
        if self.count > 1:
            self.count -= 1
            return
        SimLock.release(self)

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        c, self.count, self.owner = self.count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c
