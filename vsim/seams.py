"""Every source of nondeterminism that warcio can reach goes through here.

install() must run before warcio (or any module that copies names out of time, datetime, os,
tempfile, threading, socket or builtins) is imported.  Each wrapper falls back to the real
function while no simulated world is active, so the harness itself is unaffected.
"""
import builtins
import datetime as _datetime_mod
import io
import os
import random
import stat as _stat
import sys
import tempfile
import threading
import time
import uuid
import zlib

PREFIX = '/simdisk/'

# originals, for the harness
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_open = builtins.open
real_urandom = os.urandom
real_sleep = time.sleep
RealDateTime = _datetime_mod.datetime
RealLock = threading.Lock
RealRLock = threading.RLock
_real = {}


class World(object):
    """The simulated world of the current run (None: real world)."""
    cur = None


def _w():
    return World.cur


class Clock(object):
    """Simulated wall clock, in integer microseconds since the epoch (UTC)."""
    def __init__(self, start_us=1700000000 * 10**6):
        self.us = start_us
        self.start = start_us
        self.elapsed = 0            # simulated time covered (sum of forward moves)
        self.tick = 0               # automatic advance per reading (0: frozen)

    def read(self):
        v = self.us
        self.us += self.tick
        return v

    def advance(self, us):
        self.us += us
        if us > 0:
            self.elapsed += us


class Entropy(object):
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.calls = 0

    def urandom(self, n):
        self.calls += 1
        return self.rng.randbytes(n)


# ---------------------------------------------------------------- time
def _install_time():
    def t_time():
        w = _w()
        return w.clock.read() / 1e6 if w else real_time()

    def t_time_ns():
        w = _w()
        return w.clock.read() * 1000 if w else _real['time_ns']()

    def t_mono():
        w = _w()
        return w.clock.us / 1e6 if w else real_monotonic()

    def t_mono_ns():
        w = _w()
        return w.clock.us * 1000 if w else _real['monotonic_ns']()

    def t_sleep(s):
        w = _w()
        if w:
            w.clock.advance(int(s * 1e6))
        else:
            real_sleep(s)

    def t_gmtime(secs=None):
        if secs is None:
            secs = t_time()
        return _real['gmtime'](secs)

    def t_localtime(secs=None):
        if secs is None:
            secs = t_time()
        return _real['localtime'](secs)

    def t_strftime(fmt, t=None):
        if t is None:
            t = t_localtime()
        return _real['strftime'](fmt, t)

    for n in ('time_ns', 'monotonic_ns', 'gmtime', 'localtime', 'strftime'):
        _real[n] = getattr(time, n)
    time.time = t_time
    time.time_ns = t_time_ns
    time.monotonic = t_mono
    time.monotonic_ns = t_mono_ns
    time.sleep = t_sleep
    time.gmtime = t_gmtime
    time.localtime = t_localtime
    time.strftime = t_strftime

    class Meta(type(RealDateTime)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, RealDateTime)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, RealDateTime)

    class datetime(RealDateTime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            w = _w()
            if not w:
                return RealDateTime.now(tz)
            us = w.clock.read()
            base = cls.fromtimestamp(us // 10**6, tz)
            return base.replace(microsecond=us % 10**6)

        @classmethod
        def utcnow(cls):
            w = _w()
            if not w:
                return RealDateTime.now(_datetime_mod.timezone.utc).replace(tzinfo=None)
            us = w.clock.read()
            base = cls.fromtimestamp(us // 10**6, _datetime_mod.timezone.utc).replace(tzinfo=None)
            return base.replace(microsecond=us % 10**6)

        @classmethod
        def today(cls):
            return cls.now()

    datetime.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'
    _datetime_mod.datetime = datetime


# ---------------------------------------------------------------- entropy
def _install_entropy():
    def urandom(n):
        w = _w()
        return w.entropy.urandom(n) if w else real_urandom(n)
    os.urandom = urandom
    random._urandom = urandom
    # the libuuid path of uuid1 reads the real clock
    if hasattr(uuid, '_generate_time_safe'):
        uuid._generate_time_safe = None


# ---------------------------------------------------------------- files
def _simpath(p):
    w = _w()
    if w is None or w.fs is None:
        return None
    if isinstance(p, bytes):
        try:
            p = p.decode()
        except UnicodeDecodeError:
            return None
    if isinstance(p, os.PathLike):
        p = os.fspath(p)
    if isinstance(p, str) and (p.startswith(PREFIX) or p == PREFIX[:-1]):
        return p
    return None


def _install_files():
    def sim_open(file, mode='r', *args, **kw):
        p = _simpath(file)
        if p is None:
            return real_open(file, mode, *args, **kw)
        return World.cur.fs.open_any(p, mode, *args, **kw)
    builtins.open = sim_open
    io.open = sim_open

    for n in ('stat', 'lstat', 'remove', 'unlink', 'rename', 'replace', 'access', 'open', 'truncate', 'fsync'):
        _real['os.' + n] = getattr(os, n)

    def mkstat(name):
        def f(path, *a, **k):
            p = _simpath(path)
            if p is None:
                return _real['os.' + name](path, *a, **k)
            if p == PREFIX[:-1]:
                return os.stat_result((_stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            size = World.cur.fs.size(p)
            return os.stat_result((_stat.S_IFREG | 0o644, World.cur.fs.ino(p), 1, 1, 0, 0, size, 0, 0, 0))
        return f
    os.stat = mkstat('stat')
    os.lstat = mkstat('lstat')

    def sim_remove(path, *a, **k):
        p = _simpath(path)
        if p is None:
            return _real['os.remove'](path, *a, **k)
        World.cur.fs.remove(p)
    os.remove = os.unlink = sim_remove

    def sim_rename(src, dst, *a, **k):
        p, q = _simpath(src), _simpath(dst)
        if p is None or q is None:
            return _real['os.replace'](src, dst, *a, **k)
        World.cur.fs.rename(p, q)
    os.rename = os.replace = sim_rename

    def sim_access(path, mode, *a, **k):
        p = _simpath(path)
        if p is None:
            return _real['os.access'](path, mode, *a, **k)
        return World.cur.fs.exists(p)
    os.access = sim_access

    real_mkdir, real_makedirs = os.mkdir, os.makedirs

    def sim_mkdir(path, *a, **k):
        if _simpath(path) is None:
            return real_mkdir(path, *a, **k)

    def sim_makedirs(path, *a, **k):
        if _simpath(path) is None:
            return real_makedirs(path, *a, **k)
    os.mkdir, os.makedirs = sim_mkdir, sim_makedirs

    def sim_truncate(path, length):
        p = _simpath(path)
        if p is None:
            return _real['os.truncate'](path, length)
        World.cur.fs.truncate(p, length)
    os.truncate = sim_truncate

    real_tf = tempfile.TemporaryFile
    real_ntf = tempfile.NamedTemporaryFile

    def sim_tf(mode='w+b', *a, **k):
        w = _w()
        if w is None or w.fs is None or 'b' not in mode:
            return real_tf(mode, *a, **k)
        return w.fs.temp(mode)

    def sim_ntf(mode='w+b', *a, **k):
        w = _w()
        if w is None or w.fs is None or 'b' not in mode:
            return real_ntf(mode, *a, **k)
        return w.fs.temp(mode, named=True)
    tempfile.TemporaryFile = sim_tf
    tempfile.NamedTemporaryFile = sim_ntf


# ---------------------------------------------------------------- locks
def _install_locks():
    def Lock():
        w = _w()
        if w is not None and w.sched is not None:
            from vsim.threads import SimLock
            return SimLock()
        return RealLock()

    def RLock():
        w = _w()
        if w is not None and w.sched is not None:
            from vsim.threads import SimRLock
            return SimRLock()
        return RealRLock()
    threading.Lock = Lock
    threading.RLock = RLock


# ---------------------------------------------------------------- allocations in zlib
class Alloc(object):
    """plan: {'op': 'compress'|'decompress'|'compressobj'|'decompressobj', 'n': k, 'times': t (0: for good)}"""
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.k = 0
        self.fired = 0
        self.on = True

    def hit(self, op):
        p = self.plan
        if not self.on or op != p.get('op'):
            return
        k = self.k
        self.k += 1
        t = p.get('times', 1)
        n = p.get('n', 0)
        if k >= n and (t == 0 or k < n + t):
            self.fired += 1
            self.ctx.fault('alloc-' + op)
            raise MemoryError('Out of memory while %sing data' % op)


class _ZObj(object):
    def __init__(self, z, a):
        self._z, self._a = z, a

    def compress(self, *x):
        self._a.hit('compress')
        return self._z.compress(*x)

    def decompress(self, *x):
        self._a.hit('decompress')
        return self._z.decompress(*x)

    def __getattr__(self, n):
        return getattr(self._z, n)


def _install_zlib():
    for n in ('compressobj', 'decompressobj'):
        _real['zlib.' + n] = getattr(zlib, n)

    def mk(name):
        def f(*x, **k):
            w = _w()
            a = getattr(w, 'alloc', None)
            if a is None or not a.on:
                return _real['zlib.' + name](*x, **k)
            a.hit(name)
            return _ZObj(_real['zlib.' + name](*x, **k), a)
        return f
    zlib.compressobj = mk('compressobj')
    zlib.decompressobj = mk('decompressobj')


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert 'warcio' not in sys.modules, 'seams must be installed before warcio is imported'
    _installed = True
    _install_time()
    _install_entropy()
    _install_files()
    _install_locks()
    _install_zlib()
