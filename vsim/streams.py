"""Simulated byte sources: delivery schedules and read faults."""
import errno
import random
import socket

from vsim.core import Violation

EOF_LIMIT = 5000


def gen_deliv(rng, size, interesting=(), seekable=None):
    """A delivery schedule for size bytes."""
    r = rng.random()
    if r < 0.12:
        d = {'mode': 'full'}
    elif r < 0.40:
        d = {'mode': 'fix', 'n': rng.choice([1, 1, 2, 3, 4, 5, 7, 13, 64, 511, 1000, 4096, 8192, 16383])}
    elif r < 0.62:
        d = {'mode': 'rand', 's': rng.randrange(1 << 30), 'hi': rng.choice([2, 5, 20, 100, 1000, 20000])}
    else:
        cuts = set()
        pts = list(interesting)
        for _ in range(rng.randint(1, 12)):
            if pts and rng.random() < 0.8:
                cuts.add(max(0, min(size, rng.choice(pts) + rng.randint(-3, 3))))
            else:
                cuts.add(rng.randint(0, max(0, size)))
        d = {'mode': 'cuts', 'cuts': sorted(cuts)}
    # tiny fragments over big inputs are only slow
    if size > 60000 and d['mode'] == 'fix' and d['n'] < 64:
        d['n'] *= 64
    if size > 60000 and d['mode'] == 'rand' and d['hi'] < 1000:
        d['hi'] = 3000
    if seekable is None:
        seekable = rng.random() < 0.5
    d['tell'] = 'ok' if seekable else rng.choice(['ok', 'raise', 'none'])
    d['seek'] = bool(seekable)
    d['lat'] = rng.choice([0, 0, 1, 50, 2000, 300000])
    return d


def make_error(kind):
    if kind == 'timeout':
        return socket.timeout('timed out')
    if kind == 'reset':
        return ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
    if kind == 'stale':
        return OSError(errno.ESTALE, 'Stale file handle')
    if kind == 'nospace':
        return OSError(errno.ENOSPC, 'No space left on device')
    return OSError(errno.EIO, 'Input/output error')


READ_FAULTS = ('eio', 'timeout', 'reset', 'stale')


class SimInput(object):
    """A raw (unbuffered) byte source: every read returns what has arrived, at most n bytes."""
    def __init__(self, data, deliv=None, ctx=None, clock=None, faults=(), name='in'):
        self.data = data
        self.pos = 0
        self.d = deliv or {'mode': 'full'}
        self.ctx = ctx
        self.clock = clock
        self.name = name
        self.faults = [dict(f) for f in faults]
        self.eofs = 0
        self.reads = 0
        self.fired = 0
        self.closed = False
        self.rng = random.Random(self.d.get('s', 0))
        self.cuts = sorted(c for c in self.d.get('cuts', []) if isinstance(c, int))
        self.max_pos = 0
        self.taken = 0

    # -- delivery
    def _avail(self):
        """Bytes that arrive with the next read."""
        m = self.d.get('mode')
        if m == 'fix':
            return max(1, self.d.get('n', 1))
        if m == 'rand':
            return self.rng.randint(1, max(1, self.d.get('hi', 1)))
        if m == 'cuts':
            for c in self.cuts:
                if c > self.pos:
                    return c - self.pos
        return len(self.data)

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.reads += 1
        if self.clock is not None:
            self.clock.advance(self.d.get('lat', 0))
        limit = None
        for f in self.faults:
            if f.get('left', f.get('times', 1)) == 0:
                continue
            if f['at'] <= self.pos:
                if 'left' not in f:
                    f['left'] = f.get('times', 1)
                if f['left'] > 0:
                    f['left'] -= 1
                self.fired += 1
                if self.ctx:
                    self.ctx.fault('read-' + f['kind'])
                    self.ctx.log(self.name, 'fault', f['kind'], self.pos)
                raise make_error(f['kind'])
            if limit is None or f['at'] - self.pos < limit:
                limit = f['at'] - self.pos
        if n is None or n < 0:
            k = len(self.data) - self.pos
        else:
            k = min(n, self._avail())
            if self.ctx and k < n and self.pos + k < len(self.data):
                self.ctx.mild('short-read')
        if limit is not None:
            k = min(k, limit)
        b = bytes(self.data[self.pos:self.pos + k])
        if not b and n != 0:
            self.eofs += 1
            if self.eofs > EOF_LIMIT:
                raise Violation('hang', 'end of input read %d times' % self.eofs)
        self.pos += len(b)
        self.taken += len(b)
        self.max_pos = max(self.max_pos, self.pos)
        if self.ctx:
            self.ctx.log(self.name, n, len(b))
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return bool(self.d.get('seek'))

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class TellInput(SimInput):
    def tell(self):
        if self.d.get('tell') == 'raise':
            raise OSError(errno.ESPIPE, 'Illegal seek')
        return self.pos


class SeekInput(TellInput):
    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.data)
        self.pos = max(0, off)
        if self.ctx:
            self.ctx.log(self.name, 'seek', off)
        return self.pos


class LineInput(SeekInput):
    """Also offers readline (as a raw socket file or BytesIO would); a line may arrive short only
    at the size limit or the end of the data."""
    def readline(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        out = b''
        while len(out) < n:
            i = self.data.find(b'\n', self.pos)
            want = (i + 1 if i >= 0 else len(self.data)) - self.pos
            b = self.read(min(n - len(out), max(1, want)))
            out += b
            if not b or b.endswith(b'\n'):
                break
        return out


def make_input(data, deliv, ctx=None, clock=None, faults=(), name='in'):
    if deliv.get('seek'):
        cls = SeekInput
    elif deliv.get('tell', 'none') == 'none':
        cls = SimInput
    else:
        cls = TellInput
    return cls(data, deliv, ctx, clock, faults, name)
