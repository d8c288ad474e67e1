"""Simulated disk: real Python buffered files over a simulated raw file.

What the operating system holds (Node.data) survives a process crash; what sits in the user-space
buffers of the real io classes does not.
"""
import errno
import io
import os

from vsim.core import SimCrash
from vsim.seams import World
from vsim.streams import make_error

import random


class Shared(io.BufferedWriter):
    """A file that threads write: they can be switched before and after each call."""
    def write(self, b):
        s = getattr(World.cur, 'sched', None)
        if s is None:
            return super().write(b)
        s.point('write')
        n = super().write(b)
        s.point('written')
        return n

    def flush(self):
        super().flush()
        s = getattr(World.cur, 'sched', None)
        if s is not None:
            s.point('written')


class Node(object):
    count = 0

    def __init__(self, path):
        Node.count += 1
        self.ino = Node.count
        self.path = path
        self.data = bytearray()


class SimFS(object):
    """plan: {'faults': [...], 'bufsize': n, 'deliv': {...}, 'crash': {...}|None}

    fault: {'op': 'write'|'read'|'open'|'close'|'truncate'|'seek'|'temp', 'n': index of the call counted
            over matching files, 'kind': 'eio'|'nospace', 'part': bytes written first, 'times': k,
            'file': substring of path or ''}
    """
    def __init__(self, plan=None):
        self.plan = plan or {}
        self.nodes = {}
        self.faults = [dict(f) for f in self.plan.get('faults', ())]
        self.crash = self.plan.get('crash')
        self.counts = {}
        self.count_ops = {}
        self.ops = 0
        self.dead = False
        self.ntemp = 0
        self.w = None
        self.ctx = None
        self.fired = 0
        self.enabled = True
        self.open_raw = []
        self.quota = self.plan.get('quota')     # bytes the disk can hold
        # legal short writes: the system takes only a part now and then
        wf = self.plan.get('wfrag')
        self.wrng = random.Random(wf.get('s', 0)) if isinstance(wf, dict) else None
        self.whi = max(1, wf.get('hi', 1)) if isinstance(wf, dict) else 0

    def attach(self, w, ctx):
        self.w, self.ctx = w, ctx

    # -- faults
    def hit(self, op, path):
        """Count one raw operation; return the fault to apply, if any."""
        if self.dead:
            return {'kind': 'dead'}
        self.ops += 1
        ck = (op, 'temp' if path == '<temp>' else 'out')
        self.count_ops[ck] = self.count_ops.get(ck, 0) + 1
        if self.w is not None:
            self.w.clock.advance(self.plan.get('lat', 0))
        if self.ctx is not None:
            self.ctx.log('fs', op, os.path.basename(path))
        if not self.enabled:
            return None
        c = self.crash
        if c and c['op'] == op and c.get('file', '') in path:
            k = self.counts.get(('crash', op), 0)
            self.counts[('crash', op)] = k + 1
            if k == c['n']:
                return {'kind': 'crash', 'part': c.get('part', 0)}
        for j, f in enumerate(self.faults):
            if f['op'] != op or f.get('file', '') not in path:
                continue
            k = self.counts.get(j, 0)
            self.counts[j] = k + 1
            t = f.get('times', 1)
            if k >= f['n'] and (t == 0 or k < f['n'] + t):
                self.fired += 1
                if self.ctx is not None:
                    self.ctx.fault('%s-%s' % (op, f['kind']))
                return f
        return None

    def used(self):
        return sum(len(n.data) for n in self.nodes.values())

    def die(self):
        self.dead = True
        if self.ctx is not None:
            self.ctx.fault('crash')
        raise SimCrash()

    # -- name space
    def put(self, path, data):
        n = Node(path)
        n.data[:] = data
        self.nodes[path] = n

    def get(self, path):
        return bytes(self.nodes[path].data)

    def exists(self, path):
        return path in self.nodes

    def size(self, path):
        if path not in self.nodes:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        return len(self.nodes[path].data)

    def ino(self, path):
        return self.nodes[path].ino

    def link(self, path, other):
        self.nodes[other] = self.nodes[path]

    def remove(self, path):
        if path not in self.nodes:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        del self.nodes[path]

    def rename(self, a, b):
        if a not in self.nodes:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        self.nodes[b] = self.nodes.pop(a)
        self.nodes[b].path = b

    def truncate(self, path, n):
        d = self.nodes[path].data
        del d[n:]
        d.extend(b'\0' * (n - len(d)))

    # -- opening
    def open_raw_file(self, path, mode):
        f = self.hit('open', path)
        if f:
            if f['kind'] == 'crash':
                self.die()
            raise make_error(f['kind'])
        m = mode.replace('b', '').replace('t', '').replace('U', '')
        plus = '+' in m
        m = m.replace('+', '') or 'r'
        node = self.nodes.get(path)
        if m == 'r':
            if node is None:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        elif m == 'x':
            if node is not None:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            node = self.nodes[path] = Node(path)
        elif m == 'w':
            if node is None:
                node = self.nodes[path] = Node(path)
            del node.data[:]
        elif m == 'a':
            if node is None:
                node = self.nodes[path] = Node(path)
        else:
            raise ValueError('invalid mode: %r' % mode)
        raw = SimRaw(self, node, reading=(m == 'r' or plus), writing=(m != 'r' or plus),
                     append=(m == 'a'))
        return raw, plus

    def open_any(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        raw, plus = self.open_raw_file(path, mode)
        self.open_raw.append(raw)
        size = self.plan.get('bufsize', 8192) if buffering in (-1, 1) else buffering
        if buffering == 0:
            return raw
        if plus:
            f = io.BufferedRandom(raw, max(1, size))
        elif raw.writing:
            f = (Shared if getattr(World.cur, 'sched', None) is not None else io.BufferedWriter)(raw, max(1, size))
        else:
            f = io.BufferedReader(raw, max(1, size))
        if 'b' not in mode:
            f = io.TextIOWrapper(f, encoding=encoding or 'utf-8', errors=errors, newline=newline)
        return f

    def temp(self, mode='w+b', named=False):
        f = self.hit('temp', '<temp>')
        if f:
            if f['kind'] == 'crash':
                self.die()
            raise make_error(f['kind'])
        self.ntemp += 1
        node = Node('<temp>')
        raw = SimRaw(self, node, True, True, False)
        buf = io.BufferedRandom(raw, max(1, self.plan.get('bufsize', 8192)))
        if named:
            path = '/simdisk/.tmp%d' % self.ntemp
            self.nodes[path] = node
            return NamedTemp(self, buf, path)
        return buf

    def still_open(self):
        return [r for r in self.open_raw if not r.closed]


class NamedTemp(object):
    def __init__(self, fs, f, name):
        self.fs, self.file, self.name = fs, f, name

    def close(self):
        self.file.close()
        self.fs.nodes.pop(self.name, None)

    def __getattr__(self, n):
        return getattr(self.file, n)

    def __iter__(self):
        return iter(self.file)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimRaw(io.RawIOBase):
    def __init__(self, fs, node, reading, writing, append):
        io.RawIOBase.__init__(self)
        self.fs, self.node = fs, node
        self.reading, self.writing, self.append = reading, writing, append
        self.pos = len(node.data) if append else 0
        d = fs.plan.get('deliv') or {}
        self.pend = None
        self.frag = d.get('n', 0) if d.get('mode') == 'fix' else 0
        self.frng = random.Random(d.get('s', 0)) if d.get('mode') == 'rand' else None
        self.fhi = d.get('hi', 1)
        self.name = node.path
        self.mode = 'rb+' if reading and writing else ('wb' if writing else 'rb')

    def readable(self):
        return self.reading

    def writable(self):
        return self.writing

    def seekable(self):
        return True

    def _fault(self, op):
        f = self.fs.hit(op, self.node.path)
        if f is None or f['kind'] == 'dead':
            return f
        if f['kind'] == 'crash' and op != 'write':
            self.fs.die()
        return f

    def readinto(self, b):
        f = self._fault('read')
        if f and f['kind'] != 'dead':
            raise make_error(f['kind'])
        n = len(b)
        if self.frag:
            n = min(n, self.frag)
        elif self.frng:
            n = min(n, self.frng.randint(1, max(1, self.fhi)))
        d = self.node.data[self.pos:self.pos + n]
        if n < len(b) and len(self.node.data) - self.pos > n and self.fs.ctx is not None:
            self.fs.ctx.mild('short-read')
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def _put(self, b):
        if self.append:
            self.pos = len(self.node.data)
        d = self.node.data
        if self.pos > len(d):
            d.extend(b'\0' * (self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def write(self, b):
        b = bytes(b)
        if self.pend and not self.fs.dead:
            kind, self.pend = self.pend, None
            if self.fs.enabled:
                raise make_error(kind)
        f = self._fault('write')
        if f:
            if f['kind'] == 'dead':
                return len(b)
            part = min(f.get('part', 0), max(0, len(b) - 1)) if b else 0
            if f['kind'] == 'crash':
                self._put(b[:min(f.get('part', 0), len(b))])
                self.fs.die()
            if f['kind'] == 'short':
                # legal: the OS took only part of the data
                part = max(1, part) if b else 0
                self._put(b[:part])
                return part
            if part:
                # a short write first; the error follows on the retry of the rest
                self._put(b[:part])
                self.pend = f['kind']
                return part
            raise make_error(f['kind'])
        if self.fs.quota is not None and self.fs.enabled:
            room = self.fs.quota - self.fs.used()
            if room < len(b):
                self.fs.fired += 1
                if self.fs.ctx is not None:
                    self.fs.ctx.fault('write-disk-full')
                if room > 0:
                    self._put(b[:room])
                    return room
                raise make_error('nospace')
        if self.fs.wrng is not None and len(b) > 1 and self.fs.wrng.random() < 0.5:
            b = b[:self.fs.wrng.randint(1, min(self.fs.whi, len(b) - 1))]
            if self.fs.ctx is not None:
                self.fs.ctx.mild('short-write')
        self._put(b)
        return len(b)

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.node.data)
        if off < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        if n is None:
            n = self.pos
        f = self._fault('truncate')
        if f and f['kind'] != 'dead':
            raise make_error(f['kind'])
        d = self.node.data
        del d[n:]
        d.extend(b'\0' * (n - len(d)))
        return n

    def close(self):
        if not self.closed:
            f = None
            if self.writing and not self.fs.dead:
                f = self._fault('close')
            io.RawIOBase.close(self)
            if f and f['kind'] != 'dead':
                raise make_error(f['kind'])
