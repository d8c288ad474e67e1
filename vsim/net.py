"""Simulated network: sockets, servers and proxies scripted by the plan, in simulated time.

The real clients (http.client, urllib, urllib3, requests) run on it; what is replaced is the socket
below them, connecting, TLS (an identity layer) and urllib3's readiness test.
"""
import contextlib
import errno
import io
import json
import socket

from vsim import model
from vsim.seams import World

IPS = {'a.test': '10.0.0.1', 'b.test': '10.0.0.2', 'c.test': '2001:db8::3', 'proxy.test': '10.9.9.9', '127.0.0.7': '127.0.0.7',
       '::1': '::1', 'xn--d1acufc.test': '10.0.0.9'}
PROXY = 'proxy.test'
STALL = None


class Inst(object):
    """One HTTP exchange as the server saw it."""
    def __init__(self, n, k, peer):
        self.n = n              # order of arrival
        self.k = k              # index of the scripted exchange
        self.peer = peer
        self.ip = peer.ip
        self.req = b''          # bytes received for this exchange
        self.uri = None
        self.proxy = None
        self.method = self.target = None
        self.wire = b''         # the whole response
        self.head = b''
        self.entity = b''       # response body without framing
        self.framing = None
        self.fault = None
        self.complete = False   # request completely received
        self.connect = False
        self.closed = None      # client closed the response: event number
        self.begun = False      # client accepted the response head


Inst.cut = False
Inst.heard = False       # the client received something since


class Peer(object):
    """The other end of one TCP connection."""
    def __init__(self, net, cid, host, port, ip):
        self.net = net
        self.cid = cid
        self.host, self.port, self.ip = host, port, ip
        self.is_proxy = host == PROXY
        self.tunnel = None      # (host, port) once CONNECT succeeded
        self.tls = False
        self.inbuf = b''
        self.received = 0
        self.cur = None
        self.out = []           # [time, bytes] in order
        self.end = None         # (time, 'fin'|'rst')
        self.last = 0           # time of the last scheduled segment
        self.last_inst = None
        self.fin_seen = False
        self.send_fail = None
        self.raw = b''
        self.wires = []
        self.taken = 0

    # -------- receiving
    def feed(self, data):
        self.raw += data
        self.inbuf += data
        while self.inbuf and self._step():
            pass

    def _step(self):
        c = self.cur
        if c is None:
            c = self.cur = Inst(len(self.net.insts), None, self)
            c.state = 'head'
        b = self.inbuf
        if c.state == 'head':
            j = b.find(b'\r\n\r\n')
            if j < 0:
                return False
            head, self.inbuf = b[:j + 4], b[j + 4:]
            c.req = head
            self._head(c, head)
            return True
        if c.state == 'len':
            take = b[:c.left]
            self.inbuf = b[len(take):]
            c.req += take
            c.left -= len(take)
            if not c.left:
                self._done(c)
            return True
        # chunked request body
        j = b.find(b'\r\n')
        if j < 0:
            return False
        try:
            n = int(b[:j].split(b';')[0], 16)
        except ValueError:
            self.net.badreq += 1
            self.inbuf = b''
            self.end = (self.net.now(), 'rst')
            return False
        if n == 0:
            e = b.find(b'\r\n\r\n')
            if e < 0:
                return False
            c.req += b[:e + 4]
            self.inbuf = b[e + 4:]
            self._done(c)
            return True
        if len(b) < j + 2 + n + 2:
            return False
        c.req += b[:j + 2 + n + 2]
        self.inbuf = b[j + 2 + n + 2:]
        return True

    def _head(self, c, head):
        lines = head.split(b'\r\n')
        parts = lines[0].decode('latin-1').split(' ')
        c.method, c.target = parts[0], parts[1] if len(parts) > 1 else ''
        hs = {}
        for ln in lines[1:]:
            n, s, v = ln.partition(b':')
            if s:
                hs[n.strip().lower().decode('latin-1')] = v.strip().decode('latin-1')
        c.hs = hs
        c.inside = self.net.inside
        if self.net.on_request is not None:
            self.net.on_request(c)
        self.net.insts.append(c)
        c.n = len(self.net.insts) - 1
        if c.method == 'CONNECT':
            c.connect = True
            self._done(c)
            return
        t = c.target
        if '/e' in t:
            d = ''.join(x for x in _digits(t[t.index('/e') + 2:]))
            if d:
                c.k = int(d)
        c.https = self.tls
        self._uri(c)
        if 'chunked' in hs.get('transfer-encoding', ''):
            c.state = 'chunk'
        else:
            try:
                c.left = int(hs.get('content-length', '0'))
            except ValueError:
                c.left = 0
            c.state = 'len'
            if not c.left:
                self._done(c)
        if c.complete is False and self.net.early(c):
            # answered before the body has arrived
            self._answer(c)

    def _uri(self, c):
        if c.target.startswith(('http:', 'https:')):
            c.uri = c.target
            c.proxy = 'http://%s:%d' % (self.host, self.port)
            return
        host, port = self.tunnel or (self.host, self.port)
        if self.tunnel:
            c.proxy = 'https://%s:%d' % (self.host, self.port)
        scheme = 'https' if self.tls else 'http'
        h = '[%s]' % host if ':' in host else host
        c.uri = scheme + '://' + h + ('' if port == (443 if self.tls else 80) else ':%d' % port) + c.target

    def _done(self, c):
        c.complete = True
        self.cur = None
        if not getattr(c, 'answered', False):
            self._answer(c)

    # -------- answering
    def _answer(self, c):
        c.answered = True
        self.last_inst = c
        if c.connect:
            self._connect(c)
            return
        spec = self.net.response_spec(c)
        wire = build_response(c, spec)
        segs = [max(1, int(x)) for x in spec.get('seg') or [] if isinstance(x, int)] or [1 << 30]
        lats = [max(0, int(x)) for x in spec.get('lat') or [] if isinstance(x, int)] or [0]
        f = spec.get('fault')
        f = f if isinstance(f, dict) else None
        cut = len(wire)
        if f and f.get('k') in ('fin', 'rst', 'stall'):
            cut = int(f.get('at', 0)) % (len(wire) + 1)
            c.fault = f['k']
            self.net.ctx.fault('net-' + f['k'])
        if spec.get('garbage'):
            c.fault = 'garbage'
            self.net.ctx.fault('net-garbage')
        c.sent = wire[:cut]
        c.wire_at = sum(map(len, self.wires))
        self.wires.append(c.sent)
        t = max(self.net.now(), self.last)
        pos = i = 0
        while pos < cut:
            s = wire[pos:min(cut, pos + segs[i % len(segs)])]
            t += lats[i % len(lats)]
            self.out.append([t, s])
            pos += len(s)
            i += 1
            if i > 5000:
                self.out.append([t, wire[pos:cut]])
                break
        if len(segs) > 1 or segs[0] < cut:
            self.net.ctx.fault('net-fragmented')
        if any(lats):
            self.net.ctx.fault('net-delay')
        self.last = t
        if c.fault == 'rst':
            self.end = (t, 'rst')
        elif c.fault == 'stall':
            self.end = STALL
            self.stalled = True
        elif c.fault == 'fin' or c.framing == 'close' or spec.get('close'):
            self.end = (t + (lats[0] if spec.get('close') != 2 else 0), 'fin')

    def _connect(self, c):
        host, _, port = c.target.rpartition(':')
        host = host.strip('[]')
        spec = self.net.connect_spec(c)
        t = max(self.net.now(), self.last) + int(spec.get('lat', 0))
        st = spec.get('st', '200 Connection established')
        c.wire = c.sent = ('HTTP/1.1 %s\r\nX-Proxy: p\r\n\r\n' % st).encode()
        self.wires.append(c.wire)
        self.last = t
        seg = max(1, int(spec.get('seg') or 1000))
        for p in range(0, len(c.wire), seg):
            self.out.append([t, c.wire[p:p + seg]])
        if st.startswith('200'):
            self.tunnel = (host, int(port))
        else:
            self.end = (t, 'fin')


def _digits(s):
    for ch in s:
        if not ch.isdigit():
            return
        yield ch


def build_response(c, spec):
    """spec -> the bytes on the wire; fills c.wire, c.head, c.entity, c.framing"""
    if spec.get('garbage'):
        g = GARBAGE[spec['garbage'] % len(GARBAGE)]
        c.wire = c.head = g
        c.framing = 'close'
        return g
    st = str(spec.get('st') or '200 OK')
    code = st.split(' ')[0]
    ent = model.content(spec.get('body') or {'n': 0})
    enc = spec.get('enc')
    c.plain = ent
    if enc:
        ent = model.encode_entity(ent, {'ce': enc})[0]
    fr = spec.get('fr') or 'len'
    none = c.method == 'HEAD' or code in ('204', '304') or code.startswith('1')
    head = [('HTTP/%s %s' % (spec.get('ver') or '1.1', st)).encode('latin-1', 'replace')]
    for h in spec.get('hs') or []:
        if isinstance(h, list) and len(h) == 3:
            head.append(render(h))
    if enc:
        head.append(b'Content-Encoding: ' + {'rawdeflate': 'deflate'}.get(enc, enc).encode())
    if spec.get('redir') is not None:
        head.append(b'Location: /e%d/r' % int(spec['redir']))
    body = ent
    if fr == 'chunk':
        head.append(b'Transfer-Encoding: chunked')
        body = model.chunked(ent, spec.get('lay') or {})
    elif fr == 'len' and code not in ('204', '304'):
        head.append(b'Content-Length: %d' % len(ent))
    if fr == 'close':
        if spec.get('ver') != '1.0':
            head.append(b'Connection: close')
    elif spec.get('close'):
        head.append(b'Connection: close')
    if none:
        body = ent = b''
        if fr == 'close':
            fr = 'close'
    c.head = b'\r\n'.join(head) + b'\r\n\r\n'
    pre = b''
    if spec.get('cont'):
        pre = b'HTTP/1.1 100 Continue\r\n\r\n' if spec['cont'] == 1 else b'HTTP/1.1 100 Continue\r\nX-I: 1\r\n\r\n'
    c.entity = ent
    c.framing = fr
    c.wire = pre + c.head + body
    c.head = pre + c.head
    return c.wire


HSTYLES = 4


def render(h):
    n, v, st = str(h[0]), str(h[1]), h[2]
    if st == 1:
        return ('%s:%s' % (n, v)).encode('latin-1', 'replace')
    if st == 2:
        return ('%s:   %s  ' % (n, v)).encode('latin-1', 'replace')
    if st == 3:
        return ('%s: %s\r\n folded' % (n, v)).encode('latin-1', 'replace')
    if st == 4:
        return ('%s: caf\xe9 %s' % (n, v)).encode('latin-1', 'replace')
    return ('%s: %s' % (n, v)).encode('latin-1', 'replace')


GARBAGE = [b'', b'\r\n', b'hello\r\n\r\n', b'\x16\x03\x01\x00\x05', b'HTTP/1.1\r\n\r\n', b'HTTP/1.1 abc\r\nX: y\r\n\r\n', b'<html>no http</html>',
           b'\r\n\r\nHTTP/1.1 200 OK\r\n\r\n', b'HTTP/1.1 200 OK', b'SSH-2.0-x\r\n', b'HTTP/1.1 200 OK\r\n\xff\xfe\r\n\r\n', b'\0' * 40]


class SimSocket(object):
    """Client end.  Blocking semantics in simulated time."""
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 0

    def __init__(self, net, peer, timeout):
        self.net, self.peer = net, peer
        self._timeout = timeout
        self._closed = False
        self._io_refs = 0
        self.gone = False

    # what socket.SocketIO needs
    def makefile(self, mode='r', buffering=None, **kw):
        if self._closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        assert mode == 'rb', mode
        raw = socket.SocketIO(self, 'r')
        self._io_refs += 1
        return io.BufferedReader(raw, 8192 if buffering in (None, -1) else buffering)

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def close(self):
        self._closed = True
        if self._io_refs <= 0 and not self.gone:
            self.gone = True
            self._fin()

    def __del__(self):
        # a socket that is dropped is closed
        if not self.gone:
            self.peer.fin_seen = True

    def _fin(self):
        self.peer.fin_seen = True
        self.net.log('fin', self.peer.cid)

    def detach(self):
        self.gone = self._closed = True
        return -1

    def shutdown(self, how):
        if self.gone:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self.net.log('shutdown', self.peer.cid)

    def fileno(self):
        return -1 if self._closed else 100 + self.peer.cid

    def settimeout(self, t):
        self._timeout = t if t is None or isinstance(t, (int, float)) else None

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        if self.gone:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.net.noname:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if ':' in self.peer.ip:
            return (self.peer.ip, self.peer.port, 0, 0)
        return (self.peer.ip, self.peer.port)

    def getsockname(self):
        return ('10.1.1.1', 40000 + self.peer.cid)

    def sendall(self, data, flags=0):
        data = bytes(memoryview(data))      # TypeError for what a real socket refuses
        if self._closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        net, p = self.net, self.peer
        net.step('send')
        if p.end is not None and p.end[0] <= net.now():
            net.log('send-fail', p.cid)
            # what is written first after a FIN goes through, the peer answers with RST: counted in bytes,
            # the client may send a file in smaller or bigger pieces
            if p.end[1] == 'rst' and not p.fin_sent_to or p.fin_sent_to + len(data) > 20000:
                if p.end[1] != 'rst' or p.fin_sent_to:
                    net.lost += data
                    p.fin_sent_to += len(data)
                    p.end = (net.now(), 'rst')
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            p.fin_sent_to += len(data)
            p.end = (net.now(), 'rst')
            net.log('lost', len(data))
            net.lost += data
            return None
        k = net.send_fault(p, len(data))
        if k is not None:
            part, e = k
            net.log('send', p.cid, part)
            p.feed(data[:part])
            if p.cur is not None:
                p.cur.cut = True            # how much of it went out the client does not know
            p.end = (net.now(), 'rst')
            raise e
        net.log('send', p.cid, len(data))
        p.feed(data)
        return None

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self.recv_into(b)
        return bytes(b[:k])

    def recv_into(self, buf, nbytes=0, flags=0):
        if self.gone:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        net, p = self.net, self.peer
        net.step('recv')
        start = net.now()
        limit = None if self._timeout is None else start + int(self._timeout * 1e6)
        mv = memoryview(buf).cast('B')
        while True:
            now = net.now()
            if p.out and p.out[0][0] <= now:
                t, s = p.out[0]
                k = min(len(mv), len(s))
                mv[:k] = s[:k]
                if k == len(s):
                    p.out.pop(0)
                else:
                    p.out[0][1] = s[k:]
                p.taken += k
                if p.last_inst is not None:
                    p.last_inst.heard = True
                net.log('recv', p.cid, k)
                return k
            if p.out:
                t = p.out[0][0]
            elif p.end is not None:
                t, kind = p.end
                if t <= now:
                    net.log('recv', p.cid, kind)
                    if kind == 'rst':
                        raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
                    return 0
            else:
                t = None
            if t is None or (limit is not None and t > limit):
                if limit is not None:
                    net.wait(limit, p)
                    if p.out and p.out[0][0] <= net.now():
                        continue
                    net.ctx.fault('net-timeout')
                    if p.last_inst is not None and not p.last_inst.fault:
                        p.last_inst.fault = 'timeout'
                    net.log('recv', p.cid, 'timeout')
                    raise TimeoutError('timed out')
                if t is None:
                    net.wait(now + 7200 * 10 ** 6, p)
                    if p.out or p.end:
                        continue
                    net.log('recv', p.cid, 'etimedout')
                    raise OSError(errno.ETIMEDOUT, 'Connection timed out')
            net.wait(t, p)

    def readable(self):
        p, now = self.peer, self.net.now()
        return bool(p.out and p.out[0][0] <= now) or bool(p.end is not None and p.end[0] <= now and not p.out)


Inst.closed_begun = False
Inst.start = None
Inst.closed_inside = False
Inst.wire_at = None
Inst.resp_made = Inst.again = False
Peer.fin_sent_to = 0
Peer.stalled = False


class SimTLS(SimSocket):
    def __init__(self, sock, host):
        SimSocket.__init__(self, sock.net, sock.peer, sock._timeout)
        sock.gone = sock._closed = True
        self.peer.tls = True
        self.server_hostname = host

    def getpeercert(self, binary_form=False):
        return {'subjectAltName': (('DNS', self.server_hostname or ''),)}

    def version(self):
        return 'TLSv1.3'

    def selected_alpn_protocol(self):
        return None


class _Inner(object):
    def __init__(self, s):
        self.s = s

    def getpeername(self):
        return SimSocket.getpeername(self.s)


class SimTLSWrapped(SimTLS):
    """Like pyOpenSSL's wrapper: the TCP socket is an attribute."""
    def __init__(self, sock, host):
        SimTLS.__init__(self, sock, host)
        self.socket = _Inner(self)

    def getpeername(self):
        raise AttributeError('getpeername')


class Net(object):
    """The network of one world."""
    def __init__(self, plan, ctx, w):
        self.plan = plan
        self.ctx = ctx
        self.w = w
        self.insts = []
        self.peers = []
        self.events = []
        self.badreq = 0
        self.on_request = self.on_close = None
        self.lost = b''         # sent to a server which was gone
        self.nconn = 0
        self.quiet = False
        self.inside = False     # is a capture context active?
        self.noname = bool(plan.get('noname'))
        self.exs = [e for e in plan.get('exs') or [] if isinstance(e, dict)]
        self.sends = {}
        self.completions = []
        w.net = self

    def now(self):
        return self.w.clock.us

    def log(self, *a):
        self.events.append(a)
        self.ctx.log('net', *a)

    def step(self, what):
        s = self.w.sched
        if s is not None:
            s.point(what)

    def wait(self, t, peer):
        s = self.w.sched
        if s is not None:
            s.sleep_until(t, peer)
        elif t > self.w.clock.us:
            self.w.clock.advance(t - self.w.clock.us)

    def response_spec(self, c):
        if c.k is not None and c.k < len(self.exs):
            return self.exs[c.k].get('resp') or {}
        return {'st': '404 Not Found', 'body': {'n': 3, 'k': 'text', 's': 1}}

    def early(self, c):
        return bool(c.k is not None and c.k < len(self.exs) and (self.exs[c.k].get('resp') or {}).get('early'))

    def connect_spec(self, c):
        return self.plan.get('tun') or {}

    def send_fault(self, p, n):
        """A scripted failure while the k-th connection sends its at-th byte."""
        for f in self.plan.get('sf') or []:
            if isinstance(f, list) and len(f) == 3 and f[0] == p.cid:
                done = self.sends.get(p.cid, 0)
                if done <= f[1] < done + n:
                    self.ctx.fault('net-send')
                    self.sends[p.cid] = 1 << 60
                    e = BrokenPipeError(errno.EPIPE, 'Broken pipe') if f[2] else ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
                    return f[1] - done, e
        self.sends[p.cid] = self.sends.get(p.cid, 0) + n
        return None

    def connect(self, address, timeout):
        host, port = address[0], address[1]
        host = host.strip('[]')
        n = self.nconn
        self.nconn += 1
        inside = self.inside
        self.step('connect')
        self.log('connect', n, host, port)
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = None
        for f in self.plan.get('cf') or []:
            if isinstance(f, list) and len(f) == 2 and f[0] == n:
                self.ctx.fault('net-connect')
                if f[1] == 'timeout' and timeout is not None:
                    self.wait(self.now() + int(timeout * 1e6), None)
                    raise TimeoutError('timed out')
                if f[1] == 'dns':
                    raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
                raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        ip = IPS.get(host)
        if ip is None:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        p = Peer(self, n, host, port, ip)
        p.inside = inside
        self.peers.append(p)
        return SimSocket(self, p, timeout)


_installed = False


def plain_connection():
    """http.client's own connection class"""
    import http.client
    return next(c for c in http.client.HTTPConnection.__mro__ if c.__module__ == 'http.client')


@contextlib.contextmanager
def without_warcio():
    """The clients as they are when warcio.capture_http was never imported."""
    import http.client
    import urllib3.connection
    plain = plain_connection()
    ours = http.client.HTTPConnection
    u = urllib3.connection.HTTPConnection
    bases = u.__bases__
    names = [n for n, v in vars(urllib3.connection).items() if v is ours]
    http.client.HTTPConnection = plain
    u.__bases__ = tuple(plain if issubclass(b, plain) else b for b in bases)
    for n in names:
        setattr(urllib3.connection, n, plain)
    try:
        yield
    finally:
        for n in names:
            setattr(urllib3.connection, n, ours)
        u.__bases__ = bases
        http.client.HTTPConnection = ours


def install():
    """Put the sockets of the clients behind the simulated network (once per process)."""
    global _installed
    if _installed:
        return
    _installed = True
    import http.client
    import warcio.capture_http          # noqa: must come first
    real_cc = socket.create_connection

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **k):
        net = getattr(World.cur, 'net', None)
        if net is None:
            return real_cc(address, timeout, *a, **k)
        return net.connect(address, timeout)
    socket.create_connection = create_connection

    # completion of a response, as the client library sees it
    R = http.client.HTTPResponse
    real_init, real_close, real_begin = R.__init__, R._close_conn, R.begin

    def __init__(self, sock, *a, **k):
        real_init(self, sock, *a, **k)
        self._sim = sock.peer.last_inst if isinstance(sock, SimSocket) else None
        net = getattr(World.cur, 'net', None)
        if self._sim is not None and net is not None:
            if self._sim.resp_made:
                self._sim.again = True      # the client tries to get the response once more
            self._sim.resp_made = True
            if self._sim.start is None:
                self._sim.start = self._sim.peer.taken

    def begin(self):
        real_begin(self)
        if getattr(self, '_sim', None) is not None:
            self._sim.begun = True

    def _close_conn(self):
        i = getattr(self, '_sim', None)
        net = getattr(World.cur, 'net', None)
        # noted before the recorder gets to know, so that the order is that of the closings
        if i is not None and net is not None and self.fp is not None:
            if i.closed is None or not i.closed_begun:
                i.closed_begun = i.begun
                i.closed = len(net.completions)
                i.closed_inside = net.inside
                if net.on_close is not None:
                    net.on_close(i)
                net.completions.append(i)
        real_close(self)
    R.__init__, R._close_conn, R.begin = __init__, _close_conn, begin

    import urllib3
    import urllib3.connection
    import urllib3.util.connection
    import urllib3.exceptions
    import warnings
    import requests
    real_ucc = urllib3.util.connection.create_connection

    def u_create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **k):
        net = getattr(World.cur, 'net', None)
        if net is None:
            return real_ucc(address, timeout, *a, **k)
        return net.connect(address, timeout)
    urllib3.util.connection.create_connection = u_create_connection
    real_wfr = urllib3.util.connection.wait_for_read

    def wait_for_read(sock, timeout=None):
        if isinstance(sock, SimSocket):
            return sock.readable()
        return real_wfr(sock, timeout)
    urllib3.util.connection.wait_for_read = wait_for_read
    real_wrap = urllib3.connection.ssl_wrap_socket

    def ssl_wrap_socket(sock, *a, **k):
        if isinstance(sock, SimSocket):
            cls = SimTLSWrapped if sock.net.plan.get('pyossl') else SimTLS
            return cls(sock, k.get('server_hostname'))
        return real_wrap(sock, *a, **k)
    urllib3.connection.ssl_wrap_socket = ssl_wrap_socket
    import ssl

    class Ctx(object):
        verify_mode = ssl.CERT_NONE
        check_hostname = False

        def __getattr__(self, n):
            return lambda *a, **k: None
    urllib3.connection.create_urllib3_context = lambda *a, **k: Ctx()
    warnings.filterwarnings('ignore', category=urllib3.exceptions.HTTPWarning)
    warnings.filterwarnings('ignore', category=urllib3.exceptions.SecurityWarning)
    import logging
    logging.getLogger('urllib3').setLevel(logging.CRITICAL + 1)
    assert requests and json
