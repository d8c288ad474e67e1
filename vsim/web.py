"""HTTP clients driven by a script on the simulated network, and what a capture of them must hold."""
import array
import io
import re

from vsim import model
from vsim.core import short, diff_bytes
from vsim.model import hget, hall
from vsim.wsim import same_http_value, is_ascii

METHODS = ['GET'] * 6 + ['POST'] * 4 + ['HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'PROPFIND']
BODIES = ['bytes', 'bytes', 'str', 'bytearray', 'memoryview', 'array', 'file', 'textfile', 'gen', 'list', 'pipe', 'pipe']
STATUS = ['200 OK'] * 6 + ['404 Not Found', '204 No Content', '304 Not Modified', '500 Server  Error', '206 Partial Content', '200', '299 x: y']
REQH = [['Accept', '*/*', 0], ['X-A', 'v', 0], ['X-A', 'w', 0], ['Cookie', 'a=b; c=d', 0], ['Referer', 'http://x/', 0], ['X-E', '', 0], ['X-L', 'caf\xe9', 4]]
RESH = [['Server', 'sim', 0], ['Set-Cookie', 'a=b', 0], ['Set-Cookie', 'c=d; Path=/', 0], ['X-Long', 'y' * 300, 0], ['Content-Type', 'text/html', 0],
        ['X-E', '', 0]]
RESH_ODD = [['X-N', 'nospace', 1], ['X-B', 'blanks', 2], ['X-F', 'first', 3], ['X-8', 'x', 4]]
HOSTS = [('a.test', 80), ('b.test', 80), ('a.test', 8080), ('127.0.0.7', 80), ('::1', 80), ('::1', 8080), ('b.test', 443)]
SECURE = [('a.test', 443), ('b.test', 8443), ('c.test', 443), ('a.test', 443), ('c.test', 80)]


# ---------------------------------------------------------------- generation
def gen_ex(rng, i, faults=0.2, odd=0.15, big=0.02):
    m = rng.choice(METHODS)
    e = {'m': m, 'q': rng.choice(['', '?x=1&y=2', '/a%20b', '/' + 'p' * 50]), 'hs': [list(rng.choice(REQH)) for _ in range(rng.choice([0, 0, 1, 3]))]}
    if rng.random() > odd:
        e['hs'] = [h for h in e['hs'] if h[2] == 0]
    if m in ('POST', 'PUT', 'PATCH', 'PROPFIND') or rng.random() < 0.05:
        e['body'] = {'k': rng.choice(BODIES), 'c': model.gen_content(rng, big, 0.1), 'parts': rng.choice([1, 2, 3])}
        if rng.random() < 0.02:
            e['body']['c']['n'] = rng.choice([16384, 16385, 40000, 100000])
    r = {'st': rng.choice(STATUS), 'fr': rng.choice(['len', 'len', 'len', 'chunk', 'chunk', 'close']), 'body': model.gen_content(rng, big, 0.12),
         'hs': [list(rng.choice(RESH)) for _ in range(rng.choice([0, 1, 3]))]}
    if rng.random() < odd:
        r['hs'].append(list(rng.choice(RESH_ODD)))
    if rng.random() < 0.1:
        r['ver'] = '1.0'
        if r['fr'] == 'chunk':
            r['fr'] = 'close'
    if r['fr'] == 'chunk':
        r['lay'] = model.gen_layout(rng, r['body']['n'])
    if rng.random() < 0.2:
        r['enc'] = rng.choice(['gzip', 'deflate', 'br'])
    if rng.random() < 0.15:
        r['close'] = rng.choice([1, 1, 2])
    r['seg'] = [rng.choice([1, 2, 3, 10, 17, 100, 1000, 8191, 8192, 20000]) for _ in range(rng.choice([0, 1, 1, 3]))]
    if r['body']['n'] > 20000 and r['seg']:
        r['seg'] = [max(x, 500) for x in r['seg']]
    r['lat'] = [rng.choice([0, 0, 1, 1000, 70000]) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < faults:
        if rng.random() < 0.2:
            r['garbage'] = rng.randint(1, 40)
        else:
            r['fault'] = {'k': rng.choice(['fin', 'fin', 'rst', 'stall']), 'at': rng.choice([rng.randrange(1 << 16), rng.randrange(300), 0])}
    e['resp'] = r
    return e


READS = ['read', 'read', 'readinto', 'read1', 'peek', 'readline', 'bufread', 'iter1', 'readall', 'readlines']


def gen_reads(rng, basic=False):
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.choice(['read', 'read', 'readinto', 'readline'] if basic else READS)
        n = rng.choice([0, 1, 2, 5, 10, 100, 1000, 8192, 16384, 70000])
        ops.append([k, n])
    r = rng.random()
    if r < 0.45:
        ops.append(['readall', 0])
    elif r < 0.8:
        ops.append(['drain', rng.choice([1, 3, 7, 100, 4096, 16384]), rng.randrange(5 if not basic else 2)])
    return ops, r


def gen_conn(rng, plan, nex, basic=False, clients=None):
    """One connection (or session) and its operations."""
    kind = rng.choice(clients or ['hc', 'hc', 'hc', 'hct', 'hcp', 'urllib', 'u3', 'u3', 'u3s', 'u3p', 'u3t', 'req', 'req', 'reqt'])
    secure = kind in ('u3s', 'u3t', 'reqt')
    host, port = rng.choice(SECURE if secure else HOSTS)
    c = {'c': kind, 'h': host, 'p': port}
    if rng.random() < 0.35:
        c['to'] = rng.choice([0.05, 1, 30])
    if kind in ('u3', 'u3s', 'u3p', 'u3t') and rng.random() < 0.2:
        c['retries'] = 2
    if kind in ('u3', 'u3s') and rng.random() < 0.15:
        c['nodec'] = 1
    if kind in ('hc', 'hct') and rng.random() < 0.1:
        c['sub'] = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = len(plan['exs'])
        plan['exs'].append(gen_ex(rng, k, **nex))
        if kind in ('hc', 'hct', 'hcp'):
            ops.append(['req', k, rng.choice(['request', 'request', 'put', 'send'])])
            if rng.random() < 0.03:
                ops.append(['req', k, 'request'])
            if rng.random() < 0.03:
                ops.insert(len(ops) - rng.randrange(2), ['bad', rng.randrange(5)])
            ops.append(['resp'])
            reads, r = gen_reads(rng, basic)
            ops += reads
            if rng.random() < 0.04:
                ops.append(['req', k, 'request'])
            if r >= 0.8 or rng.random() < 0.1:
                ops.append([rng.choice(['rclose', 'rclose', 'cclose', 'with'])])
        else:
            b = plan['exs'][k].get('body')
            if b and b['k'] in ('pipe', 'failing'):
                b['k'] = 'file'
            if b and b['k'] in ('memoryview', 'array', 'list', 'textfile') and kind != 'urllib':
                b['k'] = 'bytes'
            stream = kind == 'urllib' or rng.random() < 0.6
            if rng.random() < 0.1 and kind in ('u3', 'u3s', 'req', 'urllib'):
                # a redirect to the exchange after this one
                plan['exs'][k]['resp'].update({'st': rng.choice(['302 Found', '307 Temporary Redirect', '301 Moved']), 'redir': k + 1})
                plan['exs'][k]['m'] = 'GET'
                plan['exs'][k].pop('body', None)
                plan['exs'].append(gen_ex(rng, k + 1, **nex))
            ops.append(['get', k, int(stream)])
            if stream:
                for _ in range(rng.choice([0, 0, 1, 2])):
                    ops.append([rng.choice(['read', 'read', 'readline'] if kind == 'urllib' else ['read', 'read', 'stream1', 'readinto'] if kind[0] == 'u'
                                           else ['read', 'stream1', 'content']), rng.choice([1, 5, 100, 1000, 16384])])
                if rng.random() < 0.75:
                    ops.append(['readall', 0])
                ops.append([rng.choice(['rclose', 'rclose', 'release' if kind[0] == 'u' and kind != 'urllib' else 'rclose'])])
    if rng.random() < 0.7:
        ops.append(['cclose'])
    plan['conns'].append(c)
    return ops


def merge(rng, seqs, bursty=0.5):
    """Interleave the operation sequences of several connections."""
    seqs = [(i, list(s)) for i, s in enumerate(seqs)]
    out = []
    last = None
    while any(s for _, s in seqs):
        live = [i for i, s in seqs if s]
        i = last if last in live and rng.random() < bursty else rng.choice(live)
        out.append([i] + seqs[i][1].pop(0))
        last = i
    return out


def gen_net(rng, plan):
    if rng.random() < 0.1:
        plan['cf'] = [[rng.randrange(3), rng.choice(['refused', 'dns', 'timeout'])]]
    if rng.random() < 0.1:
        plan['sf'] = [[rng.randrange(3), rng.choice([0, 10, 200, rng.randrange(3000)]), rng.randrange(2)]]
    if rng.random() < 0.1:
        plan['pyossl'] = 1
    if rng.random() < 0.04:
        plan['noname'] = 1
    plan['tun'] = {'st': rng.choice(['200 Connection established'] * 6 + ['200', '407 Proxy Auth', '502 Bad Gateway']), 'lat': rng.choice([0, 500]),
                   'seg': rng.choice([1000, 1, 5])}


# ---------------------------------------------------------------- running
class Pipe(object):
    """A request body that comes in short reads, and may fail before its end."""
    def __init__(self, data, step, fail):
        self.f = io.BytesIO(data)
        self.step = step
        # the same bytes come before the failure, however they are asked for
        self.left = len(data) * 2 // 3 if fail else -1

    def read(self, n=-1):
        if self.left == 0:
            raise OSError(5, 'simulated failure of the body source')
        n = self.step if n is None or n < 0 else min(n, self.step)
        if self.left > 0:
            n = min(n, self.left)
            self.left -= n
        return self.f.read(n)


class Client(object):
    def __init__(self, ctx, net, spec, exs, cls=None):
        self.ctx, self.net, self.spec, self.exs = ctx, net, spec, exs
        self.kind = spec.get('c', 'hc')
        self.host = str(spec.get('h', 'a.test'))
        self.port = int(spec.get('p', 80))
        self.to = spec.get('to')
        self.cls = cls
        self.conn = None
        self.resp = None
        self.got = b''
        self.log = []
        self.closed_early = False
        self.failed = False
        self.bad = False

    # ---- helpers
    def body_of(self, e, parts=False):
        b = e.get('body')
        if not isinstance(b, dict):
            return None
        data = model.content(b.get('c') or {})
        k = b.get('k')
        if k in ('str', 'textfile'):
            s = data.decode('latin-1')
            return s if k == 'str' else io.StringIO(s, newline='')
        if k == 'bytearray':
            return bytearray(data)
        if k == 'memoryview':
            return memoryview(data)
        if k == 'array':
            return array.array('B', data)
        if k == 'file':
            return io.BytesIO(data)
        n = max(1, int(b.get('parts', 1) or 1))
        if k in ('pipe', 'failing'):
            return Pipe(data, len(data) // n + 1, k == 'failing')
        step = len(data) // n + 1
        ch = [data[i:i + step] for i in range(0, len(data), step)]
        if k == 'gen':
            return (x for x in ch)
        if k == 'list':
            return ch
        return data

    def path(self, k, e):
        return '/e%d%s' % (k, e.get('q', ''))

    def ex(self, k):
        return self.exs[k % len(self.exs)] if self.exs else {'m': 'GET', 'resp': {}}

    def base(self):
        h = '[%s]' % self.host if ':' in self.host else self.host
        tls = self.kind in ('u3s', 'u3t', 'reqt')
        return ('https' if tls else 'http') + '://' + h + ('' if self.port == (443 if tls else 80) else ':%d' % self.port)

    def note(self, *what):
        self.log.append(what)
        self.ctx.log('cl', self.spec.get('i'), *[short(x, 60) for x in what])

    def do(self, op):
        """One scripted operation; what the client sees is noted."""
        name = op[0] if op and isinstance(op[0], str) else ''
        f = getattr(self, 'op_' + name, None)
        if f is None:
            return
        r0 = self.resp
        self.raised_in = None
        n0 = len(self.got)
        try:
            res = f(*op[1:])
        except Exception as e:
            self.failed = True
            self.raised_in = innermost(e)
            self.note(name, 'raised', type(e).__name__, clean(str(e)))
            if name not in ('req', 'get', 'resp'):
                self.state()
            return
        self.note(name, 'ok', res)
        if name not in ('req',):
            self.state()
        i = self.inst()
        if i is not None and self.resp is r0 and name not in ('rclose', 'cclose', 'with', 'release'):
            if not getattr(self, 'explicit', False) and not self.failed:
                i.natural = i.closed is not None
        if i is not None and self.kind in ('hc', 'hct', 'hcp', 'urllib'):
            i.got = self.got
            i.exact = not self.odd
        del n0

    def inst(self):
        r = self.http_resp()
        return getattr(r, '_sim', None)

    def http_resp(self):
        r = self.resp
        if r is None:
            return None
        if hasattr(r, 'raw'):
            r = r.raw
        return getattr(r, '_original_response', None) or r

    def state(self):
        """Everything a client can see of the response without reading."""
        r = self.resp
        if r is None:
            return
        out = []
        h = self.http_resp()
        for n in ('status', 'reason', 'version', 'length', 'will_close', 'closed'):
            try:
                out.append(getattr(h, n, None))
            except Exception as e:
                out.append(type(e).__name__)
        try:
            out.append(h.isclosed())
        except Exception as e:
            out.append(type(e).__name__)
        self.note('state', tuple(out))

    def new_resp(self, r):
        self.resp = r
        self.got = b''
        self.failed = False
        self.explicit = False
        self.mixed = False
        self.odd = False
        if self.spec.get('sub') in (1, 3):
            self.note('class', getattr(r, 'marker', None))
        hs = r.headers.items() if hasattr(r, 'headers') else r.getheaders()
        return (getattr(r, 'status', None) or getattr(r, 'status_code', None), getattr(r, 'reason', None), tuple(sorted((str(a), str(b)) for a, b in hs)))

    odd = False
    explicit = False
    mixed = False

    # ---- http.client
    def connect(self):
        if self.conn is None:
            import http.client
            cls = self.cls or http.client.HTTPConnection
            kw = {} if self.to is None else {'timeout': self.to}
            if self.spec.get('sub') in (1, 2):
                # an application's own connection and response classes
                class Sub(cls):
                    response_class = http.client.HTTPResponse if self.spec['sub'] == 2 else sub_response()
                cls = Sub
            if self.kind == 'hc':
                self.conn = cls(self.host, self.port, **kw)
            else:
                self.conn = cls('proxy.test', 3128, **kw)
                if self.kind == 'hct':
                    self.conn.set_tunnel(self.host, self.port)
            if self.spec.get('sub') == 3:
                self.conn.response_class = sub_response()

    def op_req(self, k, style='request'):
        try:
            return self.op_req1(k, style)
        except Exception:
            if ((self.ex(int(k)).get('body') or {}).get('k')) == 'failing':
                # the rest of the body is missing: the connection can not be used for anything else
                self.conn.close()
            raise

    def op_req1(self, k, style):
        self.connect()
        k = int(k)
        e = self.ex(k)
        path = self.path(k, e)
        if self.kind == 'hcp':
            path = self.base() + path
        hs = [(str(h[0]), str(h[1])) for h in e.get('hs') or [] if isinstance(h, list) and len(h) == 3]
        body = self.body_of(e)
        m = e.get('m', 'GET')
        if style == 'request':
            self.conn.request(m, path, body=body, headers=dict(hs))
            return None
        self.conn.putrequest(m, path)
        for a, b in hs:
            self.conn.putheader(a, b)
        if body is None:
            self.conn.endheaders()
            return None
        data = model.content(e['body'].get('c') or {})
        self.conn.putheader('Content-Length', str(len(data)))
        if style == 'put':
            self.conn.endheaders(body if not isinstance(body, str) else body.encode('latin-1'))
        else:
            self.conn.endheaders()
            if isinstance(body, str):
                body = body.encode('latin-1')
            self.conn.send(body)
        return None

    def op_bad(self, n=0):
        """A request that http.client refuses."""
        self.connect()
        n = int(n) % 5
        if n == 0:
            self.conn.request('GET', '/with space')
        elif n == 1:
            self.conn.request('GE\nT', '/e0')
        elif n == 2:
            self.conn.request('GET', '/e0', headers={'X': 'a\r\nb'})
        elif n == 3:
            try:
                self.conn.request('POST', '/e0', body=5)
            except TypeError:
                self.conn.close()
                raise
        else:
            self.conn.request('POST', '/e0', body='\u20ac')

    def op_resp(self):
        r = self.conn.getresponse()
        return self.new_resp(r)

    def r(self):
        if self.resp is None:
            raise ValueError('no response')
        return self.resp

    def add(self, b):
        self.got += bytes(b)
        return bytes(b)

    def op_read(self, n=None):
        r = self.r()
        # urllib3 reads chunks itself when iterated: after a read() it takes the middle of a chunk for its size
        self.mixed = True
        if hasattr(r, 'iter_content'):
            r = r.raw
        return self.add(r.read(n))

    def op_readall(self, n=None):
        r = self.r()
        if hasattr(r, 'iter_content'):
            if self.mixed:
                self.explicit = True
            return self.add(r.content)
        return self.add(r.read())

    op_content = op_readall

    def op_readinto(self, n):
        b = bytearray(int(n))
        self.mixed = True
        r = self.r()
        if hasattr(r, 'iter_content'):
            r = r.raw
        k = r.readinto(b)
        self.add(b[:k])
        return (k, bytes(b))

    def op_read1(self, n):
        self.odd = True
        return self.add(self.r().read1(int(n)))

    def op_peek(self, n):
        self.odd = True
        return bytes(self.r().peek(int(n)))

    def op_readline(self, n):
        return self.add(self.r().readline(int(n)) if n else self.r().readline())

    def op_readlines(self, n):
        out = self.r().readlines(int(n) or -1)
        self.add(b''.join(out))
        return out

    def op_iter1(self, n):
        it = iter(self.r())
        out = []
        for _ in range(min(int(n), 5)):
            x = next(it, None)
            if x is None:
                break
            out.append(x)
            self.add(x)
        return out

    def op_bufread(self, n):
        self.odd = True
        b = io.BufferedReader(self.r(), max(1, int(n)))
        out = b.read(int(n))
        self.add(out)
        try:
            b.detach()
        except ValueError:
            pass
        return out

    def op_stream1(self, n):
        r = self.r()
        it = r.iter_content(max(1, int(n))) if hasattr(r, 'iter_content') else r.stream(max(1, int(n)))
        self.odd = True
        # the rest may be dropped with the iterator
        self.explicit = True
        return self.add(next(it, b''))

    def op_drain(self, n, how=0):
        r = self.r()
        n = max(1, int(n))
        out = []
        # many small reads of a big body are only slow
        i = self.inst()
        if i is not None:
            n = max(n, len(i.wire) // 300)
        while True:
            if how == 1:
                b = bytearray(n)
                b = bytes(b[:r.readinto(b)])
            elif how == 2:
                self.odd = True
                b = r.read1(n)
            elif how == 3:
                b = r.readline()
            elif how == 4:
                self.odd = True
                b = r.peek(n)
                if not b:
                    b = r.read(n)
                else:
                    self.add(r.read(len(b[:n])))
                    out.append(len(b) and n)
                    continue
            else:
                b = r.read(n)
            out.append(len(b))
            if not b:
                break
            self.add(b)
            if len(out) > 200000:
                break
        return out[:50]

    def op_rclose(self):
        self.explicit = True
        self.r().close()

    def op_with(self):
        self.explicit = True
        with self.r():
            pass

    def op_release(self):
        self.explicit = True
        self.r().release_conn()

    def op_cclose(self):
        self.explicit = True
        if self.conn is None:
            return
        if hasattr(self.conn, 'clear'):
            self.conn.clear()
        elif hasattr(self.conn, 'close'):
            self.conn.close()

    def op_drop(self):
        """The client forgets the connection and the response."""
        self.explicit = True
        self.conn = self.resp = self.keep = None

    keep = None

    # ---- the others
    def op_get(self, k, stream=1):
        k = int(k)
        e = self.ex(k)
        url = self.base() + self.path(k, e)
        hs = dict((str(h[0]), str(h[1])) for h in e.get('hs') or [] if isinstance(h, list) and len(h) == 3)
        m = e.get('m', 'GET')
        body = self.body_of(e)
        to = self.to
        if self.kind == 'urllib':
            import urllib.request
            if self.conn is None:
                self.conn = urllib.request.build_opener(urllib.request.ProxyHandler({}))
            if isinstance(body, str):
                body = body.encode('latin-1')
            req = urllib.request.Request(url, data=body, headers=hs, method=m)
            import urllib.error
            try:
                r = self.conn.open(req, **({} if to is None else {'timeout': to}))
            except urllib.error.HTTPError as err:
                self.keep = err         # closes the response when dropped
                r = getattr(err, 'fp', err) or err
            return self.new_resp(r)
        if self.kind in ('u3', 'u3s', 'u3p', 'u3t'):
            import urllib3
            if self.conn is None:
                kw = {} if to is None else {'timeout': to}
                if self.kind in ('u3p', 'u3t'):
                    self.conn = urllib3.ProxyManager('http://proxy.test:3128/', cert_reqs='CERT_NONE', **kw)
                else:
                    self.conn = urllib3.PoolManager(cert_reqs='CERT_NONE', **kw)
            retries = urllib3.Retry(self.spec.get('retries', 0), redirect=3, raise_on_redirect=False)
            ch = {}
            if e.get('body') and e['body'].get('k') in ('gen', 'list', 'textfile'):
                ch['chunked'] = True
            r = self.conn.request_encode_url(m, url, headers=hs, body=body, retries=retries, preload_content=not stream, **ch) \
                if False else self.conn.urlopen(m, url, headers=hs, body=body, retries=retries, preload_content=not stream,
                                                decode_content=not self.spec.get('nodec'), **ch)
            out = self.new_resp(r)
            if not stream:
                self.add(r.data)
                return out + (r.data,)
            return out
        import requests
        if self.conn is None:
            self.conn = requests.Session()
            self.conn.trust_env = False
            self.conn.verify = False
            if self.kind == 'reqt':
                self.conn.proxies = {'http': 'http://proxy.test:3128', 'https': 'http://proxy.test:3128'}
        r = self.conn.request(m, url, headers=hs, data=body, stream=bool(stream), timeout=to)
        out = self.new_resp(r)
        if not stream:
            self.add(r.content)
            return out + (r.content, len(r.history))
        return out + (len(r.history),)


def innermost(e):
    """The exception if it was raised by code of warcio (or a builtin that it called)."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    if '/warcio/' in fn and '/verif/' not in fn and not isinstance(e, OSError) and 'closed file' not in str(e):
        return '%s %s in %s' % (type(e).__name__, e, tb.tb_frame.f_code.co_name)
    return None


def sub_response():
    import http.client

    class SubResponse(http.client.HTTPResponse):
        marker = 'sub'
    return SubResponse


def clean(s):
    return re.sub(r'0x[0-9a-f]+', '0x', s)


# ---------------------------------------------------------------- what a capture must hold
def parse_head(b):
    """-> (first line, [(name, value)], body)"""
    j = b.find(b'\r\n\r\n')
    if j < 0:
        return None
    lines = []
    for ln in b[:j].split(b'\r\n'):
        if ln[:1] in (b' ', b'\t') and lines:
            lines[-1] += ln
        else:
            lines.append(ln)
    hs = []
    for ln in lines[1:]:
        n, s, v = ln.partition(b':')
        if s:
            hs.append((_dec(n).strip(), _dec(v).strip()))
    return _dec(lines[0]).strip(), hs, b[j + 4:]


def _dec(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('latin-1')


def canonical(b):
    """Is this message in the form in which warcio writes http headers?"""
    j = b.find(b'\r\n\r\n')
    if j < 0:
        return False
    head = b[:j]
    try:
        head.decode('ascii')
    except UnicodeDecodeError:
        return False
    lines = head.split(b'\r\n')
    if lines[0].strip() != lines[0] or b' ' not in lines[0]:
        return False
    return all(re.match(rb'[^:\s]+: (\S(.*\S)?)?$', ln) for ln in lines[1:])


def same_message(ctx, want, got, what, full=True, least=0):
    """got: the block of a record; want: the bytes on the wire.  Not full: got may end early."""
    if canonical(want):
        if full:
            ctx.check(got == want, 'record does not hold the bytes exchanged', lambda: '%s %s' % (what, diff_bytes(want, got)))
        else:
            ctx.check(want.startswith(got), 'record holds other bytes than were exchanged', lambda: '%s %s' % (what, diff_bytes(want, got)))
            ctx.check(len(got) >= least, 'record lacks bytes that the client read', lambda: '%s %d of at least %d' % (what, len(got), least))
        return
    w, g = parse_head(want), parse_head(got)
    ctx.check(w is not None and g is not None, 'record is no http message', lambda: '%s %s' % (what, short(got)))
    ctx.check(same_http_value(w[0], g[0]), 'wrong first line', lambda: '%s want %r got %r' % (what, w[0], g[0]))
    norm = [(a, re.sub(r'\s+', ' ', b)) for a, b in w[1]]
    gnorm = [(a, re.sub(r'\s+', ' ', b)) for a, b in g[1]]
    ctx.check(len(norm) == len(gnorm) and all(x[0] == y[0] and same_http_value(x[1], y[1]) for x, y in zip(norm, gnorm)),
              'wrong headers', lambda: '%s want %s got %s' % (what, short(norm), short(gnorm)))
    if full:
        ctx.check(g[2] == w[2], 'record does not hold the body exchanged', lambda: '%s %s' % (what, diff_bytes(w[2], g[2])))
    else:
        hl = len(want) - len(w[2])
        ctx.check(w[2].startswith(g[2]), 'record holds other bytes than were exchanged', lambda: '%s %s' % (what, diff_bytes(w[2], g[2])))
        ctx.check(hl + len(g[2]) >= least, 'record lacks bytes that the client read', what)


def pairs_of(ctx, recs):
    """Split the records into response/request pairs."""
    out = []
    i = 0
    while i < len(recs):
        a = recs[i]
        ctx.check(i + 1 < len(recs), 'record without its partner', lambda: short(a['headers']))
        b = recs[i + 1]
        ta, tb = hget(a['headers'], 'WARC-Type'), hget(b['headers'], 'WARC-Type')
        ctx.check(ta in ('response', 'revisit') and tb == 'request', 'not a response followed by its request', lambda: '%s %s' % (ta, tb))
        ctx.check(hget(b['headers'], 'WARC-Concurrent-To') == hget(a['headers'], 'WARC-Record-ID'), 'request does not refer to its response')
        ctx.check(hget(a['headers'], 'WARC-Target-URI') == hget(b['headers'], 'WARC-Target-URI'), 'pair with different target URIs')
        ctx.check(hget(a['headers'], 'WARC-Date') == hget(b['headers'], 'WARC-Date'), 'pair with different dates')
        out.append((a, b))
        i += 2
    return out


def reqline(block):
    ln = block.split(b'\r\n', 1)[0].decode('latin-1').split(' ')
    return (ln[0], ln[1] if len(ln) > 1 else '')


def match(ctx, pairs, insts, used, prefer=None):
    """Assign each pair to the exchange it records."""
    out = []
    keys = [reqline(b['block']) + (hget(a['headers'], 'WARC-Target-URI'),) for a, b in pairs]
    for n, (a, b) in enumerate(pairs):
        m, t = reqline(b['block'])
        cands = [i for i in insts if i not in used and not i.connect and i.method == m and i.target == t]
        # where fewer were recorded than were made alike, it is those that a fault hit that may be missing
        like = [i for i in cands if i.uri == keys[n][2] and (prefer is None or prefer(i))] or [i for i in cands if prefer is None or prefer(i)]
        few = len(like) - keys[n:].count(keys[n])
        hit = [i for i in like if getattr(i, 'op_fault', False)][:max(0, few)]
        cands = [i for i in cands if i not in hit] or cands
        cands.sort(key=lambda i: (prefer is not None and not prefer(i), not i.heard, i.closed is None, i.closed if i.closed is not None else 0, i.n))
        uri = hget(a['headers'], 'WARC-Target-URI')
        pick = next((i for i in cands if i.uri == uri and i.closed is not None and i.heard), None) or \
            next((i for i in cands if i.uri == uri), None) or (cands[0] if cands else None)
        if pick is None and insts and b['block'].split(b'\r\n')[0] in insts[0].peer.net.lost:
            continue
        ctx.check(pick is not None, 'a record of no exchange', lambda: '%s %s %s' % (m, t, hget(a['headers'], 'WARC-Target-URI')))
        used.append(pick)
        out.append((pick, a, b))
    return out


def out_of_step(i):
    """Was an earlier response of the connection not completely read?"""
    return i.start != i.wire_at


def check_pair(ctx, i, a, b, record_ip=True, noname=False):
    what = 'exchange %d (%s %s):' % (i.n, i.method, i.target)
    for r in (a, b):
        hs = r['headers']
        ctx.check(hget(hs, 'WARC-Target-URI') == i.uri, 'wrong target URI', lambda: '%s want %r got %r' % (what, i.uri, hget(hs, 'WARC-Target-URI')))
        ip = hall(hs, 'WARC-IP-Address')
        want = [i.ip] if record_ip and not noname else []
        if hget(hs, 'WARC-Type') != 'revisit':
            ctx.check(ip == want, 'wrong IP address', lambda: '%s want %r got %r' % (what, want, ip))
            px = hall(hs, 'WARC-Proxy-Host')
            ctx.check(px == ([i.proxy] if i.proxy else []), 'wrong proxy', lambda: '%s want %r got %r' % (what, i.proxy, px))
    same_message(ctx, i.req, b['block'], what + ' request', full=not i.cut)
    if hget(a['headers'], 'WARC-Type') == 'revisit':
        return
    blk = a['block']
    if i.again:
        # the response was read by several attempts, each from where the one before gave up
        return
    if out_of_step(i):
        # what the client took for this response is the unread rest of an earlier one, and what follows
        whole = b''.join(p for p in i.peer.wires)
        if canonical(blk) and b'%' not in blk:
            # it was split into a status line and headers, however little it looks like them
            ctx.check(b''.join(blk.split()) in b''.join(whole.split()), 'record holds bytes that were not received', lambda: '%s %s received %s' % (what, short(blk, 300), short(whole, 2000)))
        return
    if parse_head(i.wire) is None or i.fault == 'garbage':
        n = blk.find(b'\r\n') if b'\r\n' in blk else len(blk)
        ctx.check(i.wire.startswith(blk[:n]) or not canonical(blk), 'record of an odd response holds other bytes',
                  lambda: '%s %s' % (what, diff_bytes(i.wire, blk)))
        return
    if i.fault is None and i.natural and i.complete:
        same_message(ctx, i.wire, blk, what + ' response', full=True)
    elif i.begun and len(i.sent) >= len(i.head):
        got = i.got or b''
        least = len(i.head)
        if i.framing != 'chunk':
            least += len(got)
        same_message(ctx, i.wire, blk, what + ' response', full=False, least=least)
        if i.exact and i.framing != 'chunk' and canonical(i.wire) and not i.fault:
            ctx.check(len(blk) == least, 'record holds more or less than the client read', lambda: '%s %d, read %d' % (what, len(blk), least))
    else:
        w = i.wire
        n = blk.find(b'\r\n') if b'\r\n' in blk else len(blk)
        ctx.check(w.startswith(blk[:n]) or not canonical(w), 'record of a failed exchange holds other bytes', lambda: '%s %s' % (what, diff_bytes(w, blk)))


from vsim import net as _net       # noqa
_net.Inst.natural = False
_net.Inst.got = None
_net.Inst.exact = False
_net.Inst.sent = b''
_net.Inst.plain = b''
