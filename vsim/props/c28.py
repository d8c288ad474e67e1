"""C28: memory use does not grow with the size or number of the records."""
import gc
import io
import tracemalloc
import weakref

from vsim import model, net as simnet
from vsim.cli import run_cli
from vsim.core import Ctx, world
from vsim.disk import SimFS
from vsim.recomp import contain
from vsim.streams import SimInput, LineInput, make_input
from vsim import remote

simnet.install()

PROP = 'C28'
RUNS = {'quick': 320, 'thorough': 3000}
RULE = ('One run: one operation (iterating, reading the content, checking, indexing, extracting, recompressing, writing from a stream, capturing) on a '
        'record of megabytes or on hundreds of records, under a delivery schedule; at every simulated I/O call the memory in use is '
        'compared with what was in use before. Non-trivial: always (the data is many times larger than the bound).')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader', 'warcio.digestverifyingreader', 'warcio.warcwriter',
        'warcio.recordbuilder', 'warcio.capture_http', 'warcio.indexer', 'warcio.checker', 'warcio.extractor', 'warcio.recompressor', 'zlib', 'tempfile.SpooledTemporaryFile',
        'http.client', 'fsspec']
STUB = ['streams (SimInput)', 'disk (SimFS)', 'remote file system', 'sockets and servers (SimNet)', 'stdout, stderr', 'clock', 'entropy']
OPS = ('iter', 'skip', 'content', 'copy', 'write', 'pair', 'buffer', 'index', 'check', 'extract', 'recompress', 'capture')
PROBES = OPS + ('gz', 'plain', 'large', 'many', 'thousands', 'arc', 'digests', 'chunked', 'coded', 'remote', 'length-unknown', 'length-known', 'wrong-container')
ASSUMPTIONS = ['a single line, a single chunk of a chunked body and the expansion of one block of compressed data are held in memory',
               'the caller reads in pieces']

# some operations hold a few pieces of up to a megabyte, or spool half a megabyte
BIG = 2500000
BOUND = 900000
SPOOL = ('copy', 'write', 'pair', 'buffer', 'check', 'recompress', 'capture')
# operations on thousands of tiny records, and how much may be kept of half of them
COUNT = {'iter': 2000, 'skip': 2500, 'copy': 1200, 'write': 1200, 'pair': 800, 'index': 2500, 'check': 1600, 'recompress': 1200}
LEAK = 20000
BIG2 = 5500000
BOUND2 = 3600000


class MemFS(SimFS):
    """A disk whose contents are not counted as memory."""
    def __init__(self, plan, meter):
        SimFS.__init__(self, plan)
        self.meter = meter
        self.temps = []
        meter.fs = self

    def held(self):
        # each reallocation of a growing file leaves some room
        n = 0
        for x in {id(x): x for x in list(self.nodes.values()) + [t() for t in self.temps] if x is not None}.values():
            n += x.data.__sizeof__()
        return n

    def hit(self, op, path):
        self.meter.sample()
        return SimFS.hit(self, op, path)

    def temp(self, mode='w+b', named=False):
        f = SimFS.temp(self, mode, named)
        raw = getattr(f, 'raw', None)
        if raw is not None:
            self.temps.append(weakref.ref(raw.node))
        return f


class Quiet(Ctx):
    def log(self, *items):
        pass


class Meter(object):
    fs = None
    base = 0
    worst = 0
    n = 0
    extra = staticmethod(lambda: 0)
    on = False
    q = None
    series = None
    every = 1

    def now(self):
        return tracemalloc.get_traced_memory()[0] - (self.fs.held() if self.fs else 0) + self.extra()

    def start(self):
        gc.collect()
        self.on = True
        self.worst = 0
        self.base = self.now()

    def sample(self):
        self.n += 1
        if not self.on:
            return
        if self.series is not None:
            # what is held, garbage aside, at about 30 to 60 points of the run
            if self.n % self.every == 0:
                gc.collect()
                self.series.append(self.now())
                if len(self.series) == 64:
                    del self.series[::2]
                    self.every *= 2
            return
        used = self.now() - self.base
        if used > self.worst:
            if used > BOUND2 / 2:
                gc.collect()
                used = self.now() - self.base
            self.worst = max(used, self.worst)


    def growth(self):
        """What is held longer, between the middle and the end of the run."""
        x = self.series
        n = len(x)
        a, b = x[n * 35 // 100:n * 55 // 100], x[n * 8 // 10:]
        if not a or not b:
            return 0
        a.sort()
        b.sort()
        # a compressor that happens to exist at some of the points counts for none of them
        return min(b[0] - a[0], b[len(b) // 2] - a[len(a) // 2], b[-1] - a[-1])


class MeteredInput(LineInput):
    meter = None

    def read(self, n=-1):
        self.meter.sample()
        return LineInput.read(self, n)


class Null(io.RawIOBase):
    def __init__(self, meter):
        self.meter = meter
        self.n = 0

    def writable(self):
        return True

    def write(self, b):
        self.meter.sample()
        self.n += len(b)
        return len(b)

    def tell(self):
        return self.n


def gen(rng):
    op = rng.choice(OPS)
    many = rng.random() < 0.25 and op not in ('extract', 'content')
    t = rng.choice(['resource', 'response', 'response', 'request'])
    p = {'op': op, 'many': int(many), 'gz': rng.randrange(2), 't': t, 'rs': rng.choice([1000, 8192, 16384, 50000]), 'dig': rng.randrange(2),
         'lenk': rng.randrange(2), 'far': int(rng.random() < 0.3), 'arc': int(rng.random() < 0.15), 'whole': int(rng.random() < 0.3),
         'deliv': rng.choice([{'mode': 'full'}, {'mode': 'fix', 'n': rng.choice([2000, 4096, 16383, 70000])}, {'mode': 'rand', 's': rng.randrange(1 << 20), 'hi': 30000}]),
         'exact': rng.choice([0, 1]), 'seek': rng.randrange(2)}
    if op in COUNT and rng.random() < 0.2:
        # thousands of tiny records
        p['count'] = 1
        p['deliv'] = {'mode': 'fix', 'n': 2000}
        return p
    if p['t'] == 'response' and (op == 'content' or rng.random() < 0.3):
        p['enc'] = rng.choice([{'te': {'sizes': [rng.choice([1000, 8000, 16384])]}}, {'ce': 'gzip'}, {'ce': 'deflate'}, {'ce': 'gzip', 'te': {'sizes': [5000]}}])
    return p


def archive(plan, n, k):
    t = plan.get('t') if plan.get('t') in ('resource', 'response', 'request') else 'resource'
    recs = []
    for i in range(k):
        body = {'n': n, 'k': 'bin', 's': 11 + i % 3}
        if plan.get('arc'):
            recs.append({'arc': 0, 'uri': i % 3, 'ip': 1, 'body': body})
            continue
        s = {'t': t, 'nuri': i % 3, 'body': body}
        if t == 'response':
            s['http'] = {'k': 'resp'}
            if isinstance(plan.get('enc'), dict):
                s['enc'] = plan['enc']
        elif t == 'request':
            s['http'] = {'k': 'req'}
        if plan.get('dig'):
            s['bd'] = s['pd'] = 'sha1'
        recs.append(s)
    return {'arc': int(bool(plan.get('arc'))), 'gz': int(bool(plan.get('gz'))), 'level': 1, 'recs': recs}


def run(plan, ctx):
    op = plan.get('op') if plan.get('op') in OPS else 'iter'
    many = bool(plan.get('many')) and op not in ('extract', 'content')
    ctx.probe(op)
    ctx.probe('many' if many else 'large')
    ctx.probe('gz' if plan.get('gz') else 'plain')
    if plan.get('dig'):
        ctx.probe('digests')
    ctx.nontrivial()
    # once on small data: modules, caches
    small = once(plan, ctx, op, 3000, 1)
    if plan.get('count') and op in COUNT:
        ctx.probe('thousands')
        k = COUNT[op]
        tracemalloc.start()
        try:
            grown = once(plan, ctx, op, 20, k, count=True)
        finally:
            tracemalloc.stop()
        ctx.log('done', op, k)
        ctx.check(grown <= LEAK, 'memory use grows with the number of records', lambda: '%s: %d records, more than %d bytes kept of half of them' % (op, k, LEAK))
        return
    spool = op in SPOOL
    bound = BOUND2 if spool else BOUND
    n, k = ((110000, 50) if spool else (4000, 500)) if many else (BIG2 if spool else BIG, 1)
    if op == 'capture':
        bound = 2200000
        n, k = (80000, 40) if many else (3300000, 1)
    tracemalloc.start()
    try:
        big = once(plan, ctx, op, n, k)
    finally:
        tracemalloc.stop()
    ctx.log('done', op, n, k)
    ctx.check(big <= bound, 'memory use grows with the data', lambda: '%s: %d records of %d bytes: more than %d bytes held' % (op, k, n, bound))
    del small


def once(plan, ctx, op, n, k, count=False):
    m = Meter()
    if count:
        m.series = []
    fs = MemFS({'bufsize': 8192}, m)
    # no events: their record would be counted
    quiet = m.q = Quiet(ctx.prop)
    with world(quiet, seed=1, fs=fs) as w:
        try:
            globals()['op_' + op](plan, ctx, quiet, w, fs, m, n, k)
        finally:
            m.on = False
        # a record of the run without keeping it in memory
        ctx.log(op, n, k, m.n, w.clock.elapsed)
        for f in quiet.faults:
            ctx.fault(f, quiet.faults[f])
        ctx.simtime_us += w.clock.elapsed
    return m.growth() if count else m.worst


def source(plan, data, m, clock):
    s = MeteredInput(data, plan.get('deliv') or {}, m.q, clock)
    s.meter = m
    return s


def reader(plan, ctx, w, m, n, k):
    from warcio.archiveiterator import ArchiveIterator
    ar = model.build_archive(archive(plan, n, k))
    if plan.get('arc'):
        ctx.probe('arc')
    size = [len(r.payload) for r in ar.recs]
    ent = [len(r.entity) for r in ar.recs]
    src = source(plan, ar.data, m, w.clock)
    del ar
    m.start()
    return ArchiveIterator(src, check_digests=bool(plan.get('dig'))), size, ent


def drain(ctx, f, rs, want, m, what='payload'):
    got = 0
    while True:
        b = f(rs)
        m.sample()
        if not b:
            break
        got += len(b)
    ctx.check(got == want, 'data missing', lambda: '%s: want %d got %d' % (what, want, got))


def op_iter(plan, ctx, q, w, fs, m, n, k):
    it, size, _ = reader(plan, ctx, w, m, n, k)
    for i, rec in enumerate(it):
        drain(ctx, rec.raw_stream.read, max(1000, int(plan.get('rs') or 1000)), size[i], m)
    ctx.check(i + 1 == k, 'records missing')


def op_skip(plan, ctx, q, w, fs, m, n, k):
    it, size, _ = reader(plan, ctx, w, m, n, k)
    c = 0
    for rec in it:
        c += 1
        if plan.get('lenk'):
            it.get_record_length()
    ctx.check(c == k, 'records missing')


def op_content(plan, ctx, q, w, fs, m, n, k):
    it, _, ent = reader(plan, ctx, w, m, n, k)
    e = plan.get('enc') or {}
    if 'te' in e:
        ctx.probe('chunked')
    if 'ce' in e:
        ctx.probe('coded')
    for i, rec in enumerate(it):
        drain(ctx, rec.content_stream().read, max(1000, int(plan.get('rs') or 1000)), ent[i], m, 'content')


def op_copy(plan, ctx, q, w, fs, m, n, k):
    """Records of an archive are written to another one."""
    from warcio.warcwriter import WARCWriter
    it, size, _ = reader(dict(plan, arc=0), ctx, w, m, n, k)
    out = Null(m)
    wr = WARCWriter(out, gzip=bool(plan.get('gz')))
    for rec in it:
        if plan.get('exact'):
            # the length must be determined anew
            rec.length = None
        wr.write_record(rec)
    ctx.check(out.n >= n * k, 'data missing')


def make(plan, ctx, wr, w, m, n, i, data, t):
    from warcio.statusandheaders import StatusAndHeaders
    src = source(plan, data, m, w.clock)
    if not plan.get('seek'):
        src = NoSeek(src)
    kw = {'length': n} if plan.get('lenk') else {}
    ctx.probe('length-known' if kw else 'length-unknown')
    if t != 'resource':
        kw['http_headers'] = StatusAndHeaders('200 OK' if t == 'response' else 'POST / HTTP/1.1', [('X-A', 'b')], 'HTTP/1.1' if t == 'response' else '')
    return wr.create_warc_record('http://a.test/%d' % (i % 3), t, payload=src, **kw)


class NoSeek(object):
    def __init__(self, f):
        self.f = f

    def read(self, n=-1):
        return self.f.read(n)

    def readline(self, n=-1):
        return self.f.readline(n)


def op_write(plan, ctx, q, w, fs, m, n, k, pair=False, buf=False):
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    data = model.content({'n': n, 'k': 'bin', 's': 4})
    out = Null(m)
    if buf:
        wr = BufferWARCWriter(gzip=bool(plan.get('gz')))
        out = None
    else:
        wr = WARCWriter(out, gzip=bool(plan.get('gz')))
    t = plan.get('t') if plan.get('t') in ('resource', 'response', 'request') else 'resource'
    m.start()
    for i in range(k):
        if pair:
            a = make(plan, ctx, wr, w, m, len(data), i, data, 'request')
            b = make(plan, ctx, wr, w, m, len(data), i, data, 'response')
            wr.write_request_response_pair(a, b)
        else:
            wr.write_record(make(plan, ctx, wr, w, m, len(data), i, data, t))
    if out is not None:
        ctx.check(out.n >= n * k, 'data missing')
    elif k == 1:
        # reading it back in pieces
        s = wr.get_stream()
        got = 0
        while True:
            b = s.read(10000)
            m.sample()
            if not b:
                break
            got += len(b)
        ctx.check(got >= n, 'data missing')


def op_pair(plan, ctx, q, w, fs, m, n, k):
    op_write(plan, ctx, q, w, fs, m, n // 2, k, pair=True)


def op_buffer(plan, ctx, q, w, fs, m, n, k):
    op_write(plan, ctx, q, w, fs, m, n, k, buf=True)


def stored(plan, ctx, w, fs, m, n, k, gz=None, whole=False):
    spec = archive(plan, n, k)
    if plan.get('arc'):
        ctx.probe('arc')
    if whole:
        ctx.probe('wrong-container')
        ar, data, _ = contain(spec, {'k': 'whole'})
    else:
        ar = model.build_archive(spec)
        data = ar.data
    if plan.get('far'):
        ctx.probe('remote')
        cls = type('Far', (MeteredInput,), {'meter': m})
        d = dict(plan.get('deliv') or {}, seek=1)
        name = remote.serve(w, 'in.warc', lambda data=data: cls(data, d, m.q, w.clock))
    else:
        name = '/simdisk/in.warc'
        fs.put(name, data)
    off = ar.recs[0].offset
    want = len(ar.recs[0].payload)
    del ar, data
    return name, off, want


def cli(ctx, m, args):
    out = Null(m)
    r = run_cli(args, stdout_raw=out)
    ctx.check(not r.exc and not r.failed, 'the command fails', lambda: r.exc)
    return out.n


def op_index(plan, ctx, q, w, fs, m, n, k):
    name, off, _ = stored(plan, ctx, w, fs, m, n, k)
    m.start()
    cli(ctx, m, ['index', name, '-f', 'offset,length,warc-type,http:status'])


def op_check(plan, ctx, q, w, fs, m, n, k):
    name, off, _ = stored(plan, ctx, w, fs, m, n, k)
    m.start()
    cli(ctx, m, ['check', name] + (['-v'] if plan.get('lenk') else []))


def op_extract(plan, ctx, q, w, fs, m, n, k):
    name, off, want = stored(plan, ctx, w, fs, m, n, k)
    m.start()
    got = cli(ctx, m, ['extract', name, str(off)] + (['--payload'] if plan.get('lenk') else []))
    ctx.check(got >= (n if plan.get('lenk') else want), 'data missing')


def op_recompress(plan, ctx, q, w, fs, m, n, k):
    name, off, want = stored(plan, ctx, w, fs, m, n, k, whole=bool(plan.get('whole')))
    m.start()
    cli(ctx, m, ['recompress', name, '/simdisk/out.warc.gz'])
    ctx.check(fs.size('/simdisk/out.warc.gz') >= n * k * 9 // 10, 'data missing')


def op_capture(plan, ctx, q, w, fs, m, n, k):
    import http.client
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    seg = int((plan.get('deliv') or {}).get('n') or 16000)
    net = simnet.Net({'exs': [{'resp': {'st': '200 OK', 'fr': 'chunk' if plan.get('exact') else 'len', 'body': {'n': n, 'k': 'bin', 's': 3},
                                        'lay': {'sizes': [5000]}, 'seg': [max(1000, seg)]}}]}, q, w)

    def waiting():
        # what the server has sent and the client not received yet is no memory of the client
        xs = [x for p in net.peers for _, x in p.out]
        for p in net.peers:
            xs += [p.inbuf, p.raw] + list(p.wires)
        for i in net.insts:
            xs += [i.wire, i.head, i.entity, i.req, getattr(i, 'sent', b''), getattr(i, 'plain', b'')]
        return -sum({id(x): len(x) for x in xs}.values())
    out = Null(m)
    post = model.content({'n': n, 'k': 'bin', 's': 4}) if plan.get('lenk') else b''
    rs = max(1000, int(plan.get('rs') or 1000))
    with capture_http(WARCWriter(out, gzip=bool(plan.get('gz')))):
        c = http.client.HTTPConnection('a.test', 80)
        m.extra = waiting
        m.start()
        for i in range(k):
            body = None
            if plan.get('lenk'):
                body = source(plan, post, Meter(), w.clock)
            c.request('POST', '/e0', body=body, headers={'Content-Length': str(n)} if body else {})
            del body
            r = c.getresponse()
            drain(ctx, r.read, rs, n, m)
            r = None
        c.close()
    ctx.check(out.n >= n * k, 'data missing')
