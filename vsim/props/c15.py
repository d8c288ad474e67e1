"""C15: capture files are appended to or created, contexts end cleanly."""
import gc
import random

from vsim import model, web, net as simnet
from vsim.core import world, short, SimBase, SimCrash
from vsim.disk import SimFS

simnet.install()

PROP = 'C15'
RUNS = {'quick': 9000, 'thorough': 100000}
RULE = ('One run: capture contexts writing to files (new, empty, holding records or junk) or to a writer of the caller are entered and left, '
        'nested and in any order, normally, by exceptions, by being dropped, with a filter that raises, with a disk that fails to open, write or '
        'close or that is full, with a crash of the process, while clients do exchanges before, inside and after them. Non-trivial: more than '
        'one context, a disk or network fault, an exception or a crash.')
REAL = ['warcio.capture_http', 'warcio.warcwriter', 'warcio.recordbuilder', 'warcio.bufferedreaders', 'http.client', 'urllib', 'urllib3', 'requests', 'io buffers',
        'tempfile.SpooledTemporaryFile']
STUB = ['disk (SimFS)', 'temporary files (SimFS)', 'sockets (SimNet)', 'servers (scripted)', 'clock', 'entropy', 'process crash']
PROBES = ('append', 'create', 'refused', 'existing-records', 'existing-junk', 'own-writer', 'nested', 'left-exception', 'left-dropped', 'left-out-of-order',
          'enter-failed', 'body-raised', 'filter-raised', 'after-context', 'enclosing-continues', 'must', 'may', 'crashed', 'faulty-file', 'same-file',
          'user-record', 'closed-outside', 'big')
ASSUMPTIONS = ['after a write to a file failed, nothing is claimed about what follows the records already in it',
               'connections made in a context keep being recorded after it as long as its output is open',
               'contexts that append to the same file are left before the process ends and used by one thread']
FILES = ['/simdisk/f0.warc', '/simdisk/f1.warc', '/simdisk/f2.warc']
HOW = ['', '', '', 'ValueError', 'KeyboardInterrupt', 'GeneratorExit', 'StopIteration', 'OSError', 'drop']


def gen(rng):
    plan = {'exs': [], 'conns': [], 'files': []}
    nex = {'faults': rng.choice([0, 0, 0, 0.3]), 'odd': 0, 'big': rng.choice([0, 0, 0.05])}
    clients = ['hc', 'hc', 'hct', 'u3', 'req', 'urllib']
    seqs = [web.gen_conn(rng, plan, nex, clients=clients) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = web.merge(rng, seqs, rng.choice([0, 0.5, 0.9]))
    for n in range(3):
        r = rng.random()
        f = {'gz': rng.randrange(2), 'own': int(rng.random() < 0.15), 'dflt': int(rng.random() < 0.4)}
        if r < 0.35:
            f['prior'] = ['absent']
        elif r < 0.45:
            f['prior'] = ['bytes', {'n': 0, 'k': 'bin', 's': 0}]
        elif r < 0.75:
            f['prior'] = ['recs', rng.randrange(1000), rng.choice([1, 2, 3])]
        else:
            f['prior'] = ['bytes', {'n': rng.choice([1, 7, 100, 8191, 8192, 8193, 20000]), 'k': rng.choice(['bin', 'warcish', 'gzish', 'nl']), 's': rng.randrange(1 << 20)}]
        plan['files'].append(f)
    n = rng.choice([1, 1, 2, 2, 3])
    same = rng.random() < 0.15
    deep = rng.random() < 0.15
    if deep:
        n = rng.choice([3, 3, 4])
    if rng.random() < 0.04:
        # a tower of contexts of which only the outermost is left over
        n = 0
        k = rng.choice([3, 4, 4, 5])
        for f in plan['files']:
            f['own'] = int(rng.random() < 0.5)
        c = rng.randint(0, len(ops) // 2)
        down = [['leave', 1, rng.choice(HOW)] for _ in range(k - 2)] + [['leave', 0, rng.choice(HOW)]]
        ops = [['enter', rng.randrange(3), {}] for _ in range(k)] + ops[:c] + down + ops[c:] + [['leave', 0, 'normal']]
    for _ in range(n):
        a = rng.choice([0, 0, rng.randint(0, len(ops))])
        b = rng.choice([len(ops), rng.randint(a, len(ops))])
        if deep:
            b = rng.randint(a + (len(ops) - a) // 2, len(ops))
        e = {}
        if rng.random() < 0.25:
            e['x'] = 1
        if rng.random() < 0.1:
            e['bad'] = rng.choice([1, 2, 3])
        ops.insert(b, ['leave', rng.choice([0, 1, 1, 2] if deep else [0, 0, 0, 0, 1, 2]), rng.choice(HOW)])
        ops.insert(a, ['enter', 0 if same else rng.randrange(3), e])
        if rng.random() < 0.15:
            ops.insert(rng.randint(a, len(ops)), ['rec', rng.choice([0, 1, 100, 20000])])
        if rng.random() < 0.06:
            ops.insert(rng.randint(a, len(ops)), ['close', 0])
    plan['ops'] = ops
    web.gen_net(rng, plan)
    if not nex['faults']:
        plan.pop('cf', None)
        plan.pop('sf', None)
    fs = {'bufsize': rng.choice([1, 16, 8192, 8192, 8192])}
    r = rng.random()
    if r < 0.35:
        fs['faults'] = []
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['open', 'write', 'write', 'write', 'close', 'close', 'temp', 'twrite'])
            f = {'op': 'write' if op == 'twrite' else op, 'n': rng.choice([0, 0, 1, 2, 3, rng.randrange(8)]), 'kind': rng.choice(['eio', 'nospace']),
                 'times': rng.choice([1, 1, 2, 0]), 'file': rng.choice(['f0', 'f1', 'f2', '.warc'])}
            if op in ('temp', 'twrite'):
                f['file'] = '<temp>'
            if op == 'write':
                f['part'] = rng.choice([0, 0, 1, 10, 100])
                if rng.random() < 0.25:
                    f.update(kind='short', part=rng.choice([1, 5, 50]), times=rng.choice([1, 3, 0]))
            fs['faults'].append(f)
    elif r < 0.45:
        fs['crash'] = {'op': rng.choice(['write', 'write', 'write', 'open', 'close']), 'n': rng.choice([0, 1, 2, 3, rng.randrange(12)]), 'file': '.warc',
                       'part': rng.choice([0, 1, 10, 1000, 10**6])}
    plan['fs'] = fs
    for e in plan['exs']:
        if rng.random() < 0.04:
            e['f'] = rng.choice([1, 3, 4])
    return plan


class FilterError(Exception):
    pass


class BadVersion(object):
    def __str__(self):
        raise ValueError('no version')


class Cap(object):
    def __init__(self, n, fl, path, own):
        self.n, self.fl, self.path, self.own = n, fl, path, own
        self.cm = self.writer = None
        self.left = None
        self.out_closed = None      # when the output was closed
        self.raws = []


class Fl(object):
    """What is known about one output file."""
    def __init__(self, path, gz, own):
        self.path, self.gz, self.own = path, gz, own
        self.prior = None
        self.last = b''
        self.good = None        # content before the first failure on it
        self.nrec = 0           # records of the user before the failure
        self.good_tick = None
        self.at_good = 0


def run(plan, ctx):
    if 'drop' in repr(plan):
        gc.collect()        # what earlier runs left
    fs = SimFS(dict(plan.get('fs') or {}))
    with world(ctx, seed=1, fs=fs) as w:
        s = Sim(plan, ctx, w, fs)
        try:
            s.run()
        except SimCrash:
            s.crashed = True
            ctx.probe('crashed')
        finally:
            s.reset()
        s.verify()


class Sim(object):
    def __init__(self, plan, ctx, w, fs):
        from warcio.capture_http import capture_http
        from warcio.warcwriter import WARCWriter
        self.capture_http, self.WARCWriter = capture_http, WARCWriter
        self.plan, self.ctx, self.w, self.fs = plan, ctx, w, fs
        self.crashed = False
        self.net = simnet.Net(plan, ctx, w)
        self.net.on_request = self.on_request
        self.caps, self.stack = [], []
        self.tick = 0
        self.client = None
        self.files = []
        specs = [f for f in plan.get('files') or [] if isinstance(f, dict)] or [{}]
        for n, f in enumerate(specs[:3]):
            x = Fl(FILES[n], bool(f.get('gz')), bool(f.get('own')))
            x.dflt = bool(f.get('dflt'))
            p = f.get('prior') or ['absent']
            if p[0] == 'recs':
                x.prior = self.records(int(p[1]), int(p[2]), x.gz)
                ctx.probe('existing-records')
            elif p[0] == 'bytes':
                x.prior = model.content(p[1])
                if x.prior:
                    ctx.probe('existing-junk')
            if x.prior is not None:
                fs.put(x.path, x.prior)
            x.last = x.prior or b''
            self.files.append(x)
        self.clients = []
        for n, c in enumerate(x for x in plan.get('conns') or [] if isinstance(x, dict)):
            cl = web.Client(ctx, self.net, dict(c, i=n), self.net.exs)
            cl.caps, cl.made = [], None
            self.clients.append(cl)
        fs.enabled = True

    def records(self, seed, n, gz):
        ar = model.build_archive(model.gen_archive(random.Random(seed), arc=False, gz=gz, nrec=n, big=0, edge=0, styles=('plain',)))
        return ar.data

    # ---------------- ground truth
    def top(self):
        live = [c for c in self.stack if c.left is None]
        return live[-1] if live else None

    def on_request(self, i):
        i.cap = self.top()
        cl = i.client = self.client
        i.made = cl.made if cl.kind in ('hc', 'hct') else None
        i.maybe = list(cl.caps)
        i.op_end = None
        i.op_fault = False
        i.sent_tick = self.tick

    def may(self, i, c):
        """May the context c record the exchange i?"""
        if c.out_closed is not None and i.op_end is not None and i.op_end > c.out_closed:
            return False
        if i.cap is not None:
            return i.cap is c
        if i.made is c or c in i.maybe and i.client.kind not in ('hc', 'hct'):
            return not (c.out_closed is not None and c.out_closed <= i.sent_tick)
        return False

    # ---------------- the run
    def run(self):
        for o in self.plan.get('ops') or []:
            if not isinstance(o, list) or len(o) < 2:
                continue
            self.tick += 1
            self.before = {f.path: f.last for f in self.files}
            self.nrec0 = {f.path: f.nrec for f in self.files}
            self.fired0 = self.fired()
            if o[0] == 'enter':
                self.enter(int(o[1]) % len(self.files), o[2] if len(o) > 2 and isinstance(o[2], dict) else {})
            elif o[0] == 'leave':
                self.leave(int(o[1]), str(o[2]) if len(o) > 2 else '')
            elif o[0] == 'rec':
                self.rec(int(o[1]))
            elif o[0] == 'close':
                self.close()
            elif isinstance(o[0], int) and o[0] < len(self.clients):
                self.op(o)
            self.after()
        while self.top() is not None:
            self.tick += 1
            self.before = {f.path: f.last for f in self.files}
            self.nrec0 = {f.path: f.nrec for f in self.files}
            self.fired0 = self.fired()
            self.leave(0, '')
            self.after()

    def fired(self):
        """Failures of the disk so far (a short write is none)."""
        return sum(v for k, v in self.ctx.faults.items() if k.split('-')[0] in ('open', 'write', 'close', 'temp') and not k.endswith('-short'))

    def after(self):
        """After every step: nothing that was in a file changed; note which files failed."""
        self.alive()
        failed = self.fired() != self.fired0
        for f in self.files:
            if not self.fs.exists(f.path):
                self.ctx.check(not f.last and f.prior is None, 'a file was removed', f.path)
                continue
            d = self.fs.get(f.path)
            self.ctx.check(d.startswith(f.last), 'bytes of a file changed', lambda: '%s %d bytes before, %d after' % (f.path, len(f.last), len(d)))
            if failed and f.good is None and self.hit(f):
                f.good, f.good_tick, f.at_good = f.last, self.tick, self.nrec0[f.path]
            f.last = d

    def alive(self):
        # a crash inside a finalizer does not get through as an exception
        if self.fs.dead:
            raise SimCrash()

    def hit(self, f):
        return any(x.get('file', '') in f.path and x.get('kind') != 'short' for x in self.fs.faults)

    def op(self, o):
        cl = self.clients[o[0]]
        self.client = cl
        top = self.top()
        if cl.conn is None:
            cl.made = top
        if top is not None and top not in cl.caps:
            cl.caps.append(top)
        cl.do(o[1:])
        self.alive()
        failed = self.fired() != self.fired0
        raised = cl.raised_in
        if raised is not None:
            self.ctx.check('FilterError' in raised or failed, 'a client got an error of the recorder', raised)
        if not failed and cl.log and len(cl.log[-1]) > 2 and cl.log[-1][1] == 'raised' and 'closed file' in str(cl.log[-1][-1]):
            self.ctx.check(self.userclosed(), 'a client got an error of the recorder', lambda: short(cl.log[-1]))
        for i in self.net.insts:
            if i.op_end is None and i.closed is not None:
                i.op_end = self.tick
                i.op_fault = failed or i.op_fault
            elif failed and i.op_end is None:
                i.op_fault = True
        if top is None:
            self.ctx.probe('after-context' if self.caps else 'may')
        self.client = None

    def userclosed(self):
        return any(c.userclosed for c in self.caps)

    def filter(self, request, response, recorder):
        t = web.reqline((request.http_headers.protocol + ' ' + request.http_headers.statusline).encode('latin-1', 'replace'))[1]
        f = self.filt(t)
        if f == 3:
            self.ctx.probe('filter-raised')
            raise FilterError('no')
        if f == 4:
            raise OSError(5, 'from the filter')
        return (None, None) if f == 1 else (request, response)

    def filt(self, target):
        k = target[target.index('/e') + 2:] if '/e' in target else ''
        d = ''.join(simnet._digits(k))
        exs = self.plan.get('exs') or []
        if not d or int(d) >= len(exs):
            return 0
        return exs[int(d)].get('f', 0)

    def enter(self, k, e):
        ctx, fs, f = self.ctx, self.fs, self.files[k]
        c = Cap(len(self.caps), f, f.path, f.own and not e.get('x'))
        c.userclosed = False
        if any(x.fl is f and x.left is None and x.excl for x in self.caps):
            return
        outer = self.top()
        c.excl = bool(e.get('x'))
        exists = fs.exists(f.path)
        kw = {} if f.gz and f.dflt else {'gzip': f.gz}
        raws = len(fs.open_raw)
        ctx.log('enter', c.n, f.path, c.own, sorted(e))
        arg = f.path
        if c.own:
            try:
                c.file = open(f.path, 'ab')
            except OSError:
                return
            arg = self.WARCWriter(c.file, **kw)
            kw = {}
        else:
            if e.get('x'):
                kw['append'] = False
            b = e.get('bad')
            if b == 1:
                kw['filebuf'] = None
            elif b == 2:
                kw['warc_version'] = BadVersion()
            elif b == 3:
                kw['warc_version'] = '1.1'
        flt = self.filter if any(x.get('f') for x in self.plan.get('exs') or [] if isinstance(x, dict)) else None
        cm = self.capture_http(arg, flt, **kw)
        try:
            c.writer = cm.__enter__()
        except SimBase:
            raise
        except BaseException as x:
            self.alive()
            ctx.log('enter failed', type(x).__name__)
            ctx.probe('enter-failed')
            if e.get('x') and exists:
                ctx.probe('refused')
            ok = (e.get('x') and exists and isinstance(x, FileExistsError)) or (self.fired() != self.fired0 and isinstance(x, OSError)) or \
                ('filebuf' in kw and isinstance(x, TypeError)) or type(kw.get('warc_version')) is BadVersion and isinstance(x, ValueError)
            ctx.check(ok, 'a context could not be entered', lambda: repr(x))
            ctx.check(not [r for r in fs.open_raw[raws:] if not r.closed], 'a file is left open by a context that was not entered', f.path)
            return
        ctx.check(not (not c.own and e.get('x') and exists), 'an existing file was not refused', f.path)
        if not c.own:
            ctx.probe('append' if exists else 'create')
            if any(x.fl is f and x.left is None for x in self.caps):
                ctx.probe('same-file')
        else:
            ctx.probe('own-writer')
        c.raws = fs.open_raw[raws:]
        c.cm = cm
        if outer is not None:
            ctx.probe('nested')
        self.caps.append(c)
        self.stack.append(c)
        if len(self.caps) > 1:
            ctx.nontrivial()

    def leave(self, k, how):
        ctx, fs = self.ctx, self.fs
        live = [c for c in self.stack if c.left is None]
        if not live:
            return
        c = live[-1 - k % len(live)]
        if c is not live[-1]:
            ctx.probe('left-out-of-order')
        ctx.log('leave', c.n, how)
        c.left = self.tick
        cm, c.cm = c.cm, None
        kinds = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit, 'StopIteration': StopIteration, 'OSError': OSError}
        err = None
        if how == 'drop':
            ctx.probe('left-dropped')
            ctx.nontrivial()
            del cm
            gc.collect()
        else:
            exc = kinds[how]('of the body') if how in kinds else None
            if exc is not None:
                ctx.probe('left-exception')
                ctx.nontrivial()
            try:
                if exc is None:
                    r = cm.__exit__(None, None, None)
                else:
                    r = cm.__exit__(type(exc), exc, None)
                    ctx.check(not r, 'the context swallows the exception of its body', how)
            except SimBase:
                raise
            except BaseException as x:
                err = x
            self.alive()
            if err is not None:
                ctx.probe('body-raised')
                ok = err is exc or self.fired() != self.fired0 and isinstance(err, OSError)
                ctx.check(ok or c.userclosed and isinstance(err, ValueError), 'leaving a context raises', lambda: repr(err))
            cm = None
        self.alive()
        if not c.own:
            if c.out_closed is None:
                c.out_closed = self.tick
            ctx.check(all(r.closed for r in c.raws), 'the file is not closed when the context was left', lambda: '%s, left with %r' % (c.path, how))
        t = self.top()
        if t is not None:
            ctx.probe('enclosing-continues')

    def rec(self, n):
        """The caller writes a record of its own."""
        c = self.top()
        if c is None:
            return
        self.ctx.probe('user-record')
        wr = c.writer
        try:
            import io
            wr.write_record(wr.create_warc_record('urn:user', 'resource', payload=io.BytesIO(b'u' * n), length=n, warc_content_type='text/plain'))
        except (OSError, ValueError) as e:
            self.alive()
            self.ctx.check(self.fired() != self.fired0 or c.userclosed, 'writing a record in a context raises', lambda: repr(e))
            return
        if self.fired() == self.fired0:
            c.fl.nrec += 1

    def close(self):
        """The caller closes the output itself."""
        c = self.top()
        if c is None or c.userclosed or not hasattr(c.writer, 'out'):
            return
        self.ctx.probe('closed-outside')
        c.userclosed = True
        c.out_closed = self.tick
        try:
            c.writer.out.close()
        except OSError:
            self.ctx.check(self.fired() != self.fired0, 'closing the output raises')

    def reset(self):
        """Leave what a crash left behind, without effect on the disk."""
        self.fs.dead = True
        for c in self.caps:
            if c.cm is not None:
                try:
                    c.cm.__exit__(None, None, None)
                except BaseException:
                    pass

    # ---------------- afterwards
    def verify(self):
        ctx, net = self.ctx, self.net
        used, recorded = [], {}
        ids = {}
        for f in self.files:
            if self.crashed:
                # what was complete before the step in which the process crashed
                d = self.fs.get(f.path) if self.fs.exists(f.path) else b''
                ctx.check(d.startswith(f.last), 'bytes of a file changed in a crash', f.path)
                if f.good is None:
                    f.good, f.good_tick, f.at_good = f.last, self.tick, self.nrec0[f.path] if hasattr(self, 'nrec0') else 0
            data = f.last if f.good is None else f.good
            n = f.nrec if f.good is None else f.at_good
            if f.good is not None:
                ctx.probe('faulty-file')
            tail = data[len(f.prior or b''):]
            caps = [c for c in self.caps if c.fl is f]
            try:
                recs = model.parse_warc_file(tail, f.gz)
            except model.ParseError as e:
                ctx.violate('a file holds malformed records', '%s %s' % (f.path, e))
            for x in recs:
                d = model.hget(x['headers'], 'WARC-Record-ID')
                ctx.check(d not in ids, 'record id used twice', d)
                ids[d] = 1
            own = [x for x in recs if model.hget(x['headers'], 'WARC-Target-URI') == 'urn:user']
            ctx.check(len(own) == n, 'a record written by the caller is not in the file', lambda: '%s has %d of %d' % (f.path, len(own), n))
            recs = [x for x in recs if x not in own]
            pairs = web.pairs_of(ctx, recs)
            got = web.match(ctx, pairs, net.insts, used, lambda i: any(self.may(i, c) for c in caps))
            pos = []
            for i, a, b in got:
                ctx.check(any(self.may(i, c) for c in caps), 'recorded by the wrong context',
                          lambda: '%s %s in %s, want context %s' % (i.method, i.uri, f.path, i.cap and i.cap.n))
                if not i.op_fault:
                    web.check_pair(ctx, i, a, b, True, net.noname)
                ctx.check(self.filt(i.target) == 0, 'exchange recorded that the filter refused', i.target)
                recorded[id(i)] = f
                if i.closed is not None and not i.again:
                    pos.append(i.closed)
                if len(a['block']) > 16384:
                    ctx.probe('big')
            ctx.check(pos == sorted(pos), 'pairs not in the order of completion', f.path)
        for i in net.insts:
            if i.connect or not hasattr(i, 'sent_tick'):
                continue
            c = i.cap
            must = (c is not None and i.complete and i.fault is None and i.closed is not None and i.begun and i.op_end is not None and not i.op_fault
                    and not i.peer.fin_sent_to and not i.again and not web.out_of_step(i) and self.filt(i.target) == 0
                    and (c.left is None or i.op_end < c.left) and (c.out_closed is None or i.op_end < c.out_closed)
                    and (c.fl.good is None or i.op_end < c.fl.good_tick))
            ctx.probe('must' if must else 'may')
            if must:
                ctx.check(id(i) in recorded, 'exchange not recorded', lambda: '%s %s of context %d' % (i.method, i.uri, c.n))
