"""C14: Concurrent captures do not interfere."""
import gc

from vsim import model, web, net as simnet
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.threads import Sched

simnet.install()

PROP = 'C14'
RUNS = {'quick': 8000, 'thorough': 40000}
RULE = ('One run: two to four threads under a simulated scheduler, each with its own clients and its own, a shared or no capture context, some '
        'connections being handed from thread to thread; the plan decides every switch between threads, also between any two source lines '
        '(in some runs: bytecodes) of the capture and the writer. Non-trivial: at least one preemption or garbage collection.')
REAL = ['warcio.capture_http', 'warcio.warcwriter', 'warcio.recordbuilder', 'http.client', 'urllib', 'urllib3', 'requests', 'threading.local']
STUB = ['thread scheduling (baton)', 'locks (SimLock, SimRLock)', 'sockets (SimNet)', 'servers (scripted)', 'disk (SimFS)', 'clock', 'entropy', 'time of garbage collection']
PROBES = ('shared-writer', 'own-writer', 'no-context', 'handed-over', 'must', 'may', 'lock-contended', 'gc', 'leaked', 'fine', 'get-contents', 'user-records', 'file', 'nested',
          'used-after', 'filter')
ASSUMPTIONS = ['one connection is not used by two threads at the same moment (http.client does not support it)',
               'a connection of a context used by a thread without one belongs to the context it was made in',
               'an output is written through one writer']

_frozen = [False]


def hand_over(rng, plan, nex):
    """One thread leaves its context while another finishes the exchanges of the context."""
    plan['exs'], plan['conns'] = [], []
    threads = [[], []] + [[] for _ in range(rng.choice([0, 0, 1]))]
    for k in range(rng.choice([1, 2])):
        ops = web.gen_conn(rng, plan, nex, clients=['hc', 'hc', 'hct'])
        cut = rng.choice([n for n, o in enumerate(ops) if o[0] == 'resp'] or [0]) + rng.choice([0, 1])
        for n, op in enumerate(ops):
            threads[0 if n < cut else 1].append([k, n] + op)
    late = [o for o in threads[1] if isinstance(o[0], int)]
    o = rng.choice(late) if late else [0, 0]
    threads[0] = [['enter', 0]] + threads[0] + [['exit', o[0], o[1]]]
    if rng.random() < 0.3:
        threads[1] = [['enter', rng.randrange(2)]] + threads[1] + [['exit']]
    plan['threads'] = threads
    plan['writers'] = [rng.choice(['file', 'file', 'out', 'default']), 'file']
    web.gen_net(rng, plan)
    if not nex['faults']:
        plan.pop('cf', None)
        plan.pop('sf', None)
    if rng.random() < 0.7:
        plan['seams'] = 2
        plan['sw'] = [[rng.choice([1, 1, 2, 3, 5, 10]), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40]))]


def gen(rng):
    plan = {'exs': [], 'conns': [], 'writers': [], 'gz': rng.randrange(2)}
    nt = rng.choice([2, 2, 2, 3, 4])
    nw = rng.choice([1, 1, 2, 3])
    plan['writers'] = [rng.choice(['buffer', 'buffer', 'out', 'out', 'default', 'file']) for _ in range(nw)]
    nex = {'faults': rng.choice([0, 0, 0.15]), 'odd': 0, 'big': 0}
    threads = [[] for _ in range(nt)]
    seqs = []
    for t in range(nt):
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = len(plan['conns'])
            ops = web.gen_conn(rng, plan, nex, clients=['hc', 'hc', 'hc', 'hct', 'u3', 'u3', 'req', 'urllib'])
            if rng.random() < 0.15:
                # a response that is not closed
                if plan['conns'][k]['c'] in ('hc', 'hct'):
                    while ops and ops[-1][0] != 'resp':
                        ops.pop()
                    if ops and rng.random() < 0.7:
                        plan['exs'][[o for o in ops if o[0] == 'req'][-1][1]]['resp'].update({'fr': 'close', 'st': '200 OK'})
                        ops.append(['read', rng.choice([1, 10, 100])])
                ops.append(['leak', rng.randrange(2)])
            hand = plan['conns'][k]['c'] in ('hc', 'hct') and rng.random() < 0.3
            where, seq = t, []
            for n, op in enumerate(ops):
                if hand and rng.random() < 0.4:
                    where = rng.randrange(nt)
                seq.append([where, k, n] + op)
            seqs.append(seq)
    # in one order, so that the operations of connections never wait for each other in a circle
    while any(seqs):
        s = rng.choice([x for x in seqs if x])
        o = s.pop(0)
        threads[o[0]].append(o[1:])
    users = rng.random() < 0.25
    for t in range(nt):
        ops = threads[t]
        r = rng.random()
        if r < 0.75:
            a = rng.choice([0, 0, rng.randint(0, len(ops))])
            b = rng.choice([len(ops), len(ops), rng.randint(a, len(ops))])
            w = rng.randrange(nw)
            ops.insert(b, ['exit'])
            others = [o for x in threads for o in x if isinstance(o[0], int)]
            if others and rng.random() < 0.3:
                # leaves while an operation of a connection, maybe of another thread, is under way
                o = rng.choice(others)
                ops[b] = ['exit', o[0], o[1]]
            if rng.random() < 0.2:
                c = rng.randint(a, b)
                d = rng.randint(c, b)
                ops.insert(d, ['exit'])
                ops.insert(c, ['enter', rng.randrange(nw)])
            ops.insert(a, ['enter', w])
        if rng.random() < 0.15:
            ops.insert(rng.randint(0, len(ops)), ['contents', rng.randrange(nw)])
        if users:
            for _ in range(rng.choice([0, 1, 1, 3])):
                ops.insert(rng.randint(0, len(ops)), ['user', rng.randrange(nw), rng.randrange(4)])
    plan['threads'] = threads
    web.gen_net(rng, plan)
    if not nex['faults']:
        plan.pop('cf', None)
        plan.pop('sf', None)
    top = rng.choice([3, 30, 300, 1000])
    plan['sw'] = [[rng.randint(1, max(1, int(top ** rng.random()))), rng.randrange(4)] for _ in range(rng.choice([0, 1, 2, 3, 8, 30, 200]))]
    if plan['sw'] and rng.random() < 0.5:
        plan['sw'][0][0] = rng.randint(1, 800)
    plan['pick'] = [rng.randrange(4) for _ in range(rng.choice([1, 3, 7]))]
    if rng.random() < 0.4:
        # switches only at locks, writes and network operations
        plan['seams'] = rng.choice([1, 2, 2])
        plan['sw'] = [[rng.choice([1, 1, 2, 3, 5, 10]), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40]))]
    if rng.random() < 0.4:
        w = rng.choice(['out', 'out', 'buffer'])
        plan['writers'] = [w]
    leaks = any(o[2] == 'leak' for ops in threads for o in ops if isinstance(o[0], int))
    if leaks and rng.random() < 0.7:
        plan['gcw'] = sorted(set(rng.randint(1, 40) for _ in range(rng.choice([1, 3, 10]))))
        plan['writers'] = ['out']
    if rng.random() < 0.08:
        hand_over(rng, plan, nex)
    plan['bufsize'] = rng.choice([8192, 8192, 100, 16])
    plan['fine'] = int(rng.random() < 0.2)
    if rng.random() < 0.25:
        plan['gc'] = sorted(rng.randint(1, 1500) for _ in range(rng.choice([1, 3, 20])))
    plan['filt'] = int(rng.random() < 0.3)
    return plan


class Out(object):
    """An output file written by several threads."""
    def __init__(self, w):
        self.w = w
        self.parts = []

    def write(self, b):
        self.w.sched.point('write')
        self.parts.append(bytes(b))
        self.w.sched.point('written')
        return len(b)

    def flush(self):
        pass

    def tell(self):
        return sum(map(len, self.parts))

    def getvalue(self):
        return b''.join(self.parts)


class Slow(object):
    """A payload whose reads give way to other threads."""
    def __init__(self, w, data):
        self.w, self.left = w, data

    def read(self, n=-1):
        self.w.sched.point('write')
        b = self.left[:max(1, min(n if n and n > 0 else 50, 50))]
        self.left = self.left[len(b):]
        return b


class Cap(object):
    """One capture context."""
    def __init__(self, n, wr, outer):
        self.n, self.wr, self.outer = n, wr, outer
        self.cm = None
        self.left = None
        self.seen = []


class Wr(object):
    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.writer = None
        self.path = '/simdisk/cap%d.warc' % n
        self.users = 0


def run(plan, ctx):
    if not _frozen[0]:
        _frozen[0] = True
        gc.collect()
        gc.freeze()
    elif plan.get('gc') or plan.get('gcw'):
        gc.collect()
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 8192))})
    with world(ctx, seed=1, fs=fs) as w:
        Sim(plan, ctx, w, fs).run()


class Sim(object):
    def __init__(self, plan, ctx, w, fs):
        from warcio.capture_http import capture_http
        from warcio.warcwriter import WARCWriter, BufferWARCWriter
        self.capture_http = capture_http
        self.plan, self.ctx, self.w, self.fs = plan, ctx, w, fs
        self.net = simnet.Net(plan, ctx, w)
        self.net.on_request = self.on_request
        self.net.on_close = self.on_close
        self.gz = bool(plan.get('gz'))
        self.sched = Sched(ctx, w, plan)
        self.tick = 0
        self.caps = []
        self.writers = []
        for n, k in enumerate(plan.get('writers') or ['buffer']):
            r = Wr(n, k)
            if k == 'buffer':
                r.writer = BufferWARCWriter(gzip=self.gz)
            elif k == 'out':
                r.out = Out(w)
                r.writer = WARCWriter(r.out, gzip=self.gz)
            self.writers.append(r)
        self.clients = []
        for n, c in enumerate(x for x in plan.get('conns') or [] if isinstance(x, dict)):
            cl = web.Client(ctx, self.net, dict(c, i=n), self.net.exs)
            cl.turn = 0
            cl.caps = []
            cl.owner = None
            self.clients.append(cl)
        self.snaps = []
        self.mine = []
        self.order = {}

    # ---------------- ground truth
    def on_request(self, i):
        t = self.sched.me()
        i.cap = self.top(t)
        cl = t.client
        i.client = cl
        i.made = cl.made if cl.kind in ('hc', 'hct') else None
        i.maybe = list(cl.caps)
        i.op_end = None
        i.closer = None

    def on_close(self, i):
        t = self.sched.me()
        if t is None or not t.ingc:
            i.closer = t

    def top(self, t):
        st = [c for c in t.stack if c.left is None]
        return st[-1] if st else None

    # ---------------- threads
    def run(self):
        plan = self.plan
        ths = [x for x in plan.get('threads') or [] if isinstance(x, list)]
        lists = []
        n = len(self.clients)
        for ops in ths:
            lists.append([o for o in ops if isinstance(o, list) and o and (o[0] in ('enter', 'exit', 'contents', 'user') or
                         isinstance(o[0], int) and len(o) >= 3 and o[0] < n and isinstance(o[1], int))])
        # each operation of a connection waits for the one before it
        for k in range(n):
            seq = self.order[k] = sorted(o[1] for ops in lists for o in ops if o[0] == k)
            for ops in lists:
                for o in ops:
                    if o[0] == k:
                        o.append(('turn', seq.index(o[1])))
            if len(set(j for j, ops in enumerate(lists) for o in ops if o[0] == k)) > 1:
                self.ctx.probe('handed-over')
        try:
            for ops in lists:
                t = self.sched.spawn(None)
                t.stack = []
                t.client = None
                t.func = (lambda t=t, ops=ops: self.body(t, ops))
            if plan.get('fine'):
                self.ctx.probe('fine')
            self.sched.run()
        finally:
            for ops in lists:
                for o in ops:
                    if isinstance(o[-1], tuple):
                        o.pop()
        self.ctx.log('steps', self.sched.steps, self.sched.switches)
        self.verify()

    def body(self, t, ops):
        try:
            for o in ops:
                if o[0] == 'enter':
                    self.enter(t, int(o[1]) % len(self.writers))
                elif o[0] == 'exit':
                    if len(o) == 3 and o[1] in range(len(self.clients)) and isinstance(o[2], int):
                        self.await_turn(o[1], o[2])
                    self.leave(t)
                elif o[0] == 'contents':
                    self.contents(int(o[1]) % len(self.writers))
                elif o[0] == 'user':
                    self.user(t, self.writers[int(o[1]) % len(self.writers)], int(o[2]) if len(o) > 2 else 0)
                else:
                    self.op(t, o)
        finally:
            if not self.sched.abort:
                while t.stack:
                    self.leave(t)

    def enter(self, t, n):
        r = self.writers[n]
        c = Cap(len(self.caps), r, self.top(t))
        if c.outer is not None:
            self.ctx.probe('nested')
        kw = {}
        arg = r.writer
        if r.kind in ('file', 'default'):
            # each context has its own output
            r = c.wr = Wr(len(self.writers) + len(self.caps), r.kind)
            kw = {'gzip': self.gz}
            arg = r.path if r.kind == 'file' else None
        self.caps.append(c)
        r.users += 1
        f = None
        if self.plan.get('filt'):
            def f(request, response, recorder):
                self.ctx.probe('filter')
                c.seen.append(response.rec_headers.get_header('WARC-Target-URI'))
                return request, response
        self.ctx.log('enter', t.n, c.n, r.n)
        c.cm = self.capture_http(arg, f, **kw)
        w = c.cm.__enter__()
        if r.writer is None:
            r.writer = w
        t.stack.append(c)

    def leave(self, t):
        if not t.stack:
            return
        c = t.stack[-1]
        self.tick += 1
        c.left = self.tick
        self.ctx.log('leave', t.n, c.n)
        c.cm.__exit__(None, None, None)
        t.stack.pop()

    def await_turn(self, k, n):
        seq = self.order.get(k, [])
        if n in seq:
            cl, n = self.clients[k], seq.index(n)
            self.sched.block(lambda: cl.turn >= n, self.w.clock.us + 5000000, 'an operation')

    def contents(self, n):
        r = self.writers[n]
        if r.kind == 'buffer':
            self.ctx.probe('get-contents')
            self.snaps.append((r, r.writer.get_contents()))

    def user(self, t, r, k):
        """The thread writes records of its own to the writer that may be shared."""
        from io import BytesIO
        from warcio.statusandheaders import StatusAndHeaders
        if r.kind not in ('out', 'buffer'):
            return
        n = len(self.mine)
        wr, body = r.writer, b'user %d ' % n * (n + 5)
        e = {'w': r.n, 'uri': 'http://user.test/%d' % n, 'body': body, 'pair': bool(k & 1), 'done': False}
        self.mine.append(e)
        self.ctx.probe('user-records')
        st = Slow(self.w, body) if k & 2 else BytesIO(body)
        ln = len(body) if n & 1 else None
        if not e['pair']:
            wr.write_record(wr.create_warc_record(e['uri'], 'resource', payload=st, length=ln))
        else:
            h = StatusAndHeaders('200 OK', [('X-N', str(n))], protocol='HTTP/1.1')
            a = wr.create_warc_record(e['uri'], 'response', payload=st, length=ln, http_headers=h)
            h = StatusAndHeaders('GET /%d HTTP/1.1' % n, [('Host', 'user.test')], is_http_request=True)
            wr.write_request_response_pair(wr.create_warc_record(e['uri'], 'request', http_headers=h), a)
        e['done'] = True

    def split(self, r, recs):
        """Take out the records written by the threads themselves."""
        ctx, out, seen = self.ctx, [], []
        by = dict((e['uri'], e) for e in self.mine if e['w'] == r.n)
        i = 0
        while i < len(recs):
            u = model.hget(recs[i]['headers'], 'WARC-Target-URI')
            e = by.get(u)
            if e is None:
                out.append(recs[i])
                i += 1
                continue
            ctx.check(u not in seen, 'record written twice', u)
            ctx.check(recs[i]['block'].endswith(e['body']) and len(recs[i]['block']) - len(e['body']) in ((0,) if not e['pair'] else range(20, 60)),
                      'record of a thread has another block', lambda: u)
            typ = [model.hget(x['headers'], 'WARC-Type') for x in recs[i:i + 2]]
            if e['pair']:
                ctx.check(len(typ) == 2 and typ == ['response', 'request'] and model.hget(recs[i + 1]['headers'], 'WARC-Target-URI') == u,
                          'pair of a thread is not adjacent', lambda: '%s %r' % (u, typ))
                i += 1
            seen.append(u)
            i += 1
        for u, e in by.items():
            ctx.check(u in seen or not e['done'], 'record of a thread is missing', u)
        return out

    def op(self, t, o):
        cl = self.clients[o[0]]
        self.sched.block(lambda: cl.turn == o[-1][1], None, 'its turn')
        t.client = cl
        name = o[2]
        top = self.top(t)
        if cl.conn is None:
            cl.made = top
        if top is not None and top not in cl.caps:
            cl.caps.append(top)
        if name == 'leak':
            # a response that nobody closes, in a reference cycle
            if cl.resp is not None:
                cl.resp.cycle = cl.resp
                cl.resp = cl.keep = None
                if len(o) > 4 and o[3]:
                    cl.conn = None
                self.ctx.probe('leaked')
        else:
            cl.do(o[2:-1])
            self.ctx.check(cl.raised_in is None, 'a client got an error of the recorder', lambda: cl.raised_in)
        self.tick += 1
        for i in self.net.insts:
            if i.closed is not None and i.op_end is None and i.closer is t:
                i.op_end = self.tick
        t.client = None
        cl.turn += 1

    # ---------------- afterwards
    def verify(self):
        ctx, net = self.ctx, self.net
        outs = {}
        for c in self.caps:
            outs[c.wr.n] = c.wr
        for r in self.writers:
            outs.setdefault(r.n, r)
        used, ids = [], {}
        recorded = {}
        for n in sorted(outs):
            r = outs[n]
            if r.writer is None:
                continue
            if r.kind == 'file':
                data = self.fs.get(r.path)
                ctx.probe('file')
            elif r.kind == 'out':
                data = r.out.getvalue()
            else:
                data = r.writer.get_contents()
            for q, snap in self.snaps:
                if q is r:
                    ctx.check(data.startswith(snap), 'get_contents() returned other bytes')
                    self.parse(snap, 'get_contents() returned')
            recs = self.parse(data, 'output %d holds' % n)
            for x in recs:
                d = model.hget(x['headers'], 'WARC-Record-ID')
                ctx.check(d not in ids, 'record id used twice', d)
                ids[d] = 1
            pairs = web.pairs_of(ctx, self.split(r, recs))
            caps = [c for c in self.caps if c.wr is r]
            ctx.probe('shared-writer' if r.users > 1 else 'own-writer')
            got = web.match(ctx, pairs, net.insts, used, lambda i: any(self.may(i, c) for c in caps))
            for i, a, b in got:
                ctx.check(any(self.may(i, c) for c in caps), 'recorded by the wrong context',
                          lambda: '%s %s in output %d, thread context %s' % (i.method, i.uri, n, i.cap and i.cap.n))
                web.check_pair(ctx, i, a, b, True, net.noname)
                recorded[id(i)] = n
        for i in net.insts:
            if i.connect:
                continue
            c = i.cap or i.made
            if i.cap is None:
                ctx.probe('no-context')
                if i.made is None and not i.maybe:
                    continue
            must = (i.complete and i.fault is None and i.closed is not None and i.begun and i.op_end is not None and not i.peer.fin_sent_to
                    and not i.again and not web.out_of_step(i) and c is not None and (c.left is None or i.op_end < c.left))
            if must and i.cap is None and i.client.kind not in ('hc', 'hct'):
                must = False
            ctx.probe('must' if must else 'may')
            if c is not None and c.left is not None and i.op_end is not None and i.op_end > c.left:
                ctx.probe('used-after')
            if must:
                ctx.check(id(i) in recorded, 'exchange not recorded', lambda: '%s %s of context %d' % (i.method, i.uri, c.n))
        for c in self.caps:
            for u in c.seen:
                ctx.check(any(i.uri == u and self.may(i, c) for i in net.insts) or net.lost, 'filter of a context got an exchange of another', u)
        if ctx.faults.get('lock-wait'):
            ctx.probe('lock-contended')
        if ctx.faults.get('gc'):
            ctx.probe('gc')

    def may(self, i, c):
        if i.cap is not None:
            return i.cap is c
        return i.made is c or c in i.maybe and i.client.kind not in ('hc', 'hct')

    def parse(self, data, what):
        try:
            return model.parse_warc_file(data, self.gz)
        except model.ParseError as e:
            self.ctx.violate(what + ' malformed records', str(e))


assert short
