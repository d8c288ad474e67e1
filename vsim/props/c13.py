"""C13: HTTP capture is transparent to the client."""
from vsim import model, web, net as simnet
from vsim.core import world, short
from vsim.disk import SimFS

simnet.install()

PROP = 'C13'
RUNS = {'quick': 9000, 'thorough': 80000}
RULE = ('One run: the same script of HTTP clients, servers and network faults runs in three worlds: with the clients as they are without warcio, '
        'outside any capture context, and with a capture context around all or some of the operations. What the clients observe and the '
        'bytes each server receives must be the same. Non-trivial: a network fault, fragmentation, or interleaved connections.')
REAL = ['warcio.capture_http', 'warcio.warcwriter', 'warcio.recordbuilder', 'http.client', 'urllib', 'urllib3', 'requests', 'socket.SocketIO', 'io buffers']
STUB = ['sockets, connecting, name resolution (SimNet)', 'TLS (identity layer)', 'servers and proxies (scripted)', 'disk (SimFS)', 'clock', 'entropy']
PROBES = ('hc', 'hct', 'hcp', 'urllib', 'u3', 'u3s', 'u3p', 'u3t', 'req', 'reqt', 'interleaved', 'errors', 'partly-inside', 'all-inside', 'made-before', 'used-after',
          'continue', 'recorded', 'buffer', 'writer', 'file', 'filter', 'body-file', 'body-iter', 'dropped')
ASSUMPTIONS = ['a connection made inside a context continues to be recorded after it, if the output still exists (pinned by the tests of warcio)',
               'the output of the capture accepts all writes']


def gen(rng):
    plan = {'exs': [], 'conns': [], 'gz': rng.randrange(2), 'out': rng.choice(['buffer', 'writer', 'file']), 'filt': rng.choice([0, 0, 0, 1]), 'ip': rng.randrange(2)}
    nex = {'faults': rng.choice([0, 0.3, 0.6]), 'odd': rng.choice([0, 0.3]), 'big': 0.01}
    seqs = [web.gen_conn(rng, plan, nex) for _ in range(rng.choice([1, 1, 2, 3]))]
    for s in seqs:
        if rng.random() < 0.3:
            s.append(['drop'])
    plan['ops'] = web.merge(rng, seqs, rng.choice([0, 0.5, 0.9]))
    web.gen_net(rng, plan)
    for e in plan['exs']:
        if rng.random() < 0.12:
            e['resp']['cont'] = rng.choice([1, 2])
        if rng.random() < 0.05:
            e['resp']['early'] = 1
        if e.get('body') and e['body'].get('k') == 'pipe' and rng.random() < 0.3:
            e['body']['k'] = 'failing'
        if plan['filt']:
            e['f'] = rng.choice([0, 0, 0, 1, 2, 3])
    n = len(plan['ops'])
    if rng.random() < 0.5:
        a = rng.randint(0, n)
        plan['ctx'] = [a, rng.randint(a, n)]
    return plan


def operations(plan, n):
    for op in plan.get('ops') or []:
        if isinstance(op, list) and len(op) > 1 and isinstance(op[0], int) and op[0] < n:
            yield op


def one(plan, ctx, mode):
    """Run the script; mode: 'plain', 'outside', 'capture'."""
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    fs = SimFS({'bufsize': 8192})
    res = {}
    with world(ctx, seed=1, fs=fs) as w:
        net = simnet.Net(plan, ctx, w)
        specs = [c for c in plan.get('conns') or [] if isinstance(c, dict)]
        clients = [web.Client(ctx, net, dict(c, i=n), net.exs) for n, c in enumerate(specs)]
        ops = list(operations(plan, len(clients)))
        a, b = 0, len(ops)
        if isinstance(plan.get('ctx'), list) and len(plan['ctx']) == 2:
            a, b = [max(0, min(len(ops), int(x))) for x in plan['ctx']]
        cm = None
        path = '/simdisk/cap.warc'

        def filt(request, response, recorder):
            ctx.check(request.http_headers is not None and response.http_headers is not None, 'filter called for an exchange that did not take place')
            t = web.reqline((request.http_headers.protocol + ' ' + request.http_headers.statusline).encode('latin-1', 'replace'))[1]
            k = ''.join(simnet._digits(t[t.index('/e') + 2:])) if '/e' in t else ''
            f = net.exs[int(k)].get('f') if k and int(k) < len(net.exs) else 0
            if f:
                return (request if f == 2 else None), (response if f == 3 else None)
            return request, response

        for n, op in enumerate(ops + [None]):
            if mode == 'capture':
                if n == a:
                    kw = {'gzip': bool(plan.get('gz'))}
                    arg = None
                    if plan.get('out') == 'file':
                        arg = path
                    elif plan.get('out') == 'writer':
                        arg = WARCWriter(open(path, 'wb'), **kw)
                        kw = {}
                    cm = capture_http(arg, filt if plan.get('filt') else None, record_ip=bool(plan.get('ip')), **kw)
                    writer = cm.__enter__()
                    net.inside = True
                if n == b:
                    cm.__exit__(None, None, None)
                    net.inside = False
                    res['at-exit'] = writer.get_contents() if arg is None else fs.get(path)
                    res['used-inside'] = any(o[1] in ('req', 'get') for o in ops[a:b])
            if op is not None:
                clients[op[0]].do(op[1:])
        if mode == 'capture':
            res['data'] = writer.get_contents() if arg is None else fs.get(path)
            res['ab'] = (a, b, len(ops))
        res['clients'] = clients
        res['net'] = net
        res['raw'] = [(p.host, p.port, p.raw) for p in net.peers]
        res['fin'] = [p.fin_seen for p in net.peers]
        res['connects'] = [e for e in net.events if e[0] == 'connect']
        res['time'] = w.clock.us
    res['err'] = ctx.errout
    ctx.errout = ''
    return res


def run(plan, ctx):
    with simnet.without_warcio():
        want = one(plan, ctx, 'plain')
    ctx.log('---- outside')
    out = one(plan, ctx, 'outside')
    compare(ctx, want, out, 'outside a context')
    ctx.log('---- capture')
    cap = one(plan, ctx, 'capture')
    compare(ctx, want, cap, 'with capture')
    records(ctx, plan, cap)
    ctx.probe(plan.get('out') if plan.get('out') in ('writer', 'file') else 'buffer')
    if plan.get('filt'):
        ctx.probe('filter')
    order = [op[0] for op in operations(plan, 99)]
    for c in cap['clients']:
        ctx.probe(c.kind if c.kind in PROBES else 'hc')
        if any(len(x) > 1 and x[1] == 'raised' for x in c.log):
            ctx.probe('errors')
    if any(x != y for x, y in zip(order, order[1:])):
        ctx.probe('interleaved')
        ctx.nontrivial()
    for i in cap['net'].insts:
        e = cap['net'].exs[i.k] if i.k is not None and i.k < len(cap['net'].exs) else {}
        if (e.get('resp') or {}).get('cont'):
            ctx.probe('continue')
        k = (e.get('body') or {}).get('k')
        if k in ('file', 'textfile'):
            ctx.probe('body-file')
        if k in ('gen', 'list'):
            ctx.probe('body-iter')
    if any(op[1] == 'drop' for op in operations(plan, 99)):
        ctx.probe('dropped')


def compare(ctx, want, got, what):
    for x, y in zip(want['clients'], got['clients']):
        for n, (p, q) in enumerate(zip(x.log, y.log)):
            ctx.check(p == q, 'the client observes something else ' + what, lambda: 'client %s step %d: want %s got %s' % (
                x.spec.get('i'), n, short(p, 300), short(q, 300)))
        ctx.check(len(x.log) == len(y.log), 'the client observes something else ' + what)
        ctx.check(x.got == y.got, 'the client reads other bytes ' + what)
    ctx.check(want['connects'] == got['connects'], 'other connections are made ' + what, lambda: '%s %s' % (want['connects'], got['connects']))
    for n, (p, q) in enumerate(zip(want['raw'], got['raw'])):
        ctx.check(p == q, 'the server receives other bytes ' + what, lambda: 'connection %d: want %s got %s' % (n, short(p), short(q)))
    ctx.check(want['fin'] == got['fin'], 'other connections are closed ' + what, lambda: '%s %s' % (want['fin'], got['fin']))
    ctx.check(want['err'] == got['err'], 'unexpected output on stderr ' + what, lambda: got['err'][:600])
    ctx.check(want['time'] == got['time'], 'other timing ' + what, lambda: '%s %s' % (want['time'], got['time']))


def records(ctx, plan, cap):
    a, b, n = cap['ab']
    ctx.probe('all-inside' if (a, b) == (0, n) else 'partly-inside')
    if plan.get('out') == 'file':
        ctx.check(cap['data'] == cap['at-exit'], 'recorded after the context was left')
    try:
        recs = model.parse_warc_file(cap['data'], bool(plan.get('gz')))
    except model.ParseError as e:
        ctx.violate('malformed output', str(e))
    got = web.match(ctx, web.pairs_of(ctx, recs), cap['net'].insts, [], lambda i: i.inside)
    late = len(cap['data']) != len(cap['at-exit'])
    for i, _, _ in got:
        ctx.probe('recorded')
        # made inside: its connection object belongs to the context
        ctx.check(i.inside or late and cap['used-inside'], 'an exchange outside the context was recorded', lambda: '%s %s' % (i.method, i.uri))
        if i.inside and not i.peer.inside:
            ctx.probe('made-before')
        if not i.inside:
            ctx.probe('used-after')
    for i in cap['net'].insts:
        f = cap['net'].exs[i.k].get('f') if plan.get('filt') and i.k is not None and i.k < len(cap['net'].exs) else 0
        if i.inside and i.complete and i.fault is None and i.begun and i.natural and not i.connect and not i.again and not f \
                and not web.out_of_step(i) and not i.peer.fin_sent_to and i.closed_inside:
            ctx.check(any(i is j for j, _, _ in got), 'exchange not recorded', lambda: '%s %s' % (i.method, i.uri))
