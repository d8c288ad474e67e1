"""C12: HTTP capture records exactly what was exchanged."""
import contextlib

from vsim import model, web, net as simnet
from vsim.core import world, short
from vsim.disk import SimFS

simnet.install()

PROP = 'C12'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('One run: a capture context in which one to four HTTP clients (http.client, urllib, urllib3, requests; direct, through a proxy, '
        'tunnelled, with simulated TLS) do interleaved exchanges with scripted servers over a network with fragmentation, delays, early '
        'closes, resets and stalls, some of them inside a further context. Non-trivial: a network fault, fragmentation, or interleaved connections.')
REAL = ['warcio.capture_http', 'warcio.warcwriter', 'warcio.recordbuilder', 'http.client', 'urllib', 'urllib3', 'requests', 'socket.SocketIO', 'io buffers']
STUB = ['sockets, connecting, name resolution (SimNet)', 'TLS (identity layer)', 'servers and proxies (scripted)', 'disk (SimFS)', 'clock', 'entropy']
PROBES = ('nested', 'hc', 'hct', 'hcp', 'urllib', 'u3', 'u3s', 'u3p', 'u3t', 'req', 'reqt', 'interleaved', 'reused', 'must', 'may', 'partial', 'chunked', 'until-close',
          'filter-skip', 'filter-revisit', 'filter-keep', 'out-of-step', 'retried', 'buffer', 'writer', 'file', 'no-ip', 'ipv6', 'request-body', 'head', 'failed')
ASSUMPTIONS = ['HTTP headers are written in normal form: folded lines joined, non-ASCII percent-encoded',
               'exchanges that failed on the network may be recorded as far as they got, or not at all',
               'connections are made inside the context']


def gen(rng):
    plan = {'exs': [], 'conns': [], 'gz': rng.randrange(2), 'ver': rng.choice(['1.0', '1.1']), 'out': rng.choice(['buffer', 'buffer', 'writer', 'file']),
            'ip': int(rng.random() < 0.85), 'filt': rng.choice([0, 0, 1])}
    nex = {'faults': rng.choice([0, 0, 0.3]), 'odd': rng.choice([0, 0, 0.3]), 'big': 0.01}
    seqs = [web.gen_conn(rng, plan, nex) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    plan['ops'] = web.merge(rng, seqs, rng.choice([0, 0.5, 0.9]))
    web.gen_net(rng, plan)
    if not nex['faults']:
        plan.pop('cf', None)
        plan.pop('sf', None)
    for e in plan['exs']:
        if plan['filt']:
            e['f'] = rng.choice([0, 0, 0, 0, 1, 1, 2, 2, 3, 4])
    plan['tick'] = rng.choice([0, 0, 1, 300000])
    if rng.random() < 0.2:
        # a context inside the context, for some of the operations
        a = rng.randint(0, len(plan['ops']))
        plan['inner'] = [a, rng.randint(a, len(plan['ops']))]
    return plan


def make_filter(ctx, net, plan, writer_box, seen):
    def filt(request, response, recorder):
        ctx.check(request.rec_type == 'request' and response.rec_type == 'response', 'filter called with other records')
        t = web.reqline((request.http_headers.protocol + ' ' + request.http_headers.statusline).encode('latin-1', 'replace'))[1]
        seen.append(t)
        f = filter_of(plan, t)
        part = 0
        if f > 2:
            f, part = 1, f - 2
        if f == 1:
            ctx.probe('filter-skip')
            # one record missing skips the pair as well
            return [(None, None), (request, None), (None, response)][part]
        if f == 2:
            ctx.probe('filter-revisit')
            u = response.rec_headers.get_header('WARC-Target-URI')
            return request, writer_box[0].create_revisit_record(u, 'sha1:AAAA', u, '2000-01-01T00:00:00Z', http_headers=response.http_headers)
        ctx.probe('filter-keep')
        return request, response
    return filt


def filter_of(plan, target):
    k = target[target.index('/e') + 2:] if '/e' in target else ''
    d = ''.join(simnet._digits(k))
    exs = plan.get('exs') or []
    if not plan.get('filt') or not d or int(d) >= len(exs):
        return 0
    f = exs[int(d)].get('f', 0)
    return f if f in (0, 1, 2, 3, 4) else 0


def run(plan, ctx):
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    gz = bool(plan.get('gz'))
    out = plan.get('out') if plan.get('out') in ('buffer', 'writer', 'file') else 'buffer'
    ctx.probe(out)
    fs = SimFS({'bufsize': 8192})
    with world(ctx, seed=1, fs=fs) as w:
        w.clock.tick = max(0, int(plan.get('tick') or 0))
        net = simnet.Net(plan, ctx, w)
        box, seen = [None], []
        kw = {'gzip': gz, 'warc_version': plan.get('ver') or '1.0'}
        path = '/simdisk/cap.warc'
        f = make_filter(ctx, net, plan, box, seen) if plan.get('filt') else None
        arg = None
        if out == 'file':
            arg = path
        elif out == 'writer':
            arg = WARCWriter(open(path, 'wb'), **kw)
            kw = {}
        specs = [c for c in plan.get('conns') or [] if isinstance(c, dict)]
        clients = [web.Client(ctx, net, dict(c, i=n), net.exs) for n, c in enumerate(specs)]
        order = []
        inner = plan.get('inner') if isinstance(plan.get('inner'), list) and len(plan['inner']) == 2 else None
        with contextlib.ExitStack() as stack:
            first = last = 0
            iw = ist = None
            writer = stack.enter_context(capture_http(arg, f, record_ip=bool(plan.get('ip', 1)), **kw))
            box[0] = writer
            for n, op in enumerate(plan.get('ops') or []):
                if inner and n >= inner[0] and iw is None:
                    ctx.probe('nested')
                    first = len(net.insts)
                    ist = stack.enter_context(contextlib.ExitStack())
                    iw = ist.enter_context(capture_http(None, f, record_ip=bool(plan.get('ip', 1)), gzip=gz, warc_version=plan.get('ver') or '1.0'))
                if inner and n >= inner[1] and ist is not None:
                    ist.close()
                    ist = None
                    last = len(net.insts)
                if not isinstance(op, list) or len(op) < 2 or not isinstance(op[0], int) or op[0] >= len(clients):
                    continue
                order.append(op[0])
                clients[op[0]].do(op[1:])
            if iw and ist is not None:
                ist.close()
                last = len(net.insts)
        ctx.check(net.badreq == 0, 'server received a malformed request')
        data = writer.get_contents() if out == 'buffer' else fs.get(path)
        done = list(net.completions)
        if not plan.get('ip', 1):
            ctx.probe('no-ip')
        for c in clients:
            ctx.probe(c.kind if c.kind in PROBES else 'hc')
        if any(a != b for a, b in zip(order, order[1:])):
            ctx.probe('interleaved')
            ctx.nontrivial()
        mine = net.insts[first:last]
        verify(ctx, plan, net, data, gz, done, seen, [i for i in net.insts if i not in mine])
        if iw:
            verify(ctx, plan, net, iw.get_contents(), gz, done, seen, mine)


def verify(ctx, plan, net, data, gz, done, seen, insts):
    try:
        recs = model.parse_warc_file(data, gz)
    except model.ParseError as e:
        ctx.violate('malformed output', str(e))
    pairs = web.pairs_of(ctx, recs)
    got = web.match(ctx, pairs, insts, [])
    pos = []
    for i, a, b in got:
        web.check_pair(ctx, i, a, b, bool(plan.get('ip', 1)), net.noname)
        f = filter_of(plan, i.target)
        t = model.hget(a['headers'], 'WARC-Type')
        ctx.check(f in (0, 2), 'exchange recorded that the filter refused')
        ctx.check((t == 'revisit') == (f == 2), 'not the record that the filter gave', lambda: '%s %s' % (t, f))
        ctx.check(i.closed is not None, 'record of an unfinished exchange', lambda: i.target)
        ctx.check(a['block'] or t == 'revisit', 'empty response recorded', lambda: i.target)
        if not i.again:
            pos.append(i.closed)
    ctx.check(pos == sorted(pos), 'pairs not in the order of completion', lambda: repr([(i.target, i.closed) for i, _, _ in got]))
    rec = [i for i, _, _ in got]
    for i in insts:
        if i.connect:
            continue
        must = i.complete and i.fault is None and i.closed is not None and i.begun
        if must and (i.peer.fin_sent_to or i.again or web.out_of_step(i)):
            must = False
        if must:
            ctx.probe('must')
            if filter_of(plan, i.target) in (0, 2):
                ctx.check(i in rec, 'exchange not recorded', lambda: '%s %s closed=%s' % (i.method, i.uri, i.closed))
            if plan.get('filt'):
                ctx.check(i.target in seen, 'exchange not shown to the filter', lambda: i.target)
        else:
            ctx.probe('may')
        stats(ctx, i)
    per = {}
    for i in insts:
        per.setdefault(i.peer.cid, []).append(i)
    if any(len(v) > 1 for v in per.values()):
        ctx.probe('reused')


def stats(ctx, i):
    if i.fault:
        ctx.probe('failed')
    if web.out_of_step(i):
        ctx.probe('out-of-step')
    if i.again:
        ctx.probe('retried')
    if not i.natural and i.closed is not None:
        ctx.probe('partial')
    if i.framing == 'chunk':
        ctx.probe('chunked')
    if i.framing == 'close':
        ctx.probe('until-close')
    if ':' in i.ip:
        ctx.probe('ipv6')
    if len(i.req) > len(i.req.split(b'\r\n\r\n')[0]) + 4:
        ctx.probe('request-body')
    if i.method == 'HEAD':
        ctx.probe('head')


assert short
