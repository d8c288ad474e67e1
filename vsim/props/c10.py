"""C10: write failures surface and never damage earlier records."""
from vsim import model, wsim, web, net as simnet
from vsim.core import world, short, diff_bytes
from vsim.disk import SimFS
from vsim.streams import READ_FAULTS

simnet.install()

PROP = 'C10'
RUNS = {'quick': 13000, 'thorough': 200000}
RULE = ('One run: a history of record and pair writes by one writer with I/O faults injected into the output '
        'file (write and flush errors, short writes, full disk), temporary buffers and payload sources; after '
        'each failed call the torn tail is cut off and the same writer goes on. In some runs the records are HTTP exchanges '
        'captured with that writer. Non-trivial: a fault fired.')
REAL = ['warcio.warcwriter', 'warcio.recordbuilder', 'warcio.capture_http', 'http.client', 'io buffers', 'zlib', 'tempfile.SpooledTemporaryFile']
STUB = ['disk below the raw file (SimFS)', 'payload sources (SimInput)', 'sockets and servers (SimNet)', 'clock', 'entropy']
PROBES = ('failed-write', 'failed-create', 'failed-pair', 'source-fault', 'temp-fault', 'disk-full', 'short-write', 'flush-failed',
          'recovered', 'gzip', 'plain', 'several-failures', 'unwritten-buffer', 'capture', 'capture-failed', 'capture-after-failure')
ASSUMPTIONS = ['the output object takes all bytes it is given or raises (a buffered binary file)',
               'after a failure the caller cuts the file back to the end of the last acknowledged record; '
               'a record whose write failed is created anew']


def gen(rng):
    cap = None
    if rng.random() < 0.2:
        cap = {'exs': [], 'conns': []}
        nex = {'faults': 0, 'odd': 0.1, 'big': 0.25}
        cap['ops'] = web.merge(rng, [web.gen_conn(rng, cap, nex, clients=['hc']) for _ in range(rng.choice([1, 1, 2]))])
        seen = set()
        for op in list(cap['ops']):
            if op[1] == 'bad' or op[1] == 'req' and op[2] in seen:
                cap['ops'].remove(op)
            elif op[1] == 'req':
                seen.add(op[2])
        for e in cap['exs']:
            if rng.random() < 0.3:
                e['resp']['body']['n'] = rng.choice([16000, 16384, 16400, 30000, 60000])
                e['resp']['fr'] = rng.choice(['len', 'close'])
    recs = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        s = wsim.gen_wrec(rng, edge=0.2)
        if rng.random() < 0.3 and s.get('op') in ('create', 'pair'):
            x = s if s['op'] == 'create' else s[rng.choice(['req', 'resp'])]
            if x['src']['k'] in ('bytes', 'spool'):
                x['src'] = {'k': rng.choice(['seek', 'nonseek', 'tellraise']), 'deliv': {'mode': 'full'}, 'pre': 0}
            n = x['body']['n']
            s['sf'] = [{'at': rng.choice([0, n // 2, max(0, n - 1), n, rng.randint(0, n + 30)]), 'kind': rng.choice(READ_FAULTS),
                        'times': rng.choice([1, -1])}]
            if rng.random() < 0.4:
                # only from the second pass over the data on
                s['sf'][0]['skip'] = 1
        recs.append(s)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        op = rng.choice(['write', 'write', 'write', 'temp', 'tempwrite', 'tempread'])
        f = {'op': {'tempwrite': 'write', 'tempread': 'read'}.get(op, op), 'n': rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60)]),
             'kind': rng.choice(['eio', 'nospace', 'short', 'nospace']), 'part': rng.choice([0, 0, 1, 5, 100, 5000]),
             'times': rng.choice([1, 1, 2, 5]), 'file': '<temp>' if op.startswith('temp') else 'out.warc'}
        if f['op'] != 'write' and f['kind'] == 'short':
            f['kind'] = 'eio'
        faults.append(f)
    if cap:
        # most captured exchanges do few raw operations
        for f in faults:
            f['n'] = rng.choice([f['n'], rng.randrange(4), rng.randrange(12)])
        return {'cap': cap, 'gz': rng.randrange(2), 'mode': 'ab', 'faults': faults, 'bufsize': rng.choice([8192, 8192, 16, 100, 65536]),
                'quota': rng.choice([None, None, None, rng.randint(100, 6000)]), 'lat': 0}
    return {'recs': recs, 'gz': rng.randrange(2), 'mode': rng.choice(['ab', 'ab', 'w+b', 'wb']), 'faults': faults,
            'bufsize': rng.choice([8192, 8192, 1, 16, 100, 65536]),
            'quota': rng.choice([None, None, None, rng.randint(100, 6000)]), 'lat': rng.choice([0, 700])}


def run(plan, ctx):
    if isinstance(plan.get('cap'), dict):
        return run_capture(plan, plan['cap'], ctx)
    from warcio.warcwriter import WARCWriter
    gz = bool(plan.get('gz'))
    path = '/simdisk/out.warc'
    fs = SimFS({'bufsize': max(1, plan.get('bufsize') or 1), 'lat': plan.get('lat', 0),
                'faults': [f for f in plan.get('faults') or [] if isinstance(f, dict)], 'quota': plan.get('quota')})
    ctx.probe('gzip' if gz else 'plain')
    with world(ctx, seed=5, fs=fs) as w:
        fs.enabled = False
        mode = plan.get('mode') if plan.get('mode') in ('ab', 'w+b', 'wb') else 'ab'
        fh = open(path, mode)
        writer = WARCWriter(fh, gzip=gz)
        acked, nrec, nfail = 0, 0, 0
        good = b''
        exps = []
        for i, spec in enumerate(plan.get('recs') or []):
            if not isinstance(spec, dict):
                continue
            for attempt in range(3):
                sf = [SkipFault(f) for f in (spec.get('sf') or []) if isinstance(f, dict)] if attempt == 0 else []
                fs.enabled = attempt < 2
                before = fs.fired
                stage = 'create'
                sources = []
                try:
                    made = create(ctx, w, writer, spec, i, sf, sources)
                    stage = 'write'
                    if spec.get('op') == 'pair':
                        stage = 'pair'
                        writer.write_request_response_pair(made[1][0], made[0][0])
                    else:
                        for rec, e in made:
                            writer.write_record(rec)
                    err = None
                except OSError as e:
                    err = e
                fs.enabled = False
                fired = fs.fired - before
                sfired = sum(s.fired for s in sources)
                if err is None:
                    # reported as written: it must be, completely
                    data = fs.get(path)
                    ctx.check(data[:acked] == good, 'earlier records damaged', lambda: diff_bytes(good, data[:acked]))
                    try:
                        recs = model.parse_warc_file(data[acked:], gz)
                    except model.ParseError as e:
                        ctx.violate('write reported as successful, record malformed or incomplete', '%s (faults fired: %d disk, %d source)' % (e, fired, sfired))
                    ctx.check(len(recs) == len(made), 'write reported as successful, records missing',
                              lambda: 'want %d got %d (faults fired: %d disk, %d source)' % (len(made), len(recs), fired, sfired))
                    for r, (_, e) in zip(recs, made):
                        wsim.check_block(ctx, e, r, None, 'record %d: ' % i)
                        pay = wsim.payload_of(r, e)
                        ctx.check(pay == e.payload or e.typ == 'revisit', 'write reported as successful, payload incomplete',
                                  lambda: diff_bytes(e.payload, pay))
                    good, acked = data, len(data)
                    nrec += len(made)
                    exps += [e for _, e in made]
                    if nfail and attempt:
                        ctx.probe('recovered')
                    break
                # failed: the call raised; earlier records must be intact
                nfail += 1
                ctx.log('failed', stage, type(err).__name__)
                ctx.check(fired or sfired, 'error without a fault', lambda: repr(err))
                ctx.probe({'create': 'failed-create', 'pair': 'failed-pair'}.get(stage, 'failed-write'))
                if sfired:
                    ctx.probe('source-fault')
                data = fs.get(path)
                ctx.check(data[:acked] == good, 'earlier records damaged by a failed write', lambda: diff_bytes(good, data[:acked]))
                # cut the torn tail off, fault gone; the same file object and writer go on
                fh.seek(acked)
                if len(fs.get(path)) != len(data):
                    ctx.probe('unwritten-buffer')
                fh.truncate()
                data = fs.get(path)
                ctx.check(data == good, 'file differs after cutting the tail')
            else:
                ctx.violate('writer does not recover', 'record %d fails without a fault: %r' % (i, err))
        note_faults(ctx, nfail)
        fh.close()
        data = fs.get(path)
        ctx.check(data == good, 'file changed when closed', lambda: diff_bytes(good, data))
        recs = model.parse_warc_file(data, gz)
        ctx.check(len(recs) == nrec, 'wrong number of records', lambda: 'want %d got %d' % (nrec, len(recs)))


def note_faults(ctx, nfail):
    if nfail > 1:
        ctx.probe('several-failures')
    if 'write-disk-full' in ctx.faults:
        ctx.probe('disk-full')
    if 'write-short' in ctx.faults:
        ctx.probe('short-write')
    if any(k.startswith('temp-') for k in ctx.faults):
        ctx.probe('temp-fault')
    if any(k in ('write-eio', 'write-nospace') for k in ctx.faults):
        ctx.probe('flush-failed')


def run_capture(plan, cap, ctx):
    """HTTP exchanges captured with a writer whose output and buffers fail now and then."""
    from warcio.warcwriter import WARCWriter
    from warcio.capture_http import capture_http
    gz = bool(plan.get('gz'))
    path = '/simdisk/out.warc'
    fs = SimFS({'bufsize': max(1, plan.get('bufsize') or 1), 'faults': [f for f in plan.get('faults') or [] if isinstance(f, dict)],
                'quota': plan.get('quota')})
    ctx.probe('capture')
    with world(ctx, seed=5, fs=fs) as w:
        fs.enabled = False
        net = simnet.Net(cap, ctx, w)
        clients = [web.Client(ctx, net, dict(c, i=n, c='hc'), net.exs) for n, c in enumerate(cap.get('conns') or []) if isinstance(c, dict)]
        fh = open(path, 'ab')
        writer = WARCWriter(fh, gzip=gz)
        good, nfail = b'', 0
        used, keep = [], []
        hurt = set()        # exchanges during which an operation of their client raised
        with capture_http(writer):
            for op in cap.get('ops') or []:
                if not isinstance(op, list) or len(op) < 2 or not isinstance(op[0], int) or op[0] >= len(clients):
                    continue
                cl = clients[op[0]]
                before, n0, done0, l0 = fs.fired, len(net.insts), len(net.completions), len(cl.log)
                fs.enabled = True
                cl.do(op[1:])
                fs.enabled = False
                fired = fs.fired - before
                # nothing is finalized when the client lets go of it
                keep += [cl.resp, cl.conn]
                raised = any(x[1] == 'raised' for x in cl.log[l0:])
                if raised:
                    hurt.update(i.n for i in net.insts[n0:])
                    hurt.update(i.n for i in net.completions[done0:])
                    for i in (cl.inst(), cl.conn and getattr(getattr(cl.conn, 'sock', None), 'peer', None) and cl.conn.sock.peer.last_inst):
                        if i is not None:
                            hurt.add(i.n)
                data = fs.get(path)
                ctx.check(data[:len(good)] == good, 'earlier records damaged', lambda: diff_bytes(good, data[:len(good)]))
                torn = None
                try:
                    recs = model.parse_warc_file(data[len(good):], gz)
                except model.ParseError as e:
                    torn = e
                if torn is None and len(recs) % 2:
                    torn = 'a record without its partner'
                if torn is None:
                    for i, a, b in web.match(ctx, web.pairs_of(ctx, recs), net.insts, used):
                        if i.n in hurt or cl.failed:
                            i.exact = i.natural = False
                            i.got = None
                        web.check_pair(ctx, i, a, b)
                        if nfail:
                            ctx.probe('capture-after-failure')
                else:
                    ctx.check(raised, 'failed write of a captured exchange not reported', lambda: str(torn))
                    ctx.check(fired, 'error without a fault', lambda: str(torn))
                if raised and fired:
                    nfail += 1
                    ctx.probe('capture-failed')
                    # the client goes on with a new connection
                    cl.conn = None
                for i in net.completions[done0:]:
                    if i.complete and i.begun and i.n not in hurt and not raised and not i.peer.fin_sent_to and not i.again and not web.out_of_step(i):
                        ctx.check(i in used, 'exchange not recorded, and no error reported', lambda: '%s %s (faults fired: %d)' % (i.method, i.target, fired))
                if torn is not None:
                    # what failed to be recorded is not recorded later
                    used += [i for i in net.completions[done0:] if i not in used]
                if torn is not None or raised:
                    fh.seek(len(good) if torn is not None else len(data))
                    fh.truncate()
                    data2 = fs.get(path)
                    want = good if torn is not None else data
                    ctx.check(data2 == want, 'file differs after cutting the tail', lambda: diff_bytes(want, data2))
                    data = data2
                good = data
        note_faults(ctx, nfail)
        fh.close()
        data = fs.get(path)
        ctx.check(data == good, 'file changed when closed', lambda: diff_bytes(good, data))
        for c in clients:
            c.resp = c.conn = None


class SkipFault(dict):
    def __init__(self, f):
        dict.__init__(self, {k: v for k, v in f.items() if k != 'skip'})
        self.skip = f.get('skip')


def create(ctx, w, writer, spec, i, sf, sources):
    """wsim.create with the run's source faults, remembering the sources."""
    orig = wsim.LineInput

    class Src(orig):
        def __init__(self, data, d, c=None, clock=None, faults=(), name='in'):
            orig.__init__(self, data, d, c, clock, faults, name)
            # a fault meant for the second pass is armed when the stream is rewound
            self.late = [dict(f) for f in sf if f.skip]
            sources.append(self)

        def seek(self, off, whence=0):
            if self.late and self.reads:
                self.faults += self.late
                self.late = []
            return orig.seek(self, off, whence)
    wsim.LineInput = Src
    try:
        return wsim.create(ctx, w, writer, spec, i, [dict(f) for f in sf if not f.skip])
    finally:
        wsim.LineInput = orig
