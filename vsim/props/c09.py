"""C09: acknowledged records survive a crash of the writing process."""
from vsim import model, wsim, web, net as simnet
from vsim.core import world, short, diff_bytes, SimCrash
from vsim.disk import SimFS
from vsim.streams import gen_deliv, make_input

simnet.install()

PROP = 'C09'
RUNS = {'quick': 12000, 'thorough': 160000}
RULE = ('One run: a history of record and pair writes, or of HTTP exchanges captured to the file, by one or more successive '
        'processes on a simulated disk; each process dies at a chosen raw write (before, within or after it); only what reached the '
        'operating system survives; the next process cuts the torn tail and appends. Non-trivial: a crash.')
REAL = ['warcio.warcwriter', 'warcio.recordbuilder', 'io buffers', 'zlib', 'warcio.archiveiterator (recovery)',
        'warcio.capture_http', 'http.client, urllib, urllib3, requests']
STUB = ['disk below the raw file (SimFS)', 'payload sources (SimInput)', 'sockets and servers (SimNet)', 'clock', 'entropy']
PROBES = ('crash', 'crash-in-record', 'crash-between', 'crash-in-pair', 'crash-in-temp', 'restart', 'gzip', 'plain', 'torn-tail', 'big-buffer',
          'capture')
ASSUMPTIONS = ['process crash, not power failure: what was handed to the operating system survives',
               'records are not split over files']


def gen(rng):
    procs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cap = None
        if rng.random() < 0.15:
            cap = {'exs': [], 'conns': []}
            nex = {'faults': 0, 'odd': 0.1, 'big': 0.03}
            cap['ops'] = web.merge(rng, [web.gen_conn(rng, cap, nex) for _ in range(rng.choice([1, 1, 2]))])
        recs = [wsim.gen_wrec(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
        procs.append({'recs': recs, 'frac': rng.randrange(1000), 'part': rng.choice([0, 1, 2, 7, 50, 1000, 10 ** 6, rng.randint(0, 3000)]),
                      'cap': cap, 'op': rng.choice(['write', 'write', 'write', 'write', 'any'])})
    return {'procs': procs, 'gz': rng.randrange(2), 'mode': rng.choice(['ab', 'ab', 'r+b']),
            'bufsize': rng.choice([8192, 8192, 1, 16, 100, 65536, 1 << 20]), 'lat': rng.choice([0, 500]),
            'pre': rng.choice([0, 0, 1]),
            'wfrag': rng.choice([None, None, {'s': rng.randrange(1 << 20), 'hi': rng.choice([10, 1000])}])}


def process(ctx, w, fs, plan, proc, start, acks):
    """One process life: append records, noting after each return what must now be durable."""
    from warcio.warcwriter import WARCWriter
    path = '/simdisk/out.warc'
    if isinstance(proc.get('cap'), dict):
        return capturing(ctx, w, fs, plan, proc['cap'], path, acks)
    fh = open(path, plan.get('mode') if plan.get('mode') in ('ab', 'r+b') else 'ab')
    fh.seek(0, 2)
    writer = WARCWriter(fh, gzip=bool(plan.get('gz')))
    for i, spec in enumerate(proc.get('recs') or []):
        if not isinstance(spec, dict):
            continue
        made = wsim.create(ctx, w, writer, spec, i + start)
        if spec.get('op') == 'pair':
            fs.state = 'pair'
            writer.write_request_response_pair(made[1][0], made[0][0])
        else:
            for rec, e in made:
                fs.state = 'record'
                writer.write_record(rec)
        fs.state = 'between'
        acks.append((len(fs.get(path)), len(made)))
        ctx.log('ack', len(fs.get(path)))
    # the process ends without closing the file: nothing may be left in its buffers
    return fh


def capturing(ctx, w, fs, plan, cap, path, acks):
    """A process that captures: an exchange is acknowledged when the operation which ended it returns."""
    from warcio.capture_http import capture_http
    ctx.probe('capture')
    net = simnet.Net(cap, ctx, w)
    clients = [web.Client(ctx, net, dict(c, i=n), net.exs) for n, c in enumerate(cap.get('conns') or []) if isinstance(c, dict)]
    with capture_http(path, gzip=bool(plan.get('gz'))):
        for op in cap.get('ops') or []:
            if not isinstance(op, list) or len(op) < 2 or not isinstance(op[0], int) or op[0] >= len(clients):
                continue
            fs.state = 'capture'
            clients[op[0]].do(op[1:])
            if fs.dead:
                # died in a finalizer
                raise SimCrash()
            fs.state = 'between'
            n = 0
            for i in net.completions:
                if i.complete and i.fault is None and i.begun and not i.peer.fin_sent_to and not i.again and not web.out_of_step(i):
                    n += 2
                    ctx.probe('captured-exchange')
            acks.append((len(fs.get(path)), n - sum(k for _, k in acks)))
            ctx.log('ack', len(fs.get(path)), n)
        fs.state = 'leave'
        if fs.crash is not None:
            # the process is killed at the latest now: nothing may be left in its buffers
            fs.die()
        fs.final = len(fs.get(path))


def life(ctx, plan, proc, before, n, crash):
    """Run one process on a disk holding `before`; -> (disk bytes, acks, raw writes, crashed, state)"""
    fs = SimFS({'bufsize': max(1, plan.get('bufsize') or 1), 'lat': plan.get('lat', 0), 'crash': crash,
                'wfrag': plan.get('wfrag')})
    fs.state = 'start'
    with world(ctx, seed=1000 + n, fs=fs, start_us=1700000000 * 10 ** 6 + n * 10 ** 9) as w:
        fs.put('/simdisk/out.warc', before)
        acks = []
        crashed = False
        fh = None
        try:
            fh = process(ctx, w, fs, plan, proc, n * 100, acks)
        except SimCrash:
            crashed = True
        state = fs.state
        data = fs.get('/simdisk/out.warc')
        fs.dead = True      # whatever is still buffered is lost with the process
        del fh
    return data, acks, fs, crashed, state


def run(plan, ctx):
    gz = bool(plan.get('gz'))
    ctx.probe('gzip' if gz else 'plain')
    if (plan.get('bufsize') or 0) > 60000:
        ctx.probe('big-buffer')
    disk = b''
    if plan.get('pre'):
        disk = model.build_archive({'gz': int(gz), 'recs': [{'t': 'resource', 'nuri': 0, 'body': {'n': 10, 'k': 'text', 's': 1}}]}).data
    total = 1 if plan.get('pre') else 0
    for n, proc in enumerate(plan.get('procs') or []):
        if not isinstance(proc, dict):
            continue
        if n:
            ctx.probe('restart')
        before = disk
        # the same life without a crash: what the records are
        ref, acks0, fs0, _, _ = life(ctx, plan, proc, before, n, None)
        ctx.check(ref.startswith(before), 'existing content changed', lambda: diff_bytes(before, ref[:len(before)]))
        cap = isinstance(proc.get('cap'), dict)
        if not fs0.exists('/simdisk/out.warc'):
            continue
        check_acks(ctx, ref, acks0, gz, before, cap)
        ctx.check(not acks0 or acks0[-1][0] == len(ref) or cap, 'bytes written after the last acknowledgement')
        op = 'write' if proc.get('op') != 'any' else ('temp' if fs0.ntemp else 'write')
        nops = fs0.count_ops.get((op, 'out') if op == 'write' else (op, 'temp'), 0)
        if not nops:
            disk = ref
            total = len(model.parse_warc_file(ref, gz))
            continue
        at = int(proc.get('frac', 0)) * nops // 1000
        crash = {'op': op, 'n': at, 'part': max(0, int(proc.get('part', 0))), 'file': 'out.warc' if op == 'write' else ''}
        data, acks, fs, crashed, state = life(ctx, plan, proc, before, n, crash)
        ctx.check(acks == acks0[:len(acks)], 'same history, different acknowledgements')
        if crashed:
            ctx.probe('crash')
            ctx.probe({'pair': 'crash-in-pair', 'record': 'crash-in-record', 'capture': 'crash-in-capture'}.get(state, 'crash-between'))
            if op == 'temp':
                ctx.probe('crash-in-temp')
        acked = acks[-1][0] if acks else len(before)
        k = sum(x for _, x in acks)
        if cap:
            k = len([r for r in model.parse_warc_file(ref, gz) if len(before) < r['end'] <= acked])
        ctx.check(data[:acked] == ref[:acked], 'acknowledged record lost or damaged',
                  lambda: diff_bytes(ref[:acked], data[:acked]))
        ctx.check(ref.startswith(data), 'the tail is not the beginning of the next record',
                  lambda: diff_bytes(ref[:len(data)], data))
        recover(ctx, data, acked, total + k, gz, 40 if cap else 2)
        if len(data) > acked:
            ctx.probe('torn-tail')
        total += k
        disk = data[:acked]


def check_acks(ctx, data, acks, gz, before, cap=False):
    """Each acknowledgement point is the end of complete records, all of them readable."""
    try:
        recs = model.parse_warc_file(data, gz)
    except model.ParseError as e:
        ctx.violate('malformed file', str(e))
    ends = [r['end'] for r in recs]
    base = len([e for e in ends if e <= len(before)])
    for end, k in acks:
        base += k
        if cap:
            # exchanges that did not end well may be recorded too
            here = len([e for e in ends if e <= end])
            ctx.check(here >= base, 'ended exchange not completely handed to the file', lambda: '%d records on disk, want %d' % (here, base))
            ctx.check(end == (ends[here - 1] if here else 0), 'part of a record on disk between exchanges')
            continue
        ctx.check(base <= len(ends) and ends[base - 1] == end,
                  'record not completely handed to the file when its write returned',
                  lambda: '%d bytes on disk, record %d ends at %s' % (end, base, ends[base - 1:base]))


def recover(ctx, data, acked, n, gz, more):
    """What a reader finds after the crash: every acknowledged record."""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    try:
        recs = model.parse_warc_file(data[:acked], gz)
    except model.ParseError as e:
        ctx.violate('acknowledged records malformed', str(e))
    ctx.check(len(recs) == n, 'acknowledged records missing', lambda: 'want %d got %d' % (n, len(recs)))
    got = 0
    with world(ctx, seed=3) as w:
        src = make_input(data, {'mode': 'full', 'tell': 'ok', 'seek': True}, ctx, w.clock)
        try:
            for rec in ArchiveIterator(src):
                body = rec.raw_stream.read()
                if got < n:
                    b = recs[got]['block']
                    ctx.check(b.endswith(body), 'recovered record differs', lambda: short(body))
                    ctx.check(rec.rec_headers.get_header('WARC-Record-ID') == model.hget(recs[got]['headers'], 'WARC-Record-ID'),
                              'recovered record differs')
                got += 1
        except ArchiveLoadFailed:
            pass
    ctx.check(n <= got <= n + more, 'acknowledged records not recovered', lambda: 'acknowledged %d, read %d' % (n, got))
