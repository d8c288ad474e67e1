"""C20: extraction outputs exactly the record at the offset."""
from vsim import model, remote
from vsim.cli import run_cli
from vsim.core import world, short, diff_bytes
from vsim.disk import SimFS
from vsim.output import gen_out, Stdout
from vsim.streams import gen_deliv, make_input

PROP = 'C20'
RUNS = {'quick': 13000, 'thorough': 150000}
RULE = ('One run: records of a generated archive are extracted by their offsets (whole, headers only, decoded payload only) from the simulated disk or a remote file '
        'system under a delivery schedule, sometimes onto a failing output. Non-trivial: more than one record, fragmented delivery, an encoded payload or a fault.')
REAL = ['warcio.extractor', 'warcio.cli', 'warcio.utils', 'warcio.archiveiterator', 'warcio.recordloader', 'warcio.limitreader', 'warcio.bufferedreaders',
        'warcio.statusandheaders', 'fsspec', 'zlib', 'brotli', 'argparse']
STUB = ['disk (SimFS)', 'remote file system (fsspec implementation)', 'stdout, stderr', 'clock', 'entropy']
PROBES = ('whole', 'headers', 'payload', 'arc', 'warc', 'gz', 'plain', 'remote', 'no-fsspec', 'first', 'middle', 'last', 'chunked', 'coded', 'large', 'no-http', 'revisit', 'failing-output',
          'arc-header')
ASSUMPTIONS = ['archives are well formed and the offset is that of a record', 'headers are output in normal form (one line each, UTF-8)', 'the input can be sought']


def gen(rng):
    spec = model.gen_archive(rng, big=0.06, edge=0.2, enc=0.5)
    ar = model.build_archive(spec)
    return {'ar': spec, 'deliv': gen_deliv(rng, len(ar.data), ar.interesting(), seekable=True),
            'x': [[rng.randrange(len(ar.recs)), rng.choice(['whole', 'headers', 'payload', 'payload'])] for _ in range(rng.choice([1, 1, 2, 3]))],
            'src': rng.choice(['disk', 'disk', 'remote']), 'fsspec': int(rng.random() < 0.7), 'bufsize': rng.choice([1, 100, 8192, 8192]), 'out': gen_out(rng)}


def render(protocol, statusline, headers):
    first = (protocol + ' ' + statusline).strip() if statusline else protocol
    return (first + '\r\n' + ''.join('%s: %s\r\n' % h for h in headers)).encode('utf-8') + b'\r\n'


def run(plan, ctx):
    ar = model.build_archive(plan['ar'])
    if not ar.recs:
        return
    d = plan.get('deliv') or {}
    far = plan.get('src') == 'remote'
    fss = bool(plan.get('fsspec', 1)) or far
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 1)), 'deliv': d})
    with world(ctx, seed=1, fs=fs) as w:
        if far:
            ctx.probe('remote')
            name = remote.serve(w, 'in.warc', lambda: make_input(ar.data, dict(d, seek=True), ctx, w.clock))
        else:
            name = '/simdisk/in.warc'
            fs.put(name, ar.data)
        if not fss:
            ctx.probe('no-fsspec')
        if len(ar.recs) > 1 or d.get('mode', 'full') != 'full':
            ctx.nontrivial()
        for x in plan.get('x') or []:
            i, mode = int(x[0]) % len(ar.recs), x[1]
            R = ar.recs[i]
            count(ctx, ar, R, i, mode)
            so = Stdout(plan['out'], ctx) if plan.get('out') else None
            args = ['extract'] + {'headers': ['--headers'], 'payload': ['--payload']}.get(mode, []) + [name, str(R.offset)]
            r = run_cli(args, fsspec=fss, stdout_raw=so.raw if so else None)
            got = so.data() if so else r.out
            ctx.log('exit', mode, r.status, len(got))
            if so and so.fs.fired:
                ctx.probe('failing-output')
            if so and so.failed:
                ctx.check(r.failed, 'the record could not be written and the command reports success')
                continue
            ctx.check(not r.failed, 'extract fails', lambda: '%s: %s %s' % (what(R, i, mode), r.exc, r.err))
            if mode == 'payload':
                ctx.check(got == R.entity if R.rec_type != 'revisit' else got == R.payload, 'wrong payload', lambda: '%s: %s' % (what(R, i, mode), diff_bytes(R.entity, got)))
                continue
            if R.fmt == 'arc':
                # the first line of an ARC record has no protocol of its own
                eol = got.find(b'\r\n') + 2
                head = got[:eol] + render('', '', R.headers)[2:]
            else:
                head = render(R.protocol, '', R.headers)
            if R.http:
                head += render(*R.http) if any(R.http) else b'\r\n'
            want = head if mode == 'headers' else head + R.payload
            ctx.check(got[:len(head)] == head, 'wrong headers', lambda: '%s: %s' % (what(R, i, mode), diff_bytes(head, got[:len(head)])))
            ctx.check(got == want, 'wrong record', lambda: '%s: %s' % (what(R, i, mode), diff_bytes(want, got)))
        ctx.check(not fs.still_open(), 'a file is left open', lambda: repr([x.name for x in fs.still_open()]))


def what(R, i, mode):
    return '%s of record %d (%s at %d)' % (mode, i, R.rec_type, R.offset)


def count(ctx, ar, R, i, mode):
    ctx.probe(mode if mode in PROBES else 'whole')
    ctx.probe(ar.fmt)
    ctx.probe('gz' if ar.gz else 'plain')
    ctx.probe('first' if i == 0 else 'last' if i == len(ar.recs) - 1 else 'middle')
    enc = R.spec.get('enc') or {}
    if R.http and enc.get('te'):
        ctx.probe('chunked')
    if R.http and enc.get('ce'):
        ctx.probe('coded')
        ctx.nontrivial()
    if len(R.payload) > 65536:
        ctx.probe('large')
    if not R.http:
        ctx.probe('no-http')
    if R.rec_type == 'revisit':
        ctx.probe('revisit')
    if R.rec_type == 'arc_header':
        ctx.probe('arc-header')
