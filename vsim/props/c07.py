"""C07: what is written is what is read back."""
from vsim import model, wsim
from vsim.core import world, short, diff_bytes
from vsim.disk import SimFS
from vsim.snap import read_all, headers_of
from vsim.streams import gen_deliv, make_input

PROP = 'C07'
RUNS = {'quick': 20000, 'thorough': 160000}
RULE = ('One run: a random sequence of records (created from objects, buffers, streams of known or unknown '
        'length that deliver in fragments and may not seek, parsed HTTP messages, revisits, warcinfo, '
        'pairs, copies from another archive) written by one writer to a simulated disk, then read back '
        'with ArchiveIterator under a delivery schedule. Non-trivial: a fragmented or non-seekable source, '
        'a copy or a pair.')
REAL = ['warcio.warcwriter', 'warcio.recordbuilder', 'warcio.statusandheaders', 'warcio.archiveiterator',
        'warcio.recordloader', 'warcio.limitreader', 'warcio.bufferedreaders', 'io buffers', 'zlib', 'tempfile.SpooledTemporaryFile']
STUB = ['disk (SimFS)', 'payload sources (SimInput)', 'clock', 'entropy']
PROBES = ('edited-http-headers', 'edited-record-headers', 'shared-http-object', 'warcinfo', 'revisit', 'pair', 'copied', 'http-from-payload', 'http-object', 'length-known', 'length-unknown',
          'source-nonseek', 'source-seek', 'source-tell-raises', 'gzip', 'plain', 'v1.1', 'header-filter', 'non-ascii-http',
          'spooled-to-disk', 'buffer-writer')
ASSUMPTIONS = ['a declared length is the true length of the payload', 'copied records are complete',
               'a revisit record with HTTP headers has no payload (the writer writes only the headers)',
               'HTTP headers outside ASCII are written percent-encoded (documented)']


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 6])
    recs = [wsim.gen_wrec(rng) for _ in range(n)]
    return {'recs': recs, 'gz': rng.randrange(2), 'ver': rng.choice([None, '1.0', '1.1', 'WARC/1.1', '1.0']),
            'wfrag': rng.choice([None, None, {'s': rng.randrange(1 << 20), 'hi': rng.choice([1, 10, 1000])}]),
            'filt': int(rng.random() < 0.15), 'bufsize': rng.choice([8192, 8192, 1, 100, 16384]),
            'buf': int(rng.random() < 0.2), 'lat': rng.choice([0, 1000, 2000000]),
            'deliv': gen_deliv(rng, 3000), 'block': rng.choice([16384, 16384, 50, 1000]), 'a2w': rng.randrange(2),
            'tick': rng.choice([0, 0, 700000])}


def write_all(ctx, w, writer, plan, faults=()):
    exps = []
    for i, spec in enumerate(plan.get('recs') or []):
        if not isinstance(spec, dict):
            continue
        if spec.get('op') in ('copy', 'pair') or (spec.get('src') or {}).get('k') not in (None, 'bytes'):
            ctx.nontrivial()
        made = wsim.create(ctx, w, writer, spec, i, faults)
        w.clock.advance(plan.get('lat', 0))
        if spec.get('op') == 'pair':
            writer.write_request_response_pair(made[1][0], made[0][0])
        else:
            for rec, e in made:
                writer.write_record(rec)
        exps += [e for rec, e in made]
        ctx.log('wrote', spec.get('op'), len(made))
    return exps


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    fs = SimFS({'bufsize': plan.get('bufsize', 8192), 'lat': 3, 'wfrag': plan.get('wfrag')})
    with world(ctx, seed=1, fs=fs) as w:
        w.clock.tick = max(0, int(plan.get('tick') or 0))
        fs.attach(w, ctx)
        filt = wsim.header_filter if plan.get('filt') else None
        ctx.probe('gzip' if plan.get('gz') else 'plain')
        if filt:
            ctx.probe('header-filter')
        if '1.1' in str(plan.get('ver')):
            ctx.probe('v1.1')
        kw = dict(gzip=bool(plan.get('gz')), warc_version=plan.get('ver'), header_filter=filt)
        if plan.get('buf'):
            ctx.probe('buffer-writer')
            writer = BufferWARCWriter(**kw)
            exps = write_all(ctx, w, writer, plan)
            data = writer.get_contents()
        else:
            with open('/simdisk/out.warc', 'wb') as fh:
                writer = WARCWriter(fh, **kw)
                exps = write_all(ctx, w, writer, plan)
            data = fs.get('/simdisk/out.warc')
        if fs.ntemp:
            ctx.probe('spooled-to-disk')
        d = dict(plan['deliv'])
        if len(data) > 60000 and d.get('mode') != 'full':
            d = {'mode': 'fix', 'n': 5000, 'tell': d.get('tell', 'ok'), 'seek': d.get('seek')}
        src = make_input(data, d, ctx, w.clock)
        block = max(1, plan.get('block') or 1)
        it = ArchiveIterator(src, block_size=block if len(data) < 60000 else 16384, arc2warc=bool(plan.get('a2w')), check_digests='log')
        n = 0
        for rec in it:
            ctx.check(n < len(exps), 'extra record', lambda: short(rec.rec_headers.headers))
            compare(ctx, exps[n], rec, filt, 'record %d (%s): ' % (n, exps[n].typ), exps)
            n += 1
        ctx.check(n == len(exps), 'records missing', lambda: 'wrote %d read %d' % (len(exps), n))


def compare(ctx, e, rec, filt, what, exps):
    got = [(str(k), v) for k, v in rec.rec_headers.headers]
    ctx.check(rec.rec_type == e.typ, 'wrong type', lambda: '%sgot %r' % (what, rec.rec_type))
    ctx.check(rec.rec_headers.protocol == e.ver, 'wrong version', lambda: '%swant %r got %r' % (what, e.ver, rec.rec_headers.protocol))
    h = headers_of(rec.http_headers)
    wsim.check_http(ctx, e, h, filt, what)
    if e.http and not all(wsim.is_ascii(x) for x in [e.http[1]] + [v for k, v in e.http[2]]):
        ctx.probe('non-ascii-http')
    body = read_all(rec.raw_stream)
    ctx.check(body == e.payload, 'wrong payload', lambda: what + diff_bytes(e.payload, body))
    if e.copy is not None:
        skip = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
        g = [(k, v) for k, v in got if k.lower() not in skip]
        ctx.check(g == e.headers, 'wrong record headers', lambda: '%swant %s got %s' % (what, short(e.headers), short(g)))
        src = dict((k.lower(), v) for k, v in e.copy.headers)
        if 'content-type' in src:
            ctx.check(model.hall(got, 'content-type') == [src['content-type']], 'wrong content type', lambda: what + repr(got))
        if 'warc-payload-digest' in src:
            ctx.check(model.hall(got, 'warc-payload-digest') == [src['warc-payload-digest']], 'payload digest changed', what)
    else:
        ctx.check(model.hall(got, 'WARC-Target-URI') == ([e.uri] if e.uri else []), 'wrong target uri', lambda: what + repr(got))
        ctx.check(wsim.subsequence(e.headers, got) or all(x in got for x in e.headers), 'wrong record headers',
                  lambda: '%swant %s in %s' % (what, short(e.headers), short(got)))
        if e.id:
            ctx.check(model.hall(got, 'WARC-Record-ID') == [e.id], 'supplied id not kept', what)
        if e.date and e.pair is None:
            ctx.check(model.hall(got, 'WARC-Date') == [e.date], 'supplied date not kept', what)
        e.got_date = model.hall(got, 'WARC-Date')
        if e.pair is not None:
            # written after the response
            ctx.check(e.got_date == e.pair.got_date, 'request of a pair has another date', lambda: '%sgot %r not %r' % (what, e.got_date, e.pair.got_date))
        if e.ct:
            ctx.check(model.hall(got, 'Content-Type') == [e.ct], 'wrong content type', lambda: '%swant %r: %r' % (what, e.ct, got))
    ctx.check(rec.digest_checker.passed is not False, 'written record fails its digests',
              lambda: what + repr(rec.digest_checker.problems))
