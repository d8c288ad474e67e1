"""C05: a torn archive still yields every complete record."""
from vsim import model
from vsim.core import world, short, diff_bytes
from vsim.snap import check_head, check_body, read_all
from vsim.streams import gen_deliv, make_input

PROP = 'C05'
RUNS = {'quick': 24000, 'thorough': 280000}
RULE = ('One run: a generated archive torn at a byte (biased to header, member and block boundaries) '
        'and read under a delivery schedule. Non-trivial: the tear falls inside the archive.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader',
        'warcio.statusandheaders', 'zlib', 'brotli']
STUB = ['input stream (SimInput)', 'crashed writer (the tear)', 'clock', 'entropy']
PROBES = ('in-record-header', 'in-http-header', 'in-payload', 'in-separator', 'in-gzip-header', 'in-gzip-trailer', 'in-gzip-body',
          'at-boundary', 'load-failed', 'truncated-record', 'arc', 'warc', 'empty', 'arc2warc', 'decoded')
ASSUMPTIONS = ['the archive was well formed before it was torn']


def gen(rng):
    spec = model.gen_archive(rng, nrec=rng.choice([1, 1, 2, 3, 4]), big=0.005, edge=0.1)
    ar = model.build_archive(spec)
    n = len(ar.data)
    if rng.random() < 0.6:
        cut = rng.choice(ar.interesting()) + rng.randint(-12, 12)
        cut = max(0, min(n, cut))
    else:
        cut = rng.randint(0, n)
    return {'ar': spec, 'cut': cut, 'deliv': gen_deliv(rng, cut, [cut] + ar.interesting()),
            'a2w': rng.random() < 0.3, 'norec': rng.random() < 0.15, 'dec': rng.random() < 0.3,
            'block': rng.choice([16384, 16384, 3, 50, 1000]) if n < 30000 else 16384,
            'rs': rng.choice([0, 1, 100, 70000]), 'off': rng.random() < 0.3}


def where(ar, cut):
    for R in ar.recs:
        if cut < R.offset:
            return 'in-separator'
        if cut == R.offset:
            return 'at-boundary'
        if cut < R.offset + R.length:
            o = cut - R.offset
            if ar.gz:
                return 'in-gzip-header' if o < 10 else 'in-gzip-trailer' if R.length - o <= 8 else 'in-gzip-body'
            if o < len(R.head):
                return 'in-record-header'
            if o < len(R.head) + len(R.http_raw):
                return 'in-http-header'
            return 'in-payload'
    return 'in-separator' if cut < len(ar.data) else 'at-boundary'


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    ar = model.build_archive(plan['ar'])
    cut = max(0, min(len(ar.data), plan['cut']))
    complete = [R for R in ar.recs if R.offset + R.length <= cut]
    torn = [R for R in ar.recs if R.offset < cut < R.offset + R.length]
    ctx.fault('torn-archive')
    if not (0 < cut < len(ar.data)):
        ctx.nontriv = False
    ctx.probe(where(ar, cut))
    ctx.probe(ar.fmt)
    if not cut:
        ctx.probe('empty')
    a2w, norec = bool(plan.get('a2w')), bool(plan.get('norec'))
    if a2w and ar.fmt == 'arc':
        ctx.probe('arc2warc')
    with world(ctx, seed=1) as w:
        src = make_input(ar.data[:cut], plan['deliv'], ctx, w.clock)
        it = ArchiveIterator(src, no_record_parse=norec, arc2warc=a2w, block_size=max(1, plan.get('block') or 1))
        n = 0
        extra = 0
        try:
            for rec in it:
                if n < len(complete):
                    R = complete[n]
                    check_head(ctx, R, rec, a2w, norec, 'record %d: ' % n)
                    if plan.get('dec') and not norec:
                        got, want = read_all(rec.content_stream(), plan.get('rs') or 0), R.entity
                        ctx.probe('decoded')
                    else:
                        got, want = read_all(rec.raw_stream, plan.get('rs') or 0), (R.block if norec else R.payload)
                    check_body(ctx, want, got, 'complete record %d: ' % n)
                    if plan.get('off'):
                        o = it.get_record_offset()
                        ctx.check(o == R.offset, 'wrong offset', lambda: 'record %d: %r want %d' % (n, o, R.offset))
                else:
                    extra += 1
                    ctx.check(extra == 1 and torn, 'invented record', lambda: 'record %d %s' % (n, short(rec.rec_headers.headers)))
                    ctx.probe('truncated-record')
                    R = torn[0]
                    check_partial(ctx, R, rec, a2w)
                    if plan.get('dec') and not norec:
                        got = read_all(rec.content_stream(), plan.get('rs') or 0)
                        e = R.spec.get('enc') or {}
                        # chunk framing and compression may themselves be cut
                        ok = R.entity.startswith(got) or R.payload.startswith(got) or e
                    else:
                        got = read_all(rec.raw_stream, plan.get('rs') or 0)
                        ok = R.payload.startswith(got) if rec.http_headers else (R.block.startswith(got) or R.payload.startswith(got))
                    ctx.check(ok, 'truncated record holds foreign data', lambda: diff_bytes(R.payload, got))
                    if plan.get('off'):
                        o = it.get_record_offset()
                        ctx.check(o == R.offset, 'wrong offset', lambda: 'torn record: %r want %d' % (o, R.offset))
                ctx.log('rec', n, rec.rec_type, len(got))
                n += 1
        except ArchiveLoadFailed as e:
            ctx.probe('load-failed')
            ctx.log('load failed')
            ctx.check(n >= len(complete), 'archive-loading error before the tear', lambda: '%d of %d complete records: %r' % (n, len(complete), e))
            ctx.check(torn, 'archive-loading error although no record is torn', lambda: repr(e))
        ctx.check(n >= len(complete), 'complete records missing', lambda: 'want %d got %d' % (len(complete), n))


def check_partial(ctx, R, rec, a2w):
    """Headers of the torn record: a prefix of the stored ones."""
    got = [(str(k), v) for k, v in rec.rec_headers.headers]
    if R.fmt == 'arc':
        if a2w:
            got = [(k, v) for k, v in got if k not in ('WARC-Type', 'WARC-Record-ID', 'Content-Length')]
            ctx.check(len(got) == len(R.w2[1]), 'invented headers', lambda: short(got))
        return
    compare_prefix(ctx, R.headers, got)
    if rec.http_headers is not None and R.http is not None:
        compare_prefix(ctx, R.http[2], [(str(k), v) for k, v in rec.http_headers.headers])
    elif rec.http_headers is not None:
        ctx.violate('invented http headers', short(rec.http_headers.headers))


def compare_prefix(ctx, want, got):
    ctx.check(len(got) <= len(want), 'invented headers', lambda: 'want %s got %s' % (short(want), short(got)))
    for i, (k, v) in enumerate(got):
        if (k, v) == want[i]:
            continue
        last = i == len(got) - 1
        wk, wv = want[i]
        ascii_ok = all(ord(c) < 128 for c in wv)
        if last and k == wk and (wv.startswith(v.rstrip()) or not ascii_ok):
            continue
        # <uri> cut before its end
        if last and k == wk and k.lower() == 'warc-target-uri' and v.startswith('<') and wv.startswith(v[1:].rstrip()):
            continue
        # a name cut inside is no header at all; a non-header line may be cut into one
        if last and not ascii_ok:
            continue
        ctx.violate('wrong header in truncated record', 'want %s got %s' % (short(want[i]), short((k, v))))
