"""C02: record boundaries survive every way of consuming the records."""
from vsim import model
from vsim.core import world, short, diff_bytes
from vsim.snap import check_head
from vsim.streams import gen_deliv, make_input

PROP = 'C02'
RUNS = {'quick': 14000, 'thorough': 240000}
RULE = ('One run: a generated archive iterated while each record is consumed by a random history of '
        'raw reads, line reads, decoded reads, over-reads, offset/length queries and skips, under a '
        'random delivery schedule. Non-trivial: at least one record is only partly consumed or '
        'consumed in mixed ways.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader',
        'warcio.digestverifyingreader', 'warcio.statusandheaders', 'zlib', 'brotli']
STUB = ['input stream (SimInput)', 'clock', 'entropy']
PROBES = ('skip', 'partial', 'over-read', 'line', 'decoded', 'decoded-partial', 'offset-midway', 'read-to-end', 'old-record-read',
          'negative-size', 'digests', 'verify-http', 'chunked', 'adversarial-payload')
ASSUMPTIONS = ['archives are well formed']
SIZES = [None, -1, 0, 1, 2, 10, 64, 1000, 16384, 16385, 100000]


def gen_ops(rng):
    r = rng.random()
    if r < 0.15:
        return []
    ops = []
    for _ in range(rng.randint(1, 7)):
        ops.append([rng.choice(['r', 'r', 'r', 'l', 'l', 'l', 'd', 'd', 'D', 'o', 'n', 'e', 'L']), rng.choice(SIZES)])
    return ops


def gen(rng):
    spec = model.add_mixed(rng, model.gen_archive(rng, nrec=rng.choice([2, 3, 3, 4, 6]), big=0.01, edge=0.12))
    ar = model.build_archive(spec)
    return {'ar': spec, 'deliv': gen_deliv(rng, len(ar.data), ar.interesting()),
            'ops': [gen_ops(rng) for _ in spec['recs']], 'norec': rng.random() < 0.15,
            'block': rng.choice([16384, 16384, 3, 50, 1000]) if len(ar.data) < 30000 else 16384,
            'dig': rng.random() < 0.4, 'a2w': rng.random() < 0.2, 'old': rng.random() < 0.5, 'vh': rng.random() < 0.3}


VERBS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH')


def standard(R):
    if not R.http:
        return True
    return R.http[0] in (VERBS if R.rec_type == 'request' else ('HTTP/1.0', 'HTTP/1.1'))


def consume(ctx, it, rec, want, entity, ops, encoded):
    """Apply ops to one record; every raw byte must be the record's own, in order."""
    pos = 0
    exact = True        # raw position known
    dec = None
    dfrom = False
    dpos = 0
    ended = False
    for op in ops:
        if not op:
            continue
        k, n = op[0], (op[1] if len(op) > 1 else None)
        if n is not None and n < 0:
            ctx.probe('negative-size')
        if k in 'rlL':
            left = len(want) - pos
            lim = left if n is None or n < 0 else min(n, left)
            st = rec.raw_stream
            dfrom = False       # raw bytes taken under a decoder leave its position undefined
            if k == 'r':
                b = st.read() if n is None else st.read(n)
                w = want[pos:pos + lim]
            else:
                ctx.probe('line')
                b = st.readline() if n is None else st.readline(n)
                e = want.find(b'\n', pos, pos + lim)
                w = want[pos:(e + 1 if e >= 0 else pos + lim)]
            ctx.log(k, n, len(b))
            if ended:
                ctx.check(b == b'', 'bytes after the end of the record', lambda: short(b))
            elif exact:
                if n is not None and n > left:
                    ctx.probe('over-read')
                ctx.check(b == w, 'wrong bytes', lambda: '%s(%r) at %d of %d: %s' % (k, n, pos, len(want), diff_bytes(w, b)))
                pos += len(b)
            else:
                # after decoded reading the raw position is the decoder's affair: only own bytes
                ctx.check(len(b) <= len(want) and bytes(b) in want, 'foreign bytes', lambda: short(b))
        elif k in 'dD':
            ctx.probe('decoded')
            if dec is None:
                dec = rec.content_stream()
                if encoded:
                    dfrom = exact and pos == 0 and not ended
                    exact = False
                else:
                    dpos = pos
                    dfrom = exact and not ended
            if k == 'd':
                b = dec.read() if n is None else dec.read(n)
            else:
                b = dec.readline() if n is None else dec.readline(n)
            ctx.log(k, n, len(b))
            if not encoded:
                dpos = pos
                if ended:
                    ctx.check(b == b'', 'bytes after the end of the record', lambda: short(b))
                elif exact:
                    ctx.check(want[pos:pos + len(b)] == b, 'wrong bytes', lambda: 'decoded at %d %s' % (pos, short(b)))
                    pos += len(b)
            elif dfrom and not ended:
                ctx.check(entity[dpos:dpos + len(b)] == b, 'wrong decoded bytes',
                          lambda: 'at %d of %d: %s' % (dpos, len(entity), diff_bytes(entity[dpos:dpos + len(b)], b)))
                dpos += len(b)
                if dpos < len(entity):
                    ctx.probe('decoded-partial')
        elif k == 'o':
            it.get_record_offset()
            ctx.probe('offset-midway')
            ended = True
        elif k == 'n':
            it.get_record_length()
            ended = True
        elif k == 'e':
            it.read_to_end(rec)
            ctx.probe('read-to-end')
            ended = True
    if not ops:
        ctx.probe('skip')
    elif pos < len(want):
        ctx.probe('partial')


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    ar = model.build_archive(plan['ar'])
    with world(ctx, seed=1) as w:
        src = make_input(ar.data, plan['deliv'], ctx, w.clock)
        norec, a2w = bool(plan.get('norec')), bool(plan.get('a2w')) or ar.mixed
        if plan.get('dig'):
            ctx.probe('digests')
        # every HTTP message begins as the standard says
        vh = bool(plan.get('vh')) and all(standard(R) for R in ar.recs)
        if vh:
            ctx.probe('verify-http')
        it = ArchiveIterator(src, no_record_parse=norec, check_digests='log' if plan.get('dig') else False,
                             arc2warc=a2w, block_size=max(1, plan.get('block') or 1), verify_http=vh)
        n = 0
        old = []
        allops = plan.get('ops') or []
        for rec in it:
            ctx.check(n < len(ar.recs), 'extra record', lambda: '#%d %s' % (n, short(rec.rec_headers.headers)))
            R = ar.recs[n]
            ctx.log('rec', n, rec.rec_type)
            check_head(ctx, R, rec, a2w, norec, 'record %d: ' % n)
            want = R.block if norec else R.payload
            if R.http and not norec:
                ctx.check(rec.payload_length == len(R.payload) or not R.block, 'wrong payload_length',
                          lambda: '%r want %d' % (rec.payload_length, len(R.payload)))
            ctx.check(rec.length == len(R.block), 'wrong length', lambda: '%r want %d' % (rec.length, len(R.block)))
            enc = (R.spec.get('enc') or {}) if R.http and not norec else {}
            if 'te' in enc:
                ctx.probe('chunked')
            if (R.spec.get('body') or {}).get('k') in ('warcish', 'gzish', 'crlf') and len(want) > 20:
                ctx.probe('adversarial-payload')
            ops = allops[n] if n < len(allops) and isinstance(allops[n], list) else []
            if plan.get('old'):
                for o in old:
                    ctx.probe('old-record-read')
                    b = o.raw_stream.read(10)
                    ctx.check(b == b'', 'earlier record yields bytes after its turn', lambda: short(b))
            if ops:
                ctx.nontrivial()
            consume(ctx, it, rec, want, R.entity, ops, bool(enc))
            old.append(rec)
            n += 1
        ctx.check(n == len(ar.recs), 'records missing', lambda: 'want %d got %d' % (len(ar.recs), n))
        for o in old:
            b = o.raw_stream.read(10)
            ctx.check(b == b'', 'earlier record yields bytes after its turn', lambda: short(b))
        ctx.check(it.err_count == 0, 'framing error reported on a well-formed archive')
