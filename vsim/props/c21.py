"""C21: damage stays contained and reading always terminates."""
import random

from vsim import model
from vsim.core import world, short
from vsim.snap import check_head, check_body, read_all
from vsim.streams import gen_deliv, make_input

PROP = 'C21'
RUNS = {'quick': 24000, 'thorough': 320000}
RULE = ('One run: a generated archive whose stored bytes are flipped, inserted, removed, overwritten, '
        'zeroed or shuffled at up to 4 places (as decaying storage or a buggy transfer would), then '
        'read with raw, decoded or digest-checking access under a delivery schedule. Non-trivial: '
        'the bytes really changed.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader',
        'warcio.digestverifyingreader', 'warcio.statusandheaders', 'warcio.timeutils', 'zlib', 'brotli']
STUB = ['input stream (SimInput) with damaged storage', 'clock', 'entropy']
PROBES = ('flip', 'insert', 'delete', 'overwrite', 'zero', 'dup', 'line', 'load-failed', 'ended', 'records-before', 'more-records', 'arc', 'warc', 'gz', 'plain',
          'decoded', 'digests', 'arc2warc', 'garbage')
ASSUMPTIONS = ['the work bound is 2000 source lines of the library per input byte plus 200000']
TOKENS = [b'Content-Length: 999999999\r\n', b'Content-Length: -5\r\n', b'Content-Length: x\r\n', b'WARC/1.0\r\n', b'\r\n\r\n', b'\r\n', b'\n', b' ', b':',
          b'\x1f\x8b\x08\0\0\0\0\0\0\x03', b'\xff\xfe', b'Transfer-Encoding: chunked\r\n', b'Content-Encoding: gzip\r\n', b'Content-Encoding: br\r\n',
          b'ffffffff\r\n', b'0\r\n', b'-5\r\n', b'http://a/ 1.1.1.1 2020 text/html 5\n', b'filedesc://x 1 2 3 4\n', b'WARC-Block-Digest: sha1:@@@\r\n',
          b'WARC-Payload-Digest: nope\r\n', b'WARC-Block-Digest: foo:AAAA\r\n', b'WARC-Target-URI: \r\n', b'WARC-Type: response\r\n', b'\xc3\x28', b'\0',
          b'WARC-Block-Digest: shake_128:AAAA\r\n', b'WARC-Payload-Digest: shake_256:AAAA\r\n', b'WARC-Block-Digest: sh\0:AAAA\r\n',
          b'WARC-Payload-Digest: :\r\n', b'WARC-Block-Digest: sha1:AAA=A\xff\r\n', b'WARC-Segment-Number: x\r\n', b'Content-Length: 0\r\n',
          b'Content-Length: 1_0\r\n', b'Content-Length: 99999999999999999999999\r\n', b'Content-Type: application/http\r\n',
          b'WARC-Date: x\r\n', b'WARC-Type: \r\n', b'WARC-Type: revisit\r\n', b'Content-Encoding: deflate\r\n', b'HTTP/1.1\r\n',
          b'0x5\r\n', b'fffffffffffffffffffff\r\n', b' folded\r\n', b'\x1f\x8b', b'\x78\x9c', b'\x85\xe2\x80\xa8']


def gen(rng):
    spec = model.gen_archive(rng, nrec=rng.choice([1, 2, 3, 4]), big=0.002, edge=0.05, enc=0.5)
    ar = model.build_archive(spec)
    n = len(ar.data)
    muts = []
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        at = rng.randint(0, n) if rng.random() < 0.5 else max(0, min(n, rng.choice(ar.interesting()) + rng.randint(-20, 60)))
        muts.append([rng.choice(['flip', 'flip', 'insert', 'delete', 'overwrite', 'token', 'tokover', 'zero', 'dup', 'line', 'line']), at,
                     rng.choice([1, 1, 2, 5, 20, 200]), rng.randrange(1 << 20)])
    return {'ar': spec, 'muts': muts, 'deliv': gen_deliv(rng, n, ar.interesting()), 'mode': rng.choice(['raw', 'dec', 'dec', 'skip', 'line']),
            'dig': rng.random() < 0.3, 'a2w': rng.random() < 0.4, 'norec': rng.random() < 0.1, 'off': rng.random() < 0.3, 'ens': rng.random() < 0.2,
 'garbage': rng.choice([0] * 12 + [1, 40, 3000]), 'rs': rng.choice([0, 1, 100, 70000])}


def damage(data, muts):
    """-> damaged bytes, position of the first change (None if unchanged)"""
    orig = data
    first = None
    d = bytearray(data)
    for m in muts:
        if not isinstance(m, list) or len(m) < 4:
            continue
        k, at, n, s = m
        rng = random.Random(s)
        at = max(0, min(len(d), at))
        n = max(1, n)
        before = bytes(d)
        if k == 'flip':
            for j in range(min(n, 5)):
                if at + j < len(d):
                    d[at + j] ^= 1 << rng.randrange(8)
        elif k == 'insert':
            d[at:at] = rng.randbytes(n)
        elif k == 'delete':
            del d[at:at + n]
        elif k == 'overwrite':
            d[at:at + n] = rng.randbytes(len(d[at:at + n]))
        elif k == 'token':
            d[at:at] = TOKENS[s % len(TOKENS)]
        elif k == 'line':
            # before the next line
            j = d.find(b'\n', at) + 1
            d[j:j] = TOKENS[s % len(TOKENS)]
        elif k == 'tokover':
            t = TOKENS[s % len(TOKENS)]
            d[at:at + len(t)] = t
        elif k == 'zero':
            d[at:at + n] = b'\0' * len(d[at:at + n])
        elif k == 'dup':
            d[at:at] = d[max(0, at - n):at]
    d = bytes(d)
    if d == orig:
        return d, None
    m = min(len(d), len(orig))
    first = next((i for i in range(m) if d[i] != orig[i]), m)
    return d, first


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    ar = model.build_archive(plan['ar'])
    data, first = damage(ar.data, plan.get('muts') or [])
    g = plan.get('garbage') or 0
    if g:
        data = random.Random(g + len(data)).randbytes(g)
        first = 0
        ctx.probe('garbage')
    if first is not None:
        ctx.fault('damaged-storage')
        for m in plan.get('muts') or []:
            if m:
                ctx.probe({'token': 'insert', 'tokover': 'overwrite'}.get(m[0], m[0]))
    # records complete before the first changed byte (what follows them is theirs only up to there)
    safe = [R for R in ar.recs if first is None or R.offset + R.length <= first]
    a2w, norec = bool(plan.get('a2w')), bool(plan.get('norec'))
    ctx.probe(ar.fmt)
    ctx.probe('gz' if ar.gz else 'plain')
    if a2w:
        ctx.probe('arc2warc')
    if plan.get('dig'):
        ctx.probe('digests')
    n = 0
    with world(ctx, seed=1) as w:
        src = make_input(data, plan['deliv'], ctx, w.clock)
        mode = plan.get('mode')
        try:
            it = ArchiveIterator(src, no_record_parse=norec, arc2warc=a2w, check_digests='log' if plan.get('dig') else False,
                                 ensure_http_headers=bool(plan.get('ens')))
            for rec in it:
                ctx.log('rec', n)
                ctx.check(n <= len(data) // 2 + 2, 'more records than bytes')
                if n < len(safe) and not plan.get('ens'):
                    R = safe[n]
                    check_head(ctx, R, rec, a2w, norec, 'record %d: ' % n)
                if mode == 'raw':
                    got = read_all(rec.raw_stream, plan.get('rs') or 0)
                    if n < len(safe):
                        check_body(ctx, R.block if norec else R.payload, got, 'record %d: ' % n) if not plan.get('ens') else None
                elif mode == 'dec':
                    ctx.probe('decoded')
                    got = read_all(rec.content_stream(), plan.get('rs') or 0)
                    if n < len(safe) and not norec and not plan.get('ens'):
                        check_body(ctx, R.entity, got, 'record %d: ' % n)
                elif mode == 'line':
                    k = 0
                    while rec.raw_stream.readline():
                        k += 1
                        ctx.check(k <= len(data) * 1100 + 10, 'stream does not end')
                if plan.get('off'):
                    o, ln = it.get_record_offset(), it.get_record_length()
                    if n < len(safe):
                        ctx.check(o == safe[n].offset, 'wrong offset', lambda: 'record %d: %r want %d' % (n, o, safe[n].offset))
                n += 1
            ctx.probe('ended')
        except ArchiveLoadFailed as e:
            ctx.probe('load-failed')
            ctx.log('load failed')
        if n:
            ctx.probe('records-before')
        if n > len(safe):
            ctx.probe('more-records')
        ctx.check(n >= len(safe), 'records before the damage missing', lambda: 'want at least %d got %d, first change at %r' % (len(safe), n, first))
