"""C27: records are handed out as soon as their bytes have arrived."""
import random
import zlib

from vsim import model
from vsim.core import world, short
from vsim.snap import check_head, check_body, body_of
from vsim.streams import gen_deliv, SimInput, TellInput

PROP = 'C27'
RUNS = {'quick': 14000, 'thorough': 150000}
RULE = ('One run: a generated WARC or ARC (plain or gzip per record) that arrives piece by piece (a pipe or socket that is still being written) is '
        'iterated and its records read with sized reads and line reads; every request for more input is compared with what had arrived. '
        'Non-trivial: more than one piece.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader', 'warcio.digestverifyingreader', 'warcio.statusandheaders', 'zlib']
STUB = ['input stream (SimInput)', 'clock', 'entropy']
PROBES = ('arc', 'warc', 'gz', 'plain', 'yielded-before-its-end', 'yielded-at-once', 'read', 'line', 'read-to-end', 'skipped', 'digests', 'arc2warc', 'no-parse', 'piece-ends-at-header', 'piece-ends-at-record')
ASSUMPTIONS = ['archives are well formed', 'compressed data has arrived when the decompressor can produce it',
               'asking for the offset or length of a record waits for its end; the content stream waits for whole chunks']


class Live(TellInput):
    """Remembers where each request for more input was made."""
    def __init__(self, *a, **k):
        TellInput.__init__(self, *a, **k)
        self.asked = []

    def read(self, n=-1):
        self.asked.append(self.pos)
        return TellInput.read(self, n)


class LiveNoTell(Live):
    tell = property()


def gen(rng):
    spec = model.gen_archive(rng, big=0.02, edge=0.2)
    ar = model.build_archive(spec)
    d = gen_deliv(rng, len(ar.data), ar.interesting())
    if rng.random() < 0.4:
        # pieces end exactly where something is complete
        pts = set()
        for i, R in enumerate(ar.recs):
            if rng.random() < 0.7:
                pts.add(need(ar, i, len(R.head) + len(R.http_raw)))
            if rng.random() < 0.5:
                pts.add(need(ar, i, len(R.head) + len(R.block)))
            if rng.random() < 0.5:
                pts.add(need(ar, i, len(R.head) + len(R.http_raw) + rng.randint(0, len(R.payload))))
        d = dict(d, mode='cuts', cuts=sorted(pts))
    return {'ar': spec, 'deliv': d, 'hist': rng.randrange(1 << 20), 'a2w': int(rng.random() < 0.15), 'dig': int(rng.random() < 0.2),
            'norec': int(rng.random() < 0.15), 'block': rng.choice([16384, 16384, 100, 65536, 1 << 20])}


def need(ar, i, n):
    """How many stored bytes must have arrived so that n bytes of record i are known."""
    R = ar.recs[i]
    if not ar.gz:
        return R.offset + n
    if n <= 0:
        return R.offset
    lo, hi = 0, len(R.stored)
    while lo < hi:
        mid = (lo + hi) // 2
        try:
            k = len(zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(R.stored[:mid]))
        except zlib.error:
            k = -1
        if k >= n:
            hi = mid
        else:
            lo = mid + 1
    return R.offset + lo


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    ar = model.build_archive(plan['ar'])
    d = plan.get('deliv') or {}
    a2w, norec = bool(plan.get('a2w')), bool(plan.get('norec'))
    ctx.probe(ar.fmt)
    ctx.probe('gz' if ar.gz else 'plain')
    for k, name in (('dig', 'digests'), ('a2w', 'arc2warc'), ('norec', 'no-parse')):
        if plan.get(k):
            ctx.probe(name)
    rng = random.Random(plan.get('hist', 0))
    cuts = set(d.get('cuts') or []) if d.get('mode') == 'cuts' else set()
    with world(ctx, seed=1) as w:
        src = (Live if d.get('tell') == 'ok' else LiveNoTell)(ar.data, d, ctx, w.clock)
        it = ArchiveIterator(src, arc2warc=a2w, no_record_parse=norec, block_size=max(1, int(plan.get('block') or 1)), check_digests=bool(plan.get('dig')))
        for i, R in enumerate(ar.recs):
            what = 'record %d: ' % i
            n0 = len(src.asked)
            rec = next(it, None)
            ctx.check(rec is not None, 'records missing', lambda: 'want %d got %d' % (len(ar.recs), i))
            check_head(ctx, R, rec, a2w, norec, what)
            head = len(R.head) + (0 if norec else len(R.http_raw))
            prompt(ctx, src, n0, need(ar, i, head), what + 'record')
            if len(src.asked) == n0:
                ctx.probe('yielded-at-once')
            if src.pos < R.offset + R.length:
                ctx.probe('yielded-before-its-end')
            if src.pos in cuts:
                ctx.probe('piece-ends-at-header')
            body = body_of(R, norec)
            pos = 0
            if rng.random() < 0.3:
                ctx.probe('skipped')
                continue
            for _ in range(rng.choice([1, 1, 2, 4, 8])):
                n = rng.choice([1, 2, 7, 100, 1000, 16384, None, max(1, len(body) - pos), len(body)])
                if n == 0:
                    continue
                n0 = len(src.asked)
                if rng.random() < 0.3:
                    ctx.probe('line')
                    e = body.find(b'\n', pos)
                    e = len(body) if e < 0 else e + 1
                    want = body[pos:e][:n]
                    got = rec.raw_stream.readline(*([] if n is None else [n]))
                else:
                    ctx.probe('read')
                    want = body[pos:][:n]
                    got = rec.raw_stream.read(*([] if n is None else [n]))
                check_body(ctx, want, got, what)
                pos += len(got)
                prompt(ctx, src, n0, need(ar, i, head + pos), what + 'read(%s) at %d' % (n, pos - len(got)))
            if pos == len(body):
                ctx.probe('read-to-end')
                if src.pos in cuts:
                    ctx.probe('piece-ends-at-record')
        ctx.check(next(it, None) is None, 'extra record')
        if src.reads > 2:
            ctx.nontrivial()


def prompt(ctx, src, n0, n, what):
    """No request for more input after the first n bytes had arrived."""
    late = [p for p in src.asked[n0:] if p >= n]
    ctx.check(not late, 'more input is waited for than needed', lambda: '%s: known after %d bytes, asked for more at %s' % (what, n, late[:3]))
