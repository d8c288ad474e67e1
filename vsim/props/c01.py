"""C01: reading does not depend on how the bytes arrive."""
from vsim import model
from vsim.core import world, short
from vsim.snap import check_head, check_body, read_all, body_of
from vsim.streams import gen_deliv, make_input

PROP = 'C01'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('One run: a generated WARC or ARC (1-8 records, plain or gzip per record) read through '
        'ArchiveIterator under a delivery schedule, block size and stream capability drawn from the '
        'seed. Non-trivial: the input arrived in more than one read.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader',
        'warcio.statusandheaders', 'warcio.timeutils', 'zlib']
STUB = ['input stream (SimInput: delivery schedule, tell/seek capability)', 'clock', 'entropy']
PROBES = ('arc', 'warc', 'gz', 'plain', 'arc2warc', 'mixed-kinds', 'blank-lines-in-next-member', 'no-tell', 'tell-raises', 'byte-by-byte',
          'block>16k', 'folded-header', 'long-header', 'small-block-size')
ASSUMPTIONS = ['archives are well formed: ARC records are followed by at least one newline',
               'streams return at most the requested number of bytes and b"" only at the end']


def gen(rng):
    spec = model.add_empty(rng, model.add_mixed(rng, model.gen_archive(rng)))
    if spec['gz'] and rng.random() < 0.05 and not any(r.get('pad') for r in spec['recs']):
        spec['lead'] = 1
    data = len(model.build_archive(spec).data)
    pts = model.build_archive(spec).interesting()
    return {'ar': spec, 'deliv': gen_deliv(rng, data, pts),
            'block': rng.choice([16384, 16384, 1, 2, 7, 100, 1024, 65536]) if data < 30000 else 16384,
            'arc2warc': rng.random() < 0.3, 'norec': rng.random() < 0.15,
            'verify': rng.random() < 0.2, 'rs': rng.choice([0, 1, 3, 100, 16384, 100000])}


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    ar = model.build_archive(plan['ar'])
    d = plan['deliv']
    with world(ctx, seed=1) as w:
        src = make_input(ar.data, d, ctx, w.clock)
        a2w = bool(plan.get('arc2warc')) or ar.mixed
        norec = bool(plan.get('norec'))
        ctx.probe(ar.fmt)
        ctx.probe('gz' if ar.gz else 'plain')
        if plan['ar'].get('lead'):
            ctx.probe('blank-lines-in-next-member')
        if ar.mixed:
            ctx.probe('mixed-kinds')
        if a2w and ar.fmt == 'arc':
            ctx.probe('arc2warc')
        if d.get('tell') == 'none' and not d.get('seek'):
            ctx.probe('no-tell')
        if d.get('tell') == 'raise' and not d.get('seek'):
            ctx.probe('tell-raises')
        if d.get('mode') == 'fix' and d.get('n') == 1:
            ctx.probe('byte-by-byte')
        block = max(1, int(plan.get('block') or 16384))
        if block < 1024:
            ctx.probe('small-block-size')
        cls = ArchiveIterator
        if plan.get('verify') and not a2w:
            cls = ARCIterator if ar.fmt == 'arc' else WARCIterator
        it = cls(src, no_record_parse=norec, arc2warc=a2w, block_size=block)
        n = 0
        for rec in it:
            ctx.check(n < len(ar.recs), 'extra record', lambda: '#%d %s' % (n, short(rec.rec_headers.headers)))
            R = ar.recs[n]
            what = 'record %d: ' % n
            for h in (R.spec.get('hs') or []):
                if h.get('st') == 3:
                    ctx.probe('folded-header')
                if h.get('st') == 9:
                    ctx.probe('long-header')
            if len(R.block) > 16384:
                ctx.probe('block>16k')
            check_head(ctx, R, rec, a2w, norec, what)
            got = read_all(rec.raw_stream, int(plan.get('rs') or 0))
            check_body(ctx, body_of(R, norec), got, what)
            ctx.log('rec', n, rec.rec_type, len(got))
            n += 1
        ctx.check(n == len(ar.recs), 'records missing', lambda: 'want %d got %d' % (len(ar.recs), n))
        ctx.check(src.max_pos == len(ar.data), 'input not read to its end', lambda: '%d of %d' % (src.max_pos, len(ar.data)))
        if src.reads > 2:
            ctx.nontrivial()
