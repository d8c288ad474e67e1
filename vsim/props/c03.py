"""C03: reported offsets and lengths locate exactly the record."""
from vsim import model
from vsim.core import world, short
from vsim.snap import check_head, check_body, read_all
from vsim.streams import gen_deliv, make_input

PROP = 'C03'
RUNS = {'quick': 14000, 'thorough': 200000}
RULE = ('One run: offsets and lengths of every record of a generated archive queried at a random '
        'moment of each record\'s turn, under a delivery schedule, starting at a random record; then '
        'some records re-read from their offset or slice under another schedule. Non-trivial: more '
        'than one record or a split input.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader',
        'warcio.statusandheaders', 'zlib']
STUB = ['input stream (SimInput)', 'clock', 'entropy']
PROBES = ('before-read', 'mid-read', 'after-read', 'after-decoded', 'length-first', 'start-at-record', 'no-tell',
          'reread-slice', 'reread-offset', 'arc', 'gz', 'plain')
ASSUMPTIONS = ['archives are well formed; WARC records are separated by exactly two newlines']


def gen(rng):
    spec = model.add_mixed(rng, model.gen_archive(rng, nrec=rng.choice([1, 2, 3, 4, 6]), big=0.01, edge=0.1))
    ar = model.build_archive(spec)
    k = len(spec['recs'])
    return {'ar': spec, 'deliv': gen_deliv(rng, len(ar.data), ar.interesting()),
            'when': [rng.randrange(6) for _ in range(k)], 'part': [rng.choice([1, 5, 100, 20000]) for _ in range(k)],
            'start': rng.choice([0, 0, 0, rng.randrange(k)]), 'norec': rng.random() < 0.3,
            'reread': [[rng.randrange(k), rng.randrange(2)] for _ in range(rng.randint(0, 3))],
            'deliv2': gen_deliv(rng, len(ar.data), ar.interesting()),
            'block': rng.choice([16384, 16384, 3, 50, 1000]) if len(ar.data) < 30000 else 16384,
            'a2w': rng.random() < 0.2, 'dig': rng.random() < 0.2}


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    ar = model.build_archive(plan['ar'])
    if not ar.recs:
        return
    norec, a2w = bool(plan.get('norec')), bool(plan.get('a2w')) or ar.mixed
    with world(ctx, seed=1) as w:
        ctx.probe(ar.fmt)
        ctx.probe('gz' if ar.gz else 'plain')
        start = plan.get('start', 0) % len(ar.recs)
        base = ar.recs[start].offset
        d = plan['deliv']
        if d.get('seek') or d.get('tell') == 'ok':
            src = make_input(ar.data, d, ctx, w.clock)
            src.pos = base
            rel = 0
        else:
            # what cannot tell counts from where reading began
            src = make_input(ar.data[base:], d, ctx, w.clock)
            rel = base
            ctx.probe('no-tell')
        if start:
            ctx.probe('start-at-record')
        it = ArchiveIterator(src, no_record_parse=norec, arc2warc=a2w, block_size=max(1, plan.get('block') or 1),
                             check_digests='log' if plan.get('dig') else False)
        n = start
        when, part = plan.get('when') or [0], plan.get('part') or [1]
        for rec in it:
            ctx.check(n < len(ar.recs), 'extra record')
            R = ar.recs[n]
            m = when[n % len(when)] if when else 0
            p = max(1, part[n % len(part)]) if part else 1
            if m == 1:
                rec.raw_stream.read(p)
                ctx.probe('mid-read')
            elif m == 2:
                read_all(rec.raw_stream)
                ctx.probe('after-read')
            elif m == 3:
                read_all(rec.content_stream())
                ctx.probe('after-decoded')
            elif m == 4:
                rec.raw_stream.readline(p)
                ctx.probe('mid-read')
            else:
                ctx.probe('before-read')
            if m == 5:
                ctx.probe('length-first')
                ln = it.get_record_length()
                off = it.get_record_offset()
            else:
                off = it.get_record_offset()
                ln = it.get_record_length()
            ctx.log('rec', n, off, ln)
            ctx.check(off == R.offset - rel, 'wrong offset', lambda: 'record %d: want %d got %r' % (n, R.offset - rel, off))
            ctx.check(ln == R.length, 'wrong length', lambda: 'record %d (%s): want %d got %r' % (n, m, R.length, ln))
            ctx.check(it.get_record_offset() == off and it.get_record_length() == ln, 'answer changes when asked again')
            if n > start or d['mode'] != 'full':
                ctx.nontrivial()
            n += 1
        ctx.check(n == len(ar.recs), 'records missing', lambda: 'want %d got %d' % (len(ar.recs), n))
        for rr in plan.get('reread') or []:
            if not rr:
                continue
            i = rr[0] % len(ar.recs)
            R = ar.recs[i]
            sl = len(rr) > 1 and rr[1]
            data = ar.data[R.offset:R.offset + R.length] if sl else ar.data
            src = make_input(data, dict(plan['deliv2'], seek=True), ctx, w.clock, name='re')
            if not sl:
                src.seek(R.offset)
            ctx.probe('reread-slice' if sl else 'reread-offset')
            it = ArchiveIterator(src, arc2warc=a2w)
            rec = next(it, None)
            ctx.check(rec is not None, 'no record at its offset', lambda: 'record %d' % i)
            check_head(ctx, R, rec, a2w, False, 're-read record %d: ' % i)
            check_body(ctx, R.payload, read_all(rec.raw_stream), 're-read record %d: ' % i)
