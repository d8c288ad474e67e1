"""C26: a wrongly compressed archive is reported, never silently shortened."""
import json
import random

from vsim import model
from vsim.cli import run_cli
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.recomp import contain
from vsim.snap import check_head, check_body, read_all, body_of
from vsim.streams import gen_deliv, make_input
from vsim import remote

PROP = 'C26'
RUNS = {'quick': 16000, 'thorough': 150000}
RULE = ('One run: a generated WARC or ARC compressed as a whole or with several records in one gzip member, read through ArchiveIterator under '
        'a delivery schedule while the records are read, skipped, partly read or asked for their offset, or indexed or checked by the command '
        'line tool. Non-trivial: two or more records in one member.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader', 'warcio.indexer', 'warcio.checker', 'zlib', 'fsspec']
STUB = ['input stream (SimInput)', 'disk (SimFS)', 'remote file system', 'stdout, stderr', 'clock', 'entropy']
PROBES = ('whole', 'groups', 'arc', 'warc', 'refused', 'all-read', 'skipped', 'partly-read', 'offset', 'iter', 'index', 'check', 'remote', 'single', 'refused-late', 'arc2warc', 'digests')
ASSUMPTIONS = ['every record lies within one gzip member (a record cut over two members: see C16)']


def gen(rng):
    spec = model.gen_archive(rng, big=0.03, edge=0.2)
    cont = {'k': 'whole'} if rng.random() < 0.4 else {'k': 'groups', 's': rng.randrange(1 << 20)}
    ar, data, ok = contain(spec, cont)
    return {'ar': spec, 'cont': cont, 'deliv': gen_deliv(rng, len(data)), 'how': rng.choice(['iter', 'iter', 'iter', 'index', 'check']),
            'far': int(rng.random() < 0.3), 'hist': rng.randrange(1 << 20), 'a2w': int(rng.random() < 0.15), 'dig': int(rng.random() < 0.15),
            'block': rng.choice([16384, 16384, 16384, 100, 1000, 65536]) if len(data) < 30000 else 16384}


def run(plan, ctx):
    spec = plan['ar']
    cont = plan.get('cont') or {}
    if cont.get('k') not in ('whole', 'groups'):
        cont = {'k': 'whole'}
    ar, data, _ = contain(spec, cont)
    members = [m for m in model.gunzip_members(data)]
    single = len(members) >= len(ar.recs)
    deliv = plan.get('deliv') or {}
    ctx.probe(cont['k'])
    ctx.probe(ar.fmt)
    how = plan.get('how')
    how = how if how in ('index', 'check') else 'iter'
    ctx.probe(how)
    if single:
        ctx.probe('single')
    else:
        ctx.nontrivial()
    if how != 'iter':
        return command(plan, ctx, ar, data, deliv, how, single)
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    a2w = bool(plan.get('a2w'))
    if a2w and ar.fmt == 'arc':
        ctx.probe('arc2warc')
    rng = random.Random(plan.get('hist', 0))
    with world(ctx, seed=1) as w:
        src = make_input(data, deliv, ctx, w.clock)
        err = None
        n = 0
        if plan.get('dig'):
            ctx.probe('digests')
        it = ArchiveIterator(src, arc2warc=a2w, block_size=max(1, int(plan.get('block') or 1)), check_digests=bool(plan.get('dig')))
        try:
            for rec in it:
                ctx.check(n < len(ar.recs), 'extra record', lambda: short(rec.rec_headers.headers))
                R = ar.recs[n]
                what = 'record %d: ' % n
                check_head(ctx, R, rec, a2w, False, what)
                body = body_of(R)
                k = rng.randrange(4)
                if k == 0:
                    ctx.probe('skipped')
                elif k == 1:
                    ctx.probe('partly-read')
                    m = rng.choice([0, 1, 10, len(body) // 2, len(body)])
                    check_body(ctx, body[:m], rec.raw_stream.read(m), what)
                else:
                    check_body(ctx, body, read_all(rec.raw_stream, rng.choice([0, 1000])), what)
                n += 1
                if rng.random() < 0.3:
                    ctx.probe('offset')
                    it.get_record_offset()
                    it.get_record_length()
                ctx.log('rec', n)
        except ArchiveLoadFailed as e:
            err = e
        if err is None:
            ctx.probe('all-read')
            ctx.check(n == len(ar.recs), 'records missing, no error', lambda: 'want %d got %d' % (len(ar.recs), n))
            ctx.check(single, 'a wrongly compressed archive is accepted')
        else:
            ctx.probe('refused')
            if n > 1:
                ctx.probe('refused-late')
            ctx.log('refused', n)
            ctx.check(not single, 'a rightly compressed archive is refused', lambda: short(str(err)))
            ctx.check('recompress' in str(err), 'the error does not say what is wrong', lambda: short(str(err)))


def command(plan, ctx, ar, data, deliv, how, single):
    fs = SimFS({'deliv': deliv})
    with world(ctx, seed=1, fs=fs) as w:
        if plan.get('far'):
            ctx.probe('remote')
            name = remote.serve(w, 'in.warc', lambda: make_input(data, deliv, ctx, w.clock))
        else:
            name = '/simdisk/in.warc'
            fs.put(name, data)
        args = ['index', '-f', 'offset,length', name] if how == 'index' else ['check', name]
        r = run_cli(args)
        ctx.log('exit', r.status, len(r.out))
        if how == 'index':
            lines = r.out.split(b'\n')[:-1]
            ctx.check(r.failed or len(lines) == len(ar.recs), 'index without all records, no error', lambda: 'want %d got %d' % (len(ar.recs), len(lines)))
            ctx.check(r.failed or single, 'a wrongly compressed archive is accepted')
            ctx.check(not (r.failed and single), 'a rightly compressed archive is refused', lambda: r.exc)
            for ln in lines:
                try:
                    json.loads(ln.decode())
                except ValueError:
                    ctx.violate('malformed index line', short(ln))
        else:
            ctx.check(not (r.failed and single), 'a rightly compressed archive is refused', lambda: r.exc + short(r.out))
            ctx.check(r.failed or single, 'a wrongly compressed archive is accepted')
        ctx.probe('refused' if r.failed else 'all-read')

