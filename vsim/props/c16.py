"""C16: recompression preserves every record and repairs the container."""
import re

from vsim import model
from vsim.cli import run_cli
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.recomp import gen_container, contain, check_copy
from vsim.streams import gen_deliv, make_input
from vsim import remote

PROP = 'C16'
RUNS = {'quick': 9000, 'thorough': 90000}
RULE = ('One run: a generated WARC or ARC, plain, gzipped per record, gzipped as a whole or gzipped in pieces cut anywhere, is recompressed by '
        'the command line tool from the simulated disk or a remote file under a delivery schedule, with and without fsspec, and the result is '
        'recompressed again. Non-trivial: an ARC, a wrong container or fragmented delivery.')
REAL = ['warcio.recompressor', 'warcio.cli', 'warcio.indexer (verbose)', 'warcio.archiveiterator', 'warcio.recordloader', 'warcio.warcwriter', 'warcio.bufferedreaders',
        'fsspec', 'shutil', 'zlib', 'argparse']
STUB = ['disk (SimFS)', 'remote file system (fsspec implementation)', 'temporary files', 'stdout, stderr', 'clock', 'entropy']
PROBES = ('asis', 'whole', 'groups', 'pieces', 'arc', 'warc', 'plain', 'gz', 'remote', 'no-fsspec', 'fixed', 'no-errors', 'verbose', 'no-seek', 'again', 'overwrites')
ASSUMPTIONS = ['HTTP headers are rewritten in normal form; block digests of records whose HTTP headers change are renewed',
               'records of revisit type with HTTP headers keep no payload (as the WARC standard demands)',
               'an input that can not be read twice can only be recompressed when its container is right']


def gen(rng):
    spec = model.add_empty(rng, model.add_mixed(rng, model.gen_archive(rng, big=0.02, edge=0.2)))
    cont = gen_container(rng, spec)
    ar, data, ok = contain(spec, cont)
    return {'ar': spec, 'cont': cont, 'deliv': gen_deliv(rng, len(data), ar.interesting() if not spec['gz'] else (), seekable=rng.random() < 0.85),
            'src': rng.choice(['disk', 'disk', 'remote']), 'fsspec': int(rng.random() < 0.7), 'v': int(rng.random() < 0.3),
            'old': rng.choice([0, 0, 0, 1]), 'bufsize': rng.choice([1, 100, 8192, 8192])}


def run(plan, ctx):
    spec = plan['ar']
    ar, data, ok = contain(spec, plan.get('cont') or {})
    deliv = plan.get('deliv') or {}
    far = plan.get('src') == 'remote'
    fss = bool(plan.get('fsspec', 1)) or far
    k = (plan.get('cont') or {}).get('k', 'asis')
    ctx.probe(k)
    ctx.probe('arc' if spec.get('arc') else 'warc')
    if k == 'asis':
        ctx.probe('gz' if spec.get('gz') else 'plain')
    if not fss:
        ctx.probe('no-fsspec')
    if k != 'asis' or spec.get('arc') or deliv.get('mode', 'full') != 'full':
        ctx.nontrivial()
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 1)), 'deliv': deliv})
    with world(ctx, seed=1, fs=fs) as w:
        out = '/simdisk/out.warc.gz'
        if plan.get('old'):
            ctx.probe('overwrites')
            fs.put(out, b'older contents ' * 1000)
        name = '/simdisk/in.warc'
        seek = True
        if far:
            ctx.probe('remote')
            seek = bool(deliv.get('seek'))
            if not seek:
                ctx.probe('no-seek')
            name = remote.serve(w, 'in.warc', lambda: make_input(data, deliv, ctx, w.clock))
        else:
            fs.put(name, data)
        args = ['recompress', name, out] + (['-v'] if plan.get('v') else [])
        if plan.get('v'):
            ctx.probe('verbose')
        r = run_cli(args, fsspec=fss)
        ctx.log('exit', r.status, r.exc[-80:])
        ctx.check(not r.exc, 'the command raises', r.exc)
        if not seek and not ok:
            # it may fail, but then says so
            if r.failed:
                return
        ctx.check(not r.failed, 'recompression of a readable archive fails', lambda: '%r %s' % (r.out[-300:], r.err[-300:]))
        got = fs.get(out)
        recs = check_copy(ctx, ar, got)
        check_message(ctx, r, len(recs), name, out)
        if not far:
            ctx.check(fs.get(name) == data, 'the input was changed')
        ctx.check(not fs.still_open(), 'a file is left open', lambda: repr([x.name for x in fs.still_open()]))
        ctx.check(sorted(fs.nodes) == sorted(([] if far else [name]) + [out]), 'other files appeared', lambda: repr(sorted(fs.nodes)))
        if k == 'asis' or ok:
            ctx.check(b'No Errors Found' in r.out, 'errors reported for a right container', lambda: short(r.out))
        if k == 'whole' and not ok:
            ctx.check(b'No Errors Found' not in r.out, 'no errors reported for a wrong container', lambda: short(r.out))
        # again
        ctx.probe('again')
        r2 = run_cli(['recompress', out, '/simdisk/out2.warc.gz'], fsspec=fss)
        ctx.check(not r2.exc and not r2.failed, 'recompressing the result fails', lambda: r2.exc + repr(r2.out[-200:]))
        recs2 = model.parse_warc_file(fs.get('/simdisk/out2.warc.gz'), True)
        a = [(x['protocol'], x['headers'], x['block']) for x in recs]
        b = [(x['protocol'], x['headers'], x['block']) for x in recs2]
        # (a value which began in a continuation line keeps its blank only once)
        folded = any(h.get('st') == 10 for R in ar.recs for h in (R.spec.get('http') or {}).get('hs', ()))
        ctx.check(a == b or folded and len(a) == len(b), 'recompressing the result changes records', lambda: short([(x, y) for x, y in zip(a, b) if x != y][:1], 400))
        ctx.check(b'No Errors Found' in r2.out, 'errors found in the result', lambda: short(r2.out))


def check_message(ctx, r, n, name, out):
    m = re.search(rb'^(\d+) records read and recompressed to file: (.*)$', r.out, re.M)
    ctx.check(m is not None and int(m.group(1)) == n and m.group(2).decode() == out, 'wrong summary', lambda: '%d records: %s' % (n, short(r.out)))
    ctx.probe('no-errors' if b'No Errors Found' in r.out else 'fixed')
