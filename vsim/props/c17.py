"""C17: recompression never reports success with records missing."""
from vsim import model, remote
from vsim.cli import run_cli
from vsim.core import world, SimCrash, short
from vsim.disk import SimFS
from vsim.props.c16 import check_message
from vsim.recomp import gen_container, contain, check_copy
from vsim.seams import Alloc
from vsim.streams import gen_deliv, make_input, READ_FAULTS

PROP = 'C17'
RUNS = {'quick': 13000, 'thorough': 150000}
RULE = ('One run: a generated archive in a right or wrong container is recompressed by the command line tool while one or two faults hit the input, the output, '
        'the temporary file, the capacity of the disk or the allocations of zlib, or the process is killed, or the output is the input under its own or another name. '
        'Non-trivial: a fault was injected.')
REAL = ['warcio.recompressor', 'warcio.cli', 'warcio.archiveiterator', 'warcio.recordloader', 'warcio.warcwriter', 'warcio.bufferedreaders', 'warcio.utils',
        'fsspec', 'shutil', 'zlib', 'io buffering']
STUB = ['disk (SimFS)', 'remote file system (fsspec implementation)', 'temporary files', 'stdout, stderr', 'clock', 'entropy', 'failing zlib allocations (wrapper)']
PROBES = ('success-after-fault', 'failure', 'crash', 'same-path', 'same-file', 'remote', 'no-fsspec', 'wrong-container', 'verbose', 'fault-in', 'fault-out', 'fault-temp',
          'full-disk', 'alloc', 'two-faults', 'no-fault')
ASSUMPTIONS = ['the archive itself is intact (only its container may be wrong)', 'what a failed recompression leaves in the output file is not specified']

NTH = [0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 30, 60, 100, 300]


def gen_fault(rng):
    f = gen_fault1(rng)
    if f['kind'] == 'short':
        f['times'] = f['times'] or 5
    return f


def gen_fault1(rng):
    r = rng.random()
    t = rng.choice([1, 1, 1, 2, 3, 0])
    n = rng.choice(NTH)
    if r < 0.25:
        return {'op': rng.choice(['read', 'read', 'read', 'open']), 'file': 'in.warc', 'n': n, 'kind': rng.choice(READ_FAULTS), 'times': t}
    if r < 0.6:
        op = rng.choice(['write', 'write', 'write', 'open', 'close'])
        return {'op': op, 'file': 'out.warc', 'n': n if op == 'write' else rng.choice([0, 0, 1]),
                'kind': rng.choice(['eio', 'nospace', 'nospace', 'stale', 'short'] if op == 'write' else ['eio', 'nospace', 'stale']),
                'part': rng.choice([0, 0, 1, 5, 100]), 'times': t}
    if r < 0.65:
        return {'op': 'read', 'file': 'out.warc', 'n': n, 'kind': rng.choice(READ_FAULTS), 'times': t}
    op = rng.choice(['temp', 'write', 'write', 'write', 'read', 'read', 'close'])
    return {'op': op, 'file': '<temp>', 'n': n if op in ('write', 'read') else rng.choice([0, 0, 1]),
            'kind': rng.choice(['eio', 'nospace', 'nospace', 'stale', 'short'] if op == 'write' else ['eio', 'nospace']),
            'part': rng.choice([0, 0, 1, 5, 100]), 'times': t}


def gen(rng):
    spec = model.add_mixed(rng, model.gen_archive(rng, big=0.02, edge=0.1, nrec=rng.choice([1, 2, 3, 4, 6])))
    cont = gen_container(rng, spec)
    ar, data, ok = contain(spec, cont)
    p = {'ar': spec, 'cont': cont, 'deliv': gen_deliv(rng, len(data), (), seekable=rng.random() < 0.9),
         'src': rng.choice(['disk', 'disk', 'disk', 'remote']), 'fsspec': int(rng.random() < 0.7), 'v': int(rng.random() < 0.2),
         'bufsize': rng.choice([1, 30, 500, 8192, 8192])}
    if p['bufsize'] == 1 and len(data) > 20000:
        p['bufsize'] = 100
    r = rng.random()
    if r < 0.05:
        p['same'] = rng.choice(['path', 'file'])
        p['src'] = 'disk'
    elif r < 0.15:
        p['quota'] = rng.choice([0, 1, rng.randint(0, 3 * len(data) + 500)])
    elif r < 0.3:
        p['alloc'] = {'op': rng.choice(['compress', 'decompress', 'decompress', 'compressobj', 'decompressobj']), 'n': rng.choice(NTH), 'times': rng.choice([1, 1, 2, 0])}
    elif r < 0.4:
        c = rng.choice([('read', 'in.warc'), ('write', 'out.warc'), ('write', 'out.warc'), ('write', '<temp>'), ('close', 'out.warc'), ('open', 'out.warc'), ('temp', '<temp>')])
        p['crash'] = {'op': c[0], 'file': c[1], 'n': rng.choice(NTH), 'part': rng.choice([0, 1, 50])}
    else:
        p['faults'] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        if p['src'] == 'remote' and rng.random() < 0.5:
            p['faults'] = []
            p['rfault'] = {'at': rng.randint(0, len(data)), 'kind': rng.choice(READ_FAULTS), 'times': rng.choice([1, 1, 2, -1])}
    return p


def run(plan, ctx):
    spec = plan['ar']
    ar, data, ok = contain(spec, plan.get('cont') or {})
    far = plan.get('src') == 'remote'
    fss = bool(plan.get('fsspec', 1)) or far
    deliv = plan.get('deliv') or {}
    same = plan.get('same')
    if far:
        same = None
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 1)), 'deliv': deliv, 'faults': plan.get('faults') or [], 'crash': plan.get('crash')})
    if not ok:
        ctx.probe('wrong-container')
    with world(ctx, seed=1, fs=fs) as w:
        out = '/simdisk/out.warc.gz'
        name = '/simdisk/in.warc'
        src = []
        if far:
            ctx.probe('remote')
            f = plan.get('rfault')

            def opened():
                src.append(make_input(data, deliv, ctx, w.clock, [f] if f else []))
                return src[-1]
            name = remote.serve(w, 'in.warc', opened)
        else:
            fs.put(name, data)
        if same == 'path':
            out = name
            ctx.probe('same-path')
        elif same == 'file':
            fs.link(name, out)
            ctx.probe('same-file')
        if plan.get('quota') is not None:
            fs.quota = (0 if far else len(data)) + plan['quota']
        if plan.get('v'):
            ctx.probe('verbose')
        if not fss:
            ctx.probe('no-fsspec')
        a = None
        if plan.get('alloc'):
            a = w.alloc = Alloc(plan['alloc'], ctx)
        r = None
        try:
            r = run_cli(['recompress', name, out] + (['-v'] if plan.get('v') else []), fsspec=fss)
        except SimCrash:
            pass
        crashed = fs.dead
        if crashed:
            ctx.probe('crash')
        fs.enabled = False
        fs.quota = None
        if a:
            a.on = False
        fired = fs.fired + (a.fired if a else 0) + sum(s.fired for s in src) + crashed
        if fired or same:
            ctx.nontrivial()
        if not far:
            ctx.check(fs.get(name) == data, 'the input was changed', lambda: '%d bytes before, %d bytes after' % (len(data), len(fs.get(name))))
        if crashed:
            return
        ctx.log('exit', r.status, fired)
        if a and a.fired:
            ctx.probe('alloc')
        if plan.get('quota') is not None and fs.fired:
            ctx.probe('full-disk')
        if same:
            # the output is the untouched input: a success only if that is recompressed already
            if not r.failed and not fs.fired:
                check_copy(ctx, ar, fs.get(out))
            return
        if fs.fired:
            for f in fs.faults:
                ctx.probe('fault-' + {'in.warc': 'in', 'out.warc': 'out', '<temp>': 'temp'}.get(f['file'], 'in'))
            if len(fs.faults) > 1:
                ctx.probe('two-faults')
        if r.failed:
            ctx.check(fired or not deliv.get('seek') and not ok, 'recompression fails without a fault', lambda: '%s %r' % (r.exc, short(r.out)))
            ctx.check(b'records read and recompressed' not in r.out or r.exc, 'success and failure reported', lambda: short(r.out))
            ctx.probe('failure')
            return
        ctx.probe('success-after-fault' if fired else 'no-fault')
        ctx.check(out in fs.nodes, 'success without an output')
        recs = check_copy(ctx, ar, fs.get(out))
        check_message(ctx, r, len(recs), name, out)
