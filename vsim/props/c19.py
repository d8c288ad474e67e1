"""C19: the check command fails exactly when a record fails its digests."""
from vsim import model, remote
from vsim.cli import run_cli
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.output import gen_out, Stdout
from vsim.props.c11 import build, verdict
from vsim.streams import gen_deliv, make_input

PROP = 'C19'
RUNS = {'quick': 10000, 'thorough': 150000}
RULE = ('One run: one to four archives, some with altered or cut off records, some that can not be loaded, are checked by one command, quiet or verbose, '
        'from the simulated disk or a remote file system, each with its own delivery schedule. Non-trivial: damage or several inputs.')
REAL = ['warcio.checker', 'warcio.cli', 'warcio.utils', 'warcio.archiveiterator', 'warcio.recordloader', 'warcio.digestverifyingreader', 'warcio.bufferedreaders', 'fsspec',
        'hashlib', 'argparse']
STUB = ['disk (SimFS)', 'remote file system (fsspec implementation)', 'stdout, stderr', 'clock', 'entropy']
PROBES = ('intact', 'damaged', 'garbage', 'whole', 'cut', 'verbose', 'quiet', 'several', 'remote', 'no-fsspec', 'bad-then-good', 'arc', 'empty', 'late-garbage', 'failing-output',
          'same-file-twice')
ASSUMPTIONS = ['damage does not move the border between HTTP headers and payload', 'revisit records and payload digests of segmented records are not checked (by design)',
               'inputs can be opened and read (input errors: C06)', 'a line of five or more words may be taken as an ARC record']


def gen_input(rng):
    r = rng.random()
    if r < 0.1:
        spec = model.gen_archive(rng, arc=True, nrec=rng.choice([1, 2, 3]), big=0.01)
        p = {'k': 'arc', 'ar': spec}
    elif r < 0.16:
        p = {'k': 'garbage', 's': rng.choice(['garbage\n', '<html>\n', 'HTTP/1.0 200 OK\r\n\r\n', 'WARC\n', '\0\0\0\0'])}
    elif r < 0.19:
        p = {'k': 'empty'}
    else:
        spec = model.gen_archive(rng, arc=False, nrec=rng.choice([1, 2, 2, 3, 4]), digests=0.9, big=0.015, edge=0.15)
        for s in spec['recs']:
            if rng.random() < 0.07:
                s['hs'] = [h for h in s['hs'] if h['st'] == 0] + [{'n': 'WARC-Segment-Number', 'v': str(rng.choice([1, 2])), 'st': 0}]
        p = {'k': 'warc', 'ar': spec, 'dmg': [], 'cut': None}
        if rng.random() < 0.5:
            p['dmg'] = [None if rng.random() < 0.5 else [rng.choice(['payload', 'payload', 'head', 'bdig', 'pdig']), rng.randrange(1 << 20), rng.randrange(255)] for _ in spec['recs']]
        if rng.random() < 0.1:
            p['cut'] = rng.randrange(1 << 20)
        r = rng.random()
        if r < 0.06 and spec['gz'] and len(spec['recs']) > 1:
            spec['gz'] = 0
            p['k'] = 'whole'
            p['cut'] = None
        elif r < 0.12 and p['cut'] is None:
            p['k'] = 'late-garbage'
    data = realise(p)[0]
    p['deliv'] = gen_deliv(rng, len(data), (), seekable=rng.random() < 0.8)
    p['src'] = rng.choice(['disk', 'disk', 'remote'])
    return p


def realise(p):
    """-> (bytes, records as in c11.build, does loading fail?, number of records before that)"""
    k = p.get('k')
    if k == 'garbage':
        return str(p.get('s', 'x')).encode('latin-1', 'replace') + b'more of the same\n' * 3, [], True
    if k == 'empty':
        return b'', [], False
    if k == 'arc':
        ar = model.build_archive(p['ar'])
        return ar.data, [{'R': R, 'bad_b': False, 'bad_p': False, 'pts': [R.offset], 'arc': 1} for R in ar.recs], False
    data, recs, ar = build(p)
    if k == 'whole' and len(recs) > 1:
        for x in recs:
            x['pts'] = [0]
        # the first record is read before the second shows the mistake
        return model.gzip_member(data), recs[:1], True
    if k == 'late-garbage' and recs:
        junk = b'this is not a record\n' * 5
        return data + (model.gzip_member(junk) if p['ar'].get('gz') else junk), recs, True
    return data, recs, False


def gen(rng):
    ins = [gen_input(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if len(ins) > 1 and rng.random() < 0.1:
        ins[-1] = {'dup': rng.randrange(len(ins) - 1)}
    return {'ins': ins, 'v': int(rng.random() < 0.5), 'fsspec': int(rng.random() < 0.7), 'bufsize': rng.choice([1, 100, 8192, 8192]), 'out': gen_out(rng)}


def run(plan, ctx):
    fss = bool(plan.get('fsspec', 1))
    v = bool(plan.get('v'))
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 1))})
    with world(ctx, seed=1, fs=fs) as w:
        files = []
        for i, p in enumerate(plan.get('ins') or []):
            if 'dup' in p:
                if not files:
                    continue
                files.append(files[p['dup'] % len(files)])
                ctx.probe('same-file-twice')
                continue
            data, recs, fails = realise(p)
            d = p.get('deliv') or {}
            if p.get('src') == 'remote':
                fss = True
                ctx.probe('remote')
                name = remote.serve(w, 'in%d.warc' % i, lambda data=data, d=d: make_input(data, d, ctx, w.clock))
            else:
                name = '/simdisk/in%d.warc' % i
                fs.plan['deliv'] = d
                fs.put(name, data)
            files.append((name, recs, fails))
            k = p.get('k')
            if k in PROBES:
                ctx.probe(k)
            for x in recs:
                if x.get('kind'):
                    ctx.fault(x['kind'])
                    ctx.probe('cut' if x['kind'] == 'cut-short' else 'damaged')
            if fails:
                ctx.fault('unloadable')
        if not files:
            return
        if not fss:
            ctx.probe('no-fsspec')
        ctx.probe('verbose' if v else 'quiet')
        # -- what has to be reported
        want = []
        bad = False
        order = []
        for name, recs, fails in files:
            es = []
            fbad = fails
            for x in recs:
                R = x['R']
                ok = None if x.get('arc') else verdict(x, False)
                if ok is False:
                    fbad = True
                if ok is False or v:
                    es.append((x, ok))
            want.append((name, es, fails))
            order.append(fbad)
            bad = bad or fbad
        if len(files) > 1:
            ctx.probe('several')
            ctx.nontrivial()
            if any(a and not b for a, b in zip(order, order[1:])):
                ctx.probe('bad-then-good')
        if bad:
            ctx.nontrivial()
        else:
            ctx.probe('intact')
        so = Stdout(plan['out'], ctx) if plan.get('out') else None
        r = run_cli(['check'] + (['-v'] if v else []) + [f[0] for f in files], fsspec=fss, stdout_raw=so.raw if so else None)
        ctx.log('exit', r.status, len(r.out))
        if so and so.fs.fired:
            ctx.probe('failing-output')
        if so and so.failed:
            ctx.check(r.failed, 'the report could not be written and the command reports success')
            return
        ctx.check(not r.exc, 'check raises', r.exc)
        ctx.check(r.status == (1 if bad else 0), 'wrong exit status', lambda: 'status %r, want %d: %s' % (r.status, bad, short(r.out, 400)))
        check_report(ctx, want, (so.data() if so else r.out).decode('utf-8', 'replace'), v)
        ctx.check(not fs.still_open(), 'a file is left open', lambda: repr([x.name for x in fs.still_open()]))


def parse(text):
    """-> [[name, [(offset, id, type, [messages])...], failure or None]...]"""
    out = []
    lines = text.split('\n')
    for ln in lines:
        if not ln.strip():
            continue
        if ln.startswith('   '):
            if out and out[-1][1]:
                out[-1][1][-1][3].append(ln.strip())
            continue
        t = ln.split()
        if ln.startswith('  ') and t[0] == 'offset' and len(t) >= 4:
            if out:
                out[-1][1].append((t[1], t[3], ' '.join(t[4:]), []))
        elif ln.startswith('  '):
            if out and t[0] == 'saw':
                out[-1][2] = ln.strip()
        elif not ln.startswith(' '):
            out.append([ln, [], None])
    return out


def check_report(ctx, want, text, v):
    got = parse(text)
    # a file's name may be printed once for its records and once for its failure
    k = 0
    for name, es, fails in want:
        recs, failure = [], None
        parts = 0
        need = (1 if es else 0) + (1 if fails else 0)
        while parts < need and k < len(got) and got[k][0] == name and failure is None:
            if parts and not got[k][2]:
                break
            recs += got[k][1]
            failure = failure or got[k][2]
            k += 1
            parts += 1
            if failure or (es and not fails):
                break
        ctx.check(bool(failure) == bool(fails), 'wrong report of a file that can not be loaded', lambda: '%s %r: %s' % (name, failure, short(text, 600)))
        ctx.check(len(recs) == len(es), 'wrong number of records reported', lambda: '%s: want %d got %d: %s' % (name, len(es), len(recs), short(text, 800)))
        for (x, ok), (off, rid, typ, msgs) in zip(es, recs):
            R = x['R']
            ctx.check(off == str(x['pts'][0]), 'wrong offset reported', lambda: 'want %d got %s' % (x['pts'][0], off))
            if not x.get('arc'):
                ctx.check((rid, typ) == (R.id, R.rec_type), 'wrong record reported', lambda: 'want %s %s got %s %s' % (R.id, R.rec_type, rid, typ))
            ctx.check(len(msgs) >= 1, 'no verdict printed', lambda: short(text, 400))
            m = ' '.join(msgs)
            if ok is True:
                ctx.check(m == 'digest pass', 'wrong verdict printed', lambda: 'intact: %r' % m)
            elif ok is False:
                ctx.check('digest' in m and 'pass' not in m and 'not checked' not in m and 'no digest' not in m, 'wrong verdict printed', lambda: 'damaged: %r' % m)
            else:
                has = model.hget(R.headers, 'WARC-Block-Digest') or model.hget(R.headers, 'WARC-Payload-Digest')
                ctx.check(('not checked' in m) if has else m == 'no digest to check', 'wrong verdict printed', lambda: 'unchecked: %r' % m)
    ctx.check(k == len(got), 'more reported than there is', lambda: short(text, 800))
