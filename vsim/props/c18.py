"""C18: the index lists exactly the records of its inputs."""
import io
import json
import os

from vsim import model, remote
from vsim.cli import run_cli
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.output import gen_out, Stdout
from vsim.streams import gen_deliv, make_input

PROP = 'C18'
RUNS = {'quick': 11000, 'thorough': 150000}
RULE = ('One run: one to four generated archives are indexed in one command with a random list of fields, from the simulated disk, a remote file system or a pipe, '
        'each with its own delivery schedule, to standard output or a file, sometimes onto a failing device. Non-trivial: several inputs, fragmented delivery or a fault.')
REAL = ['warcio.indexer', 'warcio.cli', 'warcio.utils', 'warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.statusandheaders', 'fsspec', 'json', 'argparse']
STUB = ['disk (SimFS)', 'remote file system (fsspec implementation)', 'stdin, stdout, stderr', 'clock', 'entropy']
PROBES = ('disk', 'remote', 'stdin', 'implicit-stdin', 'no-fsspec', 'to-file', 'several', 'no-parse', 'http-field', 'status', 'default-fields', 'missing-field', 'empty-input',
          'offset', 'length', 'arc', 'same-file-twice', 'failing-output', 'http-only')
ASSUMPTIONS = ['archives are well formed', 'field names have no comma or blanks', 'the Content-Length of a converted ARC file header is not checked']
FIELDS = ['offset', 'length', 'filename', 'http:status', 'warc-type', 'WARC-Type', 'warc-target-uri', 'WARC-Record-ID', 'warc-date', 'content-type', 'Content-Length',
          'warc-block-digest', 'WARC-Payload-Digest', 'http:content-encoding', 'http:Transfer-Encoding', 'warc-ip-address', 'warc-filename', 'no-such-header',
          'http:no-such-header', 'http:x-http-0', 'http:X-HTTP-1', 'http:X-Http-2', 'warc-x-0', 'WARC-X-1', 'WARC-X-Long', 'http:X-Http-Long', 'http:x-http-3']


def gen(rng):
    ins = []
    stdin = False
    for i in range(rng.choice([1, 1, 1, 2, 3, 4])):
        spec = model.add_mixed(rng, model.gen_archive(rng, big=0.02, edge=0.15, nrec=rng.choice([1, 2, 3, 4, 6])))
        if rng.random() < 0.03:
            spec['recs'] = []
        ar = model.build_archive(spec)
        src = rng.choice(['disk', 'disk', 'disk', 'remote', 'stdin'])
        if src == 'stdin' and stdin:
            src = 'disk'
        stdin = stdin or src == 'stdin'
        ins.append({'ar': spec, 'src': src, 'deliv': gen_deliv(rng, len(ar.data), ar.interesting(), seekable=(src != 'stdin' and rng.random() < 0.8)),
                    'dir': rng.choice(['', '', 'a/', 'a/b.c/'])})
    if len(ins) > 1 and rng.random() < 0.15:
        ins[-1] = {'dup': rng.randrange(len(ins) - 1)}
    fields = None
    if rng.random() < 0.85:
        fields = [rng.choice(FIELDS) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
        if rng.random() < 0.4:
            fields = ['offset', 'length'] + fields
    return {'ins': ins, 'fields': fields, 'o': int(rng.random() < 0.25), 'fsspec': int(rng.random() < 0.7), 'bufsize': rng.choice([1, 100, 8192, 8192]),
            'implicit': int(rng.random() < 0.5), 'out': gen_out(rng)}


def expect(R, f, name):
    """the value of one field, or None"""
    if f == 'offset':
        return str(R.offset)
    if f == 'length':
        return str(R.length)
    if f == 'filename':
        return os.path.basename(name)
    if f == 'http:status':
        return R.http[1].split(' ')[0] if R.http and any(R.http[1:]) and R.rec_type in ('response', 'revisit') else None
    if f.startswith('http:'):
        return model.hget(R.http[2], f[5:]) if R.http else None
    if R.fmt == 'arc':
        lf = f.lower()
        if lf == 'warc-type':
            return R.w2[0]
        if lf == 'content-length':
            return Ellipsis if R.rec_type == 'arc_header' else str(len(R.block))
        if lf == 'warc-record-id':
            return Ellipsis
        return model.hget(R.w2[1], f)
    return model.hget(R.headers, f)


def run(plan, ctx):
    fss = bool(plan.get('fsspec', 1))
    fs = SimFS({'bufsize': max(1, int(plan.get('bufsize') or 1))})
    fields = plan.get('fields')
    flist = [str(f) for f in fields] if fields else ['offset', 'warc-type', 'warc-target-uri']
    with world(ctx, seed=1, fs=fs) as w:
        names, want = [], []
        stdin = None
        got_in = []
        for i, p in enumerate(plan.get('ins') or []):
            if 'dup' in p:
                if not got_in or got_in[p['dup'] % len(got_in)][1] == '-':
                    continue
                ar, name = got_in[p['dup'] % len(got_in)]
                ctx.probe('same-file-twice')
            else:
                ar = model.build_archive(p['ar'])
                src = p.get('src')
                d = p.get('deliv') or {}
                if src == 'stdin' and stdin is None:
                    stdin = make_input(ar.data, dict(d, seek=False), ctx, w.clock)
                    name = '-'
                elif src == 'remote':
                    fss = True
                    name = remote.serve(w, '%sin%d.warc' % (p.get('dir', ''), i), lambda ar=ar, d=d: make_input(ar.data, d, ctx, w.clock))
                else:
                    src = 'disk'
                    name = '/simdisk/%sin%d.warc' % (p.get('dir', ''), i)
                    fs.plan['deliv'] = d
                    fs.put(name, ar.data)
                ctx.probe(src)
                if d.get('mode', 'full') != 'full':
                    ctx.nontrivial()
                got_in.append((ar, name))
            names.append(name)
            if not ar.recs:
                ctx.probe('empty-input')
            if ar.fmt == 'arc':
                ctx.probe('arc')
            for R in ar.recs:
                want.append((R, name))
        if not names:
            return
        if len(names) > 1:
            ctx.probe('several')
            ctx.nontrivial()
        if not fss:
            ctx.probe('no-fsspec')
        args = ['index']
        if fields:
            args += ['-f', ','.join(flist)]
        else:
            ctx.probe('default-fields')
        hf = [f for f in flist if f.startswith('http:')]
        ctx.probe('http-field' if hf else 'no-parse')
        if hf == flist:
            ctx.probe('http-only')
        for f in ('offset', 'length', 'http:status'):
            if f in flist:
                ctx.probe(f.replace('http:', ''))
        so = None
        if plan.get('o'):
            args += ['-o', '/simdisk/index.txt']
            ctx.probe('to-file')
            if plan.get('out'):
                fs.faults = [dict(plan['out'], op='write', file='index.txt')]
                if fs.faults[0]['kind'] == 'short':
                    fs.faults[0]['times'] = fs.faults[0].get('times') or 5
        elif plan.get('out'):
            so = Stdout(plan['out'], ctx)
        if names == ['-'] and plan.get('implicit'):
            ctx.probe('implicit-stdin')
        else:
            args += names
        r = run_cli(args, stdin=stdin if stdin is not None else io.BytesIO(b''), fsspec=fss, stdout_raw=so.raw if so else None)
        ctx.log('exit', r.status, len(r.out))
        bad = so.failed if so else (fs.fired and fs.faults[0]['kind'] != 'short')
        if (so and so.fs.fired) or fs.fired:
            ctx.nontrivial()
            ctx.probe('failing-output')
        if bad:
            ctx.check(r.failed, 'the index could not be written and the command reports success')
            return
        ctx.check(not r.failed, 'index fails', lambda: r.exc + r.err)
        text = fs.get('/simdisk/index.txt') if plan.get('o') else so.data() if so else r.out
        if plan.get('o'):
            ctx.check(r.out == b'', 'output on standard output too', lambda: short(r.out))
        lines = text.decode('utf-8').split('\n')
        ctx.check(lines.pop() == '', 'last line is not complete', lambda: short(text[-100:]))
        ctx.check(len(lines) == len(want), 'wrong number of lines', lambda: 'want %d got %d' % (len(want), len(lines)))
        for n, (ln, (R, name)) in enumerate(zip(lines, want)):
            try:
                got = json.loads(ln)
            except ValueError:
                ctx.violate('a line is not JSON', short(ln))
            exp = {}
            for f in flist:
                v = expect(R, f, name)
                if v is not None:
                    exp[f] = v
                else:
                    ctx.probe('missing-field')
            ctx.check(list(got) == list(exp), 'wrong fields', lambda: 'line %d: want %s got %s' % (n, short(list(exp)), short(list(got))))
            for k, v in exp.items():
                if v is Ellipsis:
                    continue
                ctx.check(got[k] == v, 'wrong value', lambda: 'line %d (%s) %s: want %s got %s' % (n, R.rec_type, k, short(v), short(got[k])))
        ctx.check(not fs.still_open(), 'a file is left open', lambda: repr([x.name for x in fs.still_open()]))
