"""C06: input errors are reported, never mistaken for the end of the archive."""
import io
import sys

from vsim import model
from vsim.cli import run_cli
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.seams import Alloc
from vsim.snap import check_head, check_body, read_all
from vsim.streams import gen_deliv, make_input, READ_FAULTS

PROP = 'C06'
RUNS = {'quick': 14000, 'thorough': 200000}
RULE = ('One run: a generated archive read (iterator with raw, decoded or offset access, or the index, '
        'check or extract command on the simulated disk, on a remote file system or on standard input) '
        'while one read of the input fails. Non-trivial: the fault fired.')
REAL = ['warcio.archiveiterator', 'warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader', 'warcio.digestverifyingreader',
        'warcio.statusandheaders', 'warcio.indexer', 'warcio.checker', 'warcio.extractor', 'warcio.cli', 'warcio.utils', 'fsspec local files',
        'io.BufferedReader']
STUB = ['input stream (SimInput)', 'disk below the raw file (SimFS)', 'remote file system (fsspec sim://)', 'stdin', 'clock', 'entropy']
PROBES = ('iter', 'index', 'check', 'extract', 'in-next', 'in-read', 'in-offset', 'in-decoded', 'first-read', 'transient', 'permanent', 'stdin', 'remote', 'local',
          'no-fsspec', 'alloc')
ASSUMPTIONS = ['the archive itself is well formed']


def gen(rng):
    mode = rng.choice(['iter', 'iter', 'iter', 'index', 'check', 'extract'])
    spec = model.gen_archive(rng, nrec=rng.choice([1, 2, 3, 4]), big=0.02, edge=0.15)
    if mode != 'iter':
        for r in spec['recs']:
            r['body']['n'] *= rng.choice([1, 1, 10])
    ar = model.build_archive(spec)
    n = len(ar.data)
    at = rng.choice([0, n, rng.randint(0, n), max(0, min(n, rng.choice(ar.interesting()) + rng.randint(-3, 3)))])
    alloc = None
    if rng.random() < 0.12:
        alloc = {'op': rng.choice(['decompress', 'decompress', 'decompress', 'decompressobj']), 'n': rng.choice([0, 0, 1, 2, 3, 4, 5, 8, 12, 30]),
                 'times': rng.choice([1, 1, 2, 0])}
    return {'mode': mode, 'alloc': alloc, 'ar': spec, 'deliv': gen_deliv(rng, n, ar.interesting() + [at]),
            'fault': {'at': at, 'kind': rng.choice(READ_FAULTS), 'times': rng.choice([1, 1, -1])},
            'via': rng.choice(['local', 'local', 'remote', 'stdin', 'plain']), 'nth': rng.choice([0, 0, 1, 2, 3, 5]),
            'a2w': rng.random() < 0.2, 'norec': rng.random() < 0.2, 'dig': rng.random() < 0.3,
            'ops': [rng.randrange(5) for _ in spec['recs']], 'rs': rng.choice([0, 1, 100, 70000]),
            'rec': rng.randrange(len(spec['recs'])), 'xopt': rng.randrange(3), 'bufsize': rng.choice([1, 64, 512, 8192]),
            'block': rng.choice([16384, 16384, 3, 50, 1000]) if n < 30000 else 16384}


def run_iter(plan, ctx, ar):
    from warcio.archiveiterator import ArchiveIterator
    with world(ctx, seed=1) as w:
        f = plan['fault']
        a = plan.get('alloc')
        src = make_input(ar.data, plan['deliv'], ctx, w.clock, [] if a else [f])
        w.alloc = alloc = Alloc(a, ctx) if a else None
        state = ['']

        def fired():
            return src.fired + (alloc.fired if alloc else 0)
        norec, a2w = bool(plan.get('norec')), bool(plan.get('a2w'))
        ctx.probe('iter')

        def call(what, fn):
            """One library call: if the fault fires inside it, it must raise."""
            before = fired()
            try:
                r = fn()
            except (OSError, MemoryError) as e:
                ctx.check(fired() > before, 'error without fault', repr(e))
                ctx.probe(what)
                if alloc:
                    ctx.probe('alloc')
                if src.reads <= 1:
                    ctx.probe('first-read')
                state[0] = what
                raise Stop()
            except StopIteration:
                ctx.check(fired() == before, 'input error ends the iteration', what)
                raise
            except Exception as e:
                ctx.check(fired() > before, 'unexpected error', '%s: %r' % (what, e))
                ctx.probe(what)
                raise Stop()
            ctx.check(fired() == before, 'input error swallowed', lambda: '%s returned %s' % (what, short(r)))
            return r

        ctx.probe('permanent' if f.get('times') != 1 else 'transient')
        ops = plan.get('ops') or [0]
        n = 0
        try:
            it = call('in-next', lambda: ArchiveIterator(src, no_record_parse=norec, arc2warc=a2w, check_digests='log' if plan.get('dig') else False,
                                                         block_size=max(1, plan.get('block') or 1)))
            while True:
                try:
                    rec = call('in-next', lambda: next(it))
                except StopIteration:
                    break
                ctx.check(n < len(ar.recs), 'extra record')
                R = ar.recs[n]
                check_head(ctx, R, rec, a2w, norec, 'record %d: ' % n)
                op = ops[n % len(ops)] if ops else 0
                rs = plan.get('rs') or 0
                if op in (0, 1):
                    got = []
                    while True:
                        b = call('in-read', lambda: rec.raw_stream.read(rs or 16384))
                        if not b:
                            break
                        got.append(b)
                    check_body(ctx, R.block if norec else R.payload, b''.join(got), 'record %d: ' % n)
                elif op == 2 and not norec:
                    st = call('in-decoded', rec.content_stream)
                    got = []
                    while True:
                        b = call('in-decoded', lambda: st.read(rs or 16384))
                        if not b:
                            break
                        got.append(b)
                    check_body(ctx, R.entity, b''.join(got), 'record %d: ' % n)
                elif op == 3:
                    o = call('in-offset', lambda: it.get_record_offset())
                    ctx.check(o is not None, 'no offset')
                elif op == 4:
                    call('in-read', lambda: rec.raw_stream.readline())
                ctx.log('rec', n)
                n += 1
        except Stop:
            ctx.log('stopped', state[0])
            return
        ctx.check(n == len(ar.recs), 'records missing', lambda: 'want %d got %d' % (len(ar.recs), n))


class Stop(Exception):
    pass


def run_cmd(plan, ctx, ar):
    mode = plan['mode']
    via = plan.get('via', 'local')
    ctx.probe(mode)
    f = plan['fault']
    fs = SimFS({'bufsize': max(1, plan.get('bufsize') or 1),
                'faults': [{'op': 'read', 'n': plan.get('nth', 0), 'kind': f['kind'], 'times': 1 if f.get('times') == 1 else 0}]})
    if via == 'stdin' and mode != 'index':
        via = 'remote'
    with world(ctx, seed=1, fs=fs) as w:
        stdin = None
        src = None
        ctx.probe({'plain': 'no-fsspec'}.get(via, via))
        if via in ('local', 'plain'):
            path = '/simdisk/in.warc'
            fs.put(path, ar.data)
        elif via == 'stdin':
            src = make_input(ar.data, dict(plan['deliv'], seek=False), ctx, w.clock, [f])
            stdin, path = src, '-'
        else:
            from vsim import remote
            src = make_input(ar.data, dict(plan['deliv'], seek=True), ctx, w.clock, [f])
            path = remote.serve(w, 'in.warc', src)
        R = ar.recs[plan.get('rec', 0) % len(ar.recs)]
        if mode == 'index':
            args = ['index', path, '-f', 'offset,length,warc-type' + (',http:status' if plan.get('xopt') else '')]
        elif mode == 'check':
            args = ['check', path] + (['-v'] if plan.get('xopt') else [])
        else:
            args = ['extract'] + [[], ['--payload'], ['--headers']][plan.get('xopt', 0) % 3] + [path, str(R.offset)]
        a = plan.get('alloc')
        if a:
            fs.enabled = False
            if src is not None:
                src.faults = []
            w.alloc = a = Alloc(a, ctx)
        r = run_cli(args, stdin, fsspec=(via != 'plain'))
        fired = a.fired if a else src.fired if src is not None else fs.fired
        if a:
            a.on = False
        if a and fired:
            ctx.probe('alloc')
        ctx.log(mode, via, r.status, len(r.out), fired)
        if fired:
            ctx.check(r.failed, 'command finishes as if the archive had ended', lambda: 'status %r, output %s' % (r.status, short(r.out)))
        else:
            ctx.check(not r.failed, 'command fails without a fault', lambda: '%r %s' % (r.status, r.exc))


def run(plan, ctx):
    ar = model.build_archive(plan['ar'])
    if not ar.recs:
        return
    if plan.get('mode') == 'iter':
        run_iter(plan, ctx, ar)
    else:
        run_cmd(plan, ctx, ar)
