"""C25: reading and writing through a buffer writer never disturb each other."""
from vsim import model, wsim
from vsim.core import world, short, diff_bytes
from vsim.disk import SimFS

PROP = 'C25'
RUNS = {'quick': 16000, 'thorough': 160000}
RULE = ('One run: a random history of record and pair writes, content queries, partial and full reads of the '
        'stream handed out, and archive iteration over it, on one in-memory writer (including past the size '
        'where its buffer moves to a temporary file). Non-trivial: a write after a read of the stream.')
REAL = ['warcio.warcwriter', 'warcio.recordbuilder', 'warcio.archiveiterator', 'tempfile.SpooledTemporaryFile', 'zlib', 'io buffers']
STUB = ['disk below the temporary file (SimFS)', 'payload sources (SimInput)', 'clock', 'entropy']
PROBES = ('contents', 'contents-before-write', 'stream-read', 'stream-partly-read', 'iterated', 'partly-iterated', 'write-after-read',
          'write-at-start', 'spooled', 'gzip', 'plain', 'resumed-read', 'seek')
ASSUMPTIONS = ['the stream is read, not closed or written to, by the caller']


def gen(rng):
    ops = []
    big = rng.random() < 0.04
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(['w', 'w', 'w', 'c', 's', 's', 'i', 'k'])
        if k == 'w':
            s = wsim.gen_wrec(rng, copies=rng.random() < 0.3)
            if big and s.get('op') == 'create':
                s['body']['n'] = rng.choice([300000, 524288, 600000])
                s['body']['k'] = 'bin'
                s['src'] = {'k': 'bytes'}
            ops.append(['w', s])
        elif k == 's':
            ops.append(['s', rng.choice([None, 0, 1, 10, 100, 1000]), rng.randrange(2)])
        elif k == 'i':
            ops.append(['i', rng.choice([1, 1, 2, 99]), rng.randrange(2)])
        elif k == 'k':
            ops.append(['k', rng.choice([0, 1, 50, 10 ** 6])])
        else:
            ops.append([k])
    return {'ops': ops, 'gz': rng.randrange(2), 'ver': rng.choice([None, '1.1'])}


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.warcwriter import BufferWARCWriter
    gz = bool(plan.get('gz'))
    ctx.probe('gzip' if gz else 'plain')
    fs = SimFS({})
    with world(ctx, seed=2, fs=fs) as w:
        writer = BufferWARCWriter(gzip=gz, warc_version=plan.get('ver'))
        data = b''
        n = 0
        ids = []
        resume = None       # (stream, position) of a read in progress
        touched = False
        for i, op in enumerate(plan.get('ops') or []):
            if not op:
                continue
            k = op[0]
            if k == 'w' and len(op) > 1 and isinstance(op[1], dict):
                made = wsim.create(ctx, w, writer, op[1], i)
                if op[1].get('op') == 'pair':
                    writer.write_request_response_pair(made[1][0], made[0][0])
                else:
                    for rec, e in made:
                        writer.write_record(rec)
                if touched:
                    ctx.probe('write-after-read')
                    ctx.nontrivial()
                if resume is not None and resume[1] < len(data):
                    # a stream someone is in the middle of goes on where it was
                    st, pos = resume
                    b = st.read(37)
                    ctx.probe('resumed-read')
                    ctx.check(data[pos:pos + 37].startswith(b[:max(0, len(data) - pos)]) and (b or not data[pos:]),
                              'a read in progress is disturbed by a write',
                              lambda: 'at %d: want %s got %s' % (pos, short(data[pos:pos + 37]), short(b)))
                resume = None
                new = writer.get_contents()
                ctx.check(new.startswith(data), 'earlier records changed by a write', lambda: diff_bytes(data, new[:len(data)]))
                try:
                    recs = model.parse_warc_file(new[len(data):], gz)
                except model.ParseError as ex:
                    ctx.violate('record not appended completely', str(ex))
                ctx.check(len(recs) == len(made), 'record not appended', lambda: 'want %d got %d' % (len(made), len(recs)))
                for r, (_, e) in zip(recs, made):
                    ctx.check(model.hget(r['headers'], 'WARC-Type') == e.typ, 'wrong record appended')
                    wsim.check_block(ctx, e, r, None, 'op %d: ' % i)
                    ids.append(model.hget(r['headers'], 'WARC-Record-ID'))
                data = new
                n += len(made)
                touched = False
                if len(data) > 512 * 1024:
                    ctx.probe('spooled')
            elif k == 'c':
                ctx.probe('contents')
                got = writer.get_contents()
                ctx.check(got == data, 'contents differ', lambda: diff_bytes(data, got))
                got = writer.get_contents()
                ctx.check(got == data, 'contents differ when asked again', lambda: diff_bytes(data, got))
            elif k == 's':
                st = writer.get_stream()
                m = op[1] if len(op) > 1 else None
                b = st.read() if m is None else st.read(m)
                ctx.probe('stream-read' if m is None else 'stream-partly-read')
                want = data if m is None else data[:m]
                ctx.check(b == want, 'stream differs', lambda: diff_bytes(want, b))
                touched = True
                if len(b) < len(data):
                    resume = (st, len(b)) if len(op) > 2 and op[2] else None
                    if not b:
                        ctx.probe('write-at-start')
                else:
                    resume = None
            elif k == 'i':
                m = op[1] if len(op) > 1 else 99
                got = []
                for rec in ArchiveIterator(writer.get_stream()):
                    got.append(rec.rec_headers.get_header('WARC-Record-ID'))
                    if len(op) > 2 and op[2]:
                        rec.raw_stream.read()
                    if len(got) >= m:
                        break
                ctx.probe('iterated' if m > n else 'partly-iterated')
                ctx.check(got == ids[:m], 'wrong records read from the stream', lambda: 'want %s got %s' % (ids[:m], got))
                touched = True
                resume = None
            elif k == 'k':
                ctx.probe('seek')
                st = writer.get_stream()
                st.seek(min(len(data), int(op[1]) if len(op) > 1 else 0))
                touched = True
                resume = None
            ctx.log(k, len(data))
            if k in 'si' and i % 2:
                ctx.probe('contents-before-write')
                got = writer.get_contents()
                ctx.check(got == data, 'contents differ after a read', lambda: diff_bytes(data, got))
        got = writer.get_contents()
        ctx.check(got == data, 'contents differ at the end', lambda: diff_bytes(data, got))
        # the mandatory reading of all of it
        st = writer.get_stream()
        ctx.check([r.rec_headers.get_header('WARC-Record-ID') for r in ArchiveIterator(st)] == ids, 'wrong records at the end')
