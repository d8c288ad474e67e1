"""C24: buffered reads and line reads equal the plain byte sequence."""
import zlib

from vsim import model
from vsim.core import world, short, diff_bytes
from vsim.streams import gen_deliv, make_input, LineInput

PROP = 'C24'
RUNS = {'quick': 30000, 'thorough': 320000}
RULE = ('One run: a BufferedReader / DecompressingBufferedReader over a simulated source (plain, gzip '
        'with one or more members, zlib, raw deflate, brotli, or plain data announced as compressed) '
        'with a delivery schedule and block size, driven by a random history of read(n), readline(n) '
        'and next-member calls. Non-trivial: the source splits its data.')
REAL = ['warcio.bufferedreaders', 'zlib', 'brotli']
STUB = ['source stream (SimInput)', 'clock', 'entropy']
PROBES = ('plain', 'gzip', 'multi-member', 'all-members', 'empty-member', 'deflate', 'raw-deflate', 'br',
          'announced-not-compressed', 'readline-limit', 'negative-size', 'cut-at-member-end', 'starting-data')
ASSUMPTIONS = ['data announced as compressed but not: only data whose first bytes cannot start the '
               'announced format']


def definite_plain(data, comp):
    """True if no decompressor of this announcement yields output or stays undecided on data."""
    kinds = {'gzip': [31], 'deflate': [15, -15]}.get(comp)
    if kinds is None or not data:
        return False
    for wb in kinds:
        d = zlib.decompressobj(wb)
        bad = False
        try:
            for i in range(len(data)):
                if d.decompress(data[i:i + 1]):
                    return False
        except zlib.error:
            bad = True
        if not bad:
            return False
    return True


def gen(rng):
    k = rng.choice(['plain', 'gzip', 'gzip', 'gzip', 'deflate', 'rawdeflate', 'br', 'fake', 'fake'])
    members = [model.gen_content(rng, 0.02, 0.08)]
    for m in members:
        m['k'] = rng.choice(['text', 'crlf', 'nl', 'bin', 'hexish', 'zero', 'text'])
    if k == 'gzip':
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            members.append({'n': rng.choice([0, 1, 5, 300, 300, 5000]), 'k': rng.choice(['text', 'crlf', 'bin']), 's': rng.randrange(999)})
    if k == 'fake':
        members[0]['k'] = rng.choice(['text', 'crlf', 'hexish', 'text'])
    ops = []
    for _ in range(rng.randint(1, 30)):
        ops.append([rng.choice('rrlll'), rng.choice([None, -1, 0, 1, 2, 3, 5, 10, 60, 64, 1000, 16384, 40000])])
    plan = {'k': k, 'm': members, 'ops': ops, 'all': bool(k == 'gzip' and rng.random() < 0.6),
            'block': rng.choice([16384, 16384, 1, 2, 3, 10, 64, 1000]), 'ann': rng.choice(['gzip', 'deflate']),
            'start': rng.choice([0, 0, 0, 1, 5, 100]), 'cls': rng.randrange(2)}
    raw, pts = encode(plan)[0], encode(plan)[2]
    if len(raw) > 20000 and plan['block'] < 64:
        plan['block'] = 1000
    if sum(m['n'] for m in members) > 20000:
        plan['ops'] = [[o, n if n is None or n > 3 else 1000] for o, n in plan['ops']]
    plan['deliv'] = gen_deliv(rng, len(raw), pts)
    return plan


def encode(plan):
    """-> raw source bytes, list of member contents, boundary offsets"""
    ms = [model.content(m) for m in plan['m'] if isinstance(m, dict)] or [b'']
    k = plan['k']
    if k == 'gzip':
        raw, pts = b'', []
        for m in ms:
            raw += model.gzip_member(m)
            pts.append(len(raw))
        return raw, ms, pts
    m = ms[0]
    if k == 'deflate':
        raw = model.deflate(m)
    elif k == 'rawdeflate':
        raw = model.deflate(m, raw=True)
    elif k == 'br':
        raw = model.brotli(m)
    else:
        raw = m
    return raw, [m], [0, 1, 2, len(raw)]


def run(plan, ctx):
    from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
    raw, ms, pts = encode(plan)
    k = plan['k']
    dec = {'plain': None, 'gzip': 'gzip', 'deflate': 'deflate', 'rawdeflate': 'deflate', 'br': 'br',
           'fake': plan.get('ann', 'gzip')}[k]
    if k == 'rawdeflate':
        # raw deflate is found out only if the zlib header check fails on it
        try:
            zlib.decompressobj().decompress(raw)
            return
        except zlib.error:
            pass
    if k == 'fake':
        if dec not in ('gzip', 'deflate') or not definite_plain(ms[0], dec):
            return
    all_members = bool(plan.get('all')) and k == 'gzip'
    with world(ctx) as w:
        ctx.probe({'rawdeflate': 'raw-deflate', 'fake': 'announced-not-compressed'}.get(k, k))
        d = plan['deliv']
        if d['mode'] != 'full':
            ctx.nontrivial()
        if len(ms) > 1:
            ctx.probe('multi-member')
            if b'' in ms[:-1]:
                ctx.probe('empty-member')
            if set(pts[:-1]) & set(d.get('cuts', [])):
                ctx.probe('cut-at-member-end')
        st = min(max(0, plan.get('start', 0)), len(raw))
        src = make_input(raw[st:], d, ctx, w.clock)
        kw = {}
        if st:
            kw['starting_data'] = raw[:st]
            ctx.probe('starting-data')
        if all_members:
            kw['read_all_members'] = True
            ctx.probe('all-members')
        cls = BufferedReader
        if plan.get('cls') and k in ('gzip',):
            cls = DecompressingBufferedReader
        else:
            kw['decomp_type'] = dec
        r = cls(src, block_size=max(1, plan.get('block') or 1), **kw)
        stages = [b''.join(ms)] if all_members else ms
        ops = [o for o in plan['ops'] if o] + [['r', None]]
        oi = 0
        done = 0
        for si, data in enumerate(stages):
            pos = 0
            # each member gets part of the operations; the last ones drain
            while True:
                if oi < len(ops):
                    op = ops[oi]
                    oi += 1
                else:
                    op = ['r', 4096]
                n = op[1] if len(op) > 1 else None
                left = len(data) - pos
                lim = left if n is None or n < 0 else min(n, left)
                if n is not None and n < 0:
                    ctx.probe('negative-size')
                if op[0] == 'r':
                    b = r.read() if n is None else r.read(n)
                    want = data[pos:pos + lim]
                else:
                    if n:
                        ctx.probe('readline-limit')
                    b = r.readline() if n is None else r.readline(n)
                    e = data.find(b'\n', pos, pos + lim)
                    want = data[pos:(e + 1 if e >= 0 else pos + lim)]
                ctx.log(op[0], n, len(b))
                ctx.check(b == want, 'wrong bytes', lambda: 'member %d, %s(%r) at %d of %d: %s' % (
                    si, op[0], n, pos, len(data), diff_bytes(want, b)))
                pos += len(want)
                total = done + pos
                ctx.check(r.tell() >= total, 'tell() is behind what was handed out', lambda: '%d < %d' % (r.tell(), total))
                if pos == len(data) and oi >= len(ops):
                    break
                if pos == len(data) and si < len(stages) - 1 and (oi % 2 or n is None):
                    break
            ctx.check(r.read(10) == b'' and r.readline() == b'', 'bytes after the end')
            done += len(data)
            ctx.check(r.tell() == done, 'wrong tell() at the end', lambda: '%d, not %d' % (r.tell(), done))
            if si < len(stages) - 1:
                ctx.check(r.read_next_member(), 'next member not found', 'after member %d' % si)
        if not all_members:
            ctx.check(not r.read_next_member(), 'member after the last')
