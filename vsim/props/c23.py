"""C23: a length-limited stream never passes its limit."""
import io

from vsim import model
from vsim.core import world, short
from vsim.streams import gen_deliv, LineInput, READ_FAULTS

PROP = 'C23'
RUNS = {'quick': 26000, 'thorough': 400000}
RULE = ('One run: a LimitReader (possibly limited again at some point) over a simulated source with a '
        'delivery schedule and possibly read faults, driven by a random history of sized, unsized, '
        'zero and negative reads and line reads. Non-trivial: the source splits reads or fails.')
REAL = ['warcio.limitreader', 'warcio.bufferedreaders (as source in some runs)']
STUB = ['source stream (SimInput)', 'clock', 'entropy']
PROBES = ('negative-size', 'unsized', 'zero', 'relimit', 'relimit-wider', 'source-ends-early', 'fault', 'buffered-source',
          'limit-reached')
ASSUMPTIONS = ['the source honours the read(n)/readline(n) contract']


def gen_size(rng, lim):
    r = rng.random()
    if r < 0.12:
        return None
    if r < 0.22:
        return -1
    if r < 0.25:
        return -rng.randint(2, 50)
    if r < 0.32:
        return 0
    if r < 0.6:
        return rng.randint(1, 10)
    return rng.randint(1, lim + 20)


def gen(rng):
    c = model.gen_content(rng, 0.01, 0.05)
    c['k'] = rng.choice(['text', 'crlf', 'nl', 'bin', 'hexish'])
    n = c['n']
    lim = rng.choice([n, n, max(0, n - rng.randint(0, 10)), n + rng.randint(0, 10), rng.randint(0, n + 5)])
    ops = []
    for _ in range(rng.randint(1, 25)):
        r = rng.random()
        if r < 0.08:
            ops.append(['w', rng.choice([lim, rng.randint(0, lim + 10), lim + 100, -1]), rng.randrange(3)])
        elif r < 0.12:
            ops.append(['t'])
        else:
            ops.append([rng.choice('rl'), gen_size(rng, lim)])
    faults = []
    if rng.random() < 0.25:
        faults.append({'at': rng.randint(0, n), 'kind': rng.choice(READ_FAULTS), 'times': rng.choice([1, 2])})
    return {'c': c, 'lim': lim, 'ops': ops, 'deliv': gen_deliv(rng, n, [lim], True), 'faults': faults,
            'src': rng.choice([0, 0, 1]), 'wrap': rng.randrange(2), 'blk': rng.choice([1, 5, 100, 16384])}


def run(plan, ctx):
    from warcio.limitreader import LimitReader
    from warcio.bufferedreaders import BufferedReader
    data = model.content(plan['c'])
    with world(ctx) as w:
        raw = LineInput(data, plan['deliv'], ctx, w.clock, plan.get('faults', ()))
        buffered = plan.get('src') == 1
        src = BufferedReader(raw, block_size=max(1, plan.get('blk') or 1)) if buffered else raw
        if buffered:
            ctx.probe('buffered-source')
        lim = max(0, plan['lim'])
        if plan.get('wrap'):
            s = LimitReader.wrap_stream(src, str(lim) if lim % 2 else lim)
        else:
            s = LimitReader(src, lim)
        got = b''
        if plan['deliv']['mode'] != 'full':
            ctx.nontrivial()
        over = len(data)
        for op in plan['ops']:
            if not op:
                continue
            if op[0] == 't':
                ctx.check(s.tell() == len(got), 'wrong position', lambda: 'tell %r, %d handed out' % (s.tell(), len(got)))
                continue
            n = op[1] if len(op) > 1 else None
            if op[0] == 'w':
                if n is None:
                    continue
                style = op[2] if len(op) > 2 else 0
                arg = n if style == 0 else str(n)
                if style == 2:
                    arg = 'abc'         # not a number: the stream is returned as it is
                s2 = LimitReader.wrap_stream(s, arg)
                ctx.probe('relimit')
                ctx.log('wrap', n, style)
                if style != 2 and n >= 0:
                    if n > lim - len(got):
                        ctx.probe('relimit-wider')
                    lim = min(lim, len(got) + n)
                base = len(got)
                s = s2
                if s.tell() != base:
                    # a second reader around the first counts from its own start
                    ctx.check(s.tell() in (0, base), 'wrong position', lambda: 'tell %r after limiting, %d handed out' % (s.tell(), base))
                continue
            if n is None:
                ctx.probe('unsized')
            elif n < 0:
                ctx.probe('negative-size')
            elif n == 0:
                ctx.probe('zero')
            left = min(lim, len(data)) - len(got)
            try:
                if op[0] == 'r':
                    b = s.read() if n is None else s.read(n)
                else:
                    b = s.readline() if n is None else s.readline(n)
            except OSError as e:
                ctx.check(raw.fired > 0, 'error without fault', repr(e))
                ctx.probe('fault')
                if buffered or op[0] == 'l':
                    # what an interrupted line or buffered read had taken may be lost with it
                    over = None
                    break
                continue
            ctx.log(op[0], n, len(b))
            ctx.check(isinstance(b, bytes), 'result not bytes', lambda: short(b))
            ctx.check(len(got) + len(b) <= lim, 'limit passed', lambda: 'limit %d, handed out %d' % (lim, len(got) + len(b)))
            ctx.check(data[len(got):len(got) + len(b)] == b, 'wrong bytes', lambda: 'at %d: %s' % (len(got), short(b)))
            want = left if n is None or n < 0 else min(n, left)
            if want > 0:
                ctx.check(len(b) > 0, 'nothing returned before the end', lambda: '%s(%r) with %d left' % (op[0], n, left))
                ctx.check(len(b) <= want, 'more than asked', lambda: 'asked %r got %d' % (n, len(b)))
                if op[0] == 'l':
                    e = data.find(b'\n', len(got), len(got) + want)
                    e = e + 1 if e >= 0 else len(got) + want
                    ctx.check(len(got) + len(b) == e, 'wrong line', lambda: 'at %d want %d bytes got %s' % (len(got), e - len(got), short(b)))
                elif buffered:
                    ctx.check(len(b) == want, 'short read', lambda: 'asked %r got %d want %d' % (n, len(b), want))
            else:
                ctx.check(b == b'', 'bytes after the end', lambda: short(b))
            got += b
            if len(got) == lim:
                ctx.probe('limit-reached')
            if not buffered:
                ctx.check(raw.max_pos <= lim, 'took more than the limit from the source', lambda: '%d of %d' % (raw.max_pos, lim))
        if over is None:
            return
        # drain: liveness and conservation
        k = 0
        while True:
            try:
                b = s.read(7)
            except OSError:
                if buffered:
                    return
                continue
            if not b:
                break
            ctx.check(data[len(got):len(got) + len(b)] == b, 'wrong bytes', lambda: 'draining at %d: %s' % (len(got), short(b)))
            got += b
            k += 1
            ctx.check(len(got) <= lim, 'limit passed', lambda: 'limit %d, handed out %d' % (lim, len(got)))
        ctx.check(len(got) == min(lim, len(data)), 'stream ended early', lambda: '%d of %d' % (len(got), min(lim, len(data))))
        if lim > len(data):
            ctx.probe('source-ends-early')
        for _ in range(2):
            ctx.check(s.read() == b'' and s.readline() == b'' and s.read(-1) == b'' and s.read(3) == b'', 'bytes after the end')
        if not buffered:
            ctx.check(raw.max_pos <= lim, 'took more than the limit from the source', lambda: '%d of %d' % (raw.max_pos, lim))
