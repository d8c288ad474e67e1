"""C11: digest checking accepts intact records and rejects damaged ones."""
import sys

from vsim import model
from vsim.core import world, short
from vsim.streams import gen_deliv, make_input

PROP = 'C11'
RUNS = {'quick': 14000, 'thorough': 220000}
RULE = ('One run: an archive whose records carry digests in random algorithms and forms, some with an altered '
        'byte, an altered digest or a block cut short, read with digest checking (record, log or raise) by a '
        'random reading history under a delivery schedule. Non-trivial: damage, or a mixed reading history.')
REAL = ['warcio.digestverifyingreader', 'warcio.limitreader', 'warcio.recordloader', 'warcio.archiveiterator', 'warcio.bufferedreaders',
        'hashlib', 'zlib', 'brotli']
STUB = ['input stream (SimInput)', 'stderr', 'clock', 'entropy']
PROBES = ('intact', 'damaged-payload', 'damaged-head', 'damaged-digest', 'cut-short', 'raise', 'log', 'record', 'skipped', 'partly-read',
          'decoded', 'lines', 'empty-block', 'empty-payload', 'not-parsed', 'segment', 'revisit', 'undigested', 'block-only',
          'payload-only', 'unknown-algorithm', 'algo-md5', 'algo-sha256', 'form-b16', 'form-b64')
ASSUMPTIONS = ['damage does not move the border between HTTP headers and payload',
               'revisit records and payload digests of segmented records are not checked (by design)',
               'with no_record_parse the payload digest of HTTP records is not checked']


def gen(rng):
    spec = model.gen_archive(rng, arc=False, nrec=rng.choice([1, 2, 2, 3, 4]), digests=0.93, big=0.015, edge=0.2)
    dmg = []
    for s in spec['recs']:
        if rng.random() < 0.1:
            s['hs'] = [h for h in s['hs'] if h['st'] == 0] + [{'n': 'WARC-Segment-Number', 'v': str(rng.choice([1, 2])), 'st': 0}]
        r = rng.random()
        if r < 0.5:
            dmg.append(None)
        else:
            dmg.append([rng.choice(['payload', 'payload', 'head', 'bdig', 'pdig', 'balg', 'palg']), rng.randrange(1 << 20), rng.randrange(255)])
    cut = None
    if rng.random() < 0.15:
        cut = rng.randrange(1 << 20)
    ops = []
    for _ in spec['recs']:
        ops.append([rng.choice(['skip', 'all', 'raw', 'lines', 'mixed', 'decoded', 'part', 'offset', 'empty']), rng.choice([1, 2, 7, 100, 1000, 16384, 40000]),
                    rng.randrange(1 << 20)])
    p = {'ar': spec, 'dmg': dmg, 'cut': cut, 'ops': ops, 'mode': rng.choice(['record', 'record', 'log', 'raise']),
         'norec': int(rng.random() < 0.12), 'block': rng.choice([16384, 16384, 16384, 1, 10, 500])}
    data, recs, _ = build(p)
    if len(data) > 20000 and p['block'] < 64:
        p['block'] = 16384
    pts = []
    for x in recs:
        pts += x['pts'] if not spec['gz'] else []
    p['deliv'] = gen_deliv(rng, len(data), pts)
    return p


def build(p):
    ar = model.build_archive(p['ar'])
    gz = bool(p['ar'].get('gz'))
    out, recs, pos = [], [], 0
    n = len(ar.recs)
    dmgs = p.get('dmg') or []
    for i, R in enumerate(ar.recs):
        head, block = R.head, bytearray(R.block)
        d = dmgs[i] if i < len(dmgs) and isinstance(dmgs[i], list) and len(dmgs[i]) == 3 else None
        bad_b = bad_p = False
        kind = None
        dig = R.spec.get('dig', 0)
        if d:
            k, at, x = d
            hl = len(R.http_raw)
            if k == 'payload' and len(block) > hl:
                j = hl + at % (len(block) - hl)
                block[j] ^= (x % 255) + 1
                bad_b = bad_p = True
                kind = 'damaged-payload'
            elif k == 'head' and R.http:
                # letters after the status line's first word only
                first = max(0, R.http_raw.find(b' '))
                c = [j for j in range(first, hl if first else 0) if chr(block[j]).isalnum() and block[j] < 128]
                if c:
                    j = c[at % len(c)]
                    block[j] = ord('Q') if block[j] != ord('Q') else ord('R')
                    bad_b = True
                    kind = 'damaged-head'
            elif k in ('bdig', 'pdig'):
                name = b'WARC-Block-Digest: ' if k == 'bdig' else b'WARC-Payload-Digest: '
                j = head.find(name)
                if j >= 0:
                    e = head.index(b'\r\n', j)
                    s = head.index(b':', j + len(name)) + 1
                    # a byte well inside the value (not the last, whose low bits may not count)
                    q = s + at % max(1, (e - s) // 2)
                    c = head[q:q + 1]
                    head = head[:q] + (b'A' if c != b'A' else b'B') + head[q + 1:]
                    if c in b'ab' and c == head[q:q + 1].lower():
                        head = head[:q] + b'C' + head[q + 1:]
                    if k == 'bdig':
                        bad_b = True
                    else:
                        bad_p = True
                    kind = 'damaged-digest'
            elif k in ('balg', 'palg'):
                # a digest that can not be checked does not pass, whatever the other one says
                name = b'WARC-Block-Digest: ' if k == 'balg' else b'WARC-Payload-Digest: '
                j = head.find(name)
                if j >= 0 and not (p.get('norec') and R.rec_type in ('response', 'request') and k == 'palg'):
                    s = j + len(name)
                    e = head.index(b':', s)
                    a = [b'xyz', b'sha11', b'shake_128', b'', b's ha1'][at % 5]
                    head = head[:s] + a + head[e:]
                    if k == 'balg':
                        bad_b = True
                    else:
                        bad_p = True
                    kind = 'unknown-algorithm'
        block = bytes(block)
        cutn = None
        if i == n - 1 and p.get('cut') is not None and block:
            cutn = p['cut'] % len(block)
            stored = head + block[:cutn]
            kind = 'cut-short'
            bad_b = bad_p = True
        else:
            stored = head + block + R.sep
        b = model.gzip_member(stored) if gz else stored
        out.append(b)
        recs.append({'R': R, 'bad_b': bad_b, 'bad_p': bad_p, 'kind': kind, 'dig': dig, 'cut': cutn, 'block': block,
                     'pts': [pos, pos + len(head), pos + len(head) + len(R.http_raw), pos + len(b)]})
        pos += len(b)
    return b''.join(out), recs, ar


def verdict(x, norec):
    """True / False / None: what digest checking must say about a completely read record."""
    R = x['R']
    if R.rec_type == 'revisit':
        return None
    checks = []
    if model.hget(R.headers, 'WARC-Block-Digest'):
        checks.append(not x['bad_b'])
    if model.hget(R.headers, 'WARC-Payload-Digest') and not any(k == 'WARC-Segment-Number' for k, v in R.headers):
        if not (norec and R.rec_type in ('response', 'request', 'revisit')):
            checks.append(not x['bad_p'])
    if not checks:
        return None
    return all(checks)


def consume(ctx, it, rec, x, op, norec):
    """-> True if the record was read completely by the caller"""
    import random
    k, n, s = (op + ['all', 16384, 0][len(op):]) if op else ('all', 16384, 0)
    st = rec.raw_stream
    n = max(1, int(n))
    if k == 'skip':
        ctx.probe('skipped')
        return False
    if k == 'empty':
        st.read(0)
        st.readline(0)
        return False
    if k == 'part':
        ctx.probe('partly-read')
        st.read(n)
        return False
    if k == 'offset':
        it.get_record_offset()
        return True
    if k == 'decoded':
        ctx.probe('decoded')
        ctx.nontrivial()
        c = rec.content_stream()
        total = 0
        while True:
            b = c.read(n)
            total += len(b)
            if not b or total > 1 << 25:
                break
        return False
    rng = random.Random(s)
    if k == 'all':
        while st.read():
            pass
        return True
    ctx.nontrivial()
    left = 1 << 20
    while left > 0:
        left -= 1
        if k == 'raw':
            b = st.read(n)
        elif k == 'lines':
            ctx.probe('lines')
            b = st.readline()
        else:
            c = rng.randrange(5)
            if c == 0:
                st.read(0)
                continue
            m = rng.choice([1, n, 3 * n + 1])
            b = st.read(m) if c < 3 else st.readline() if c == 3 else st.readline(m)
        if not b:
            return True
    return True


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    data, recs, ar = build(plan)
    mode = plan.get('mode')
    norec = bool(plan.get('norec'))
    ctx.probe(mode if mode in PROBES else 'record')
    if norec:
        ctx.probe('not-parsed')
    with world(ctx, seed=1) as w:
        src = make_input(data, plan['deliv'], ctx, w.clock)
        it = ArchiveIterator(src, check_digests={'record': True}.get(mode, mode), no_record_parse=norec,
                             block_size=max(1, plan.get('block') or 1))
        seen = []
        stop = None
        ops = plan.get('ops') or []
        want = [verdict(x, norec) for x in recs]
        for x, v in zip(recs, want):
            count(ctx, x, v)
        gen_ = iter(it)
        i = -1
        errpos = 0
        try:
            while True:
                i_next = i + 1
                rec = next(gen_, None)
                if rec is None:
                    break
                i = i_next
                ctx.check(i < len(recs), 'extra record')
                seen.append(rec)
                x = recs[i]
                op = ops[i] if i < len(ops) and isinstance(ops[i], list) else None
                if consume(ctx, it, rec, x, op, norec):
                    judge(ctx, rec, want[i], i, x, 'when read')
        except ArchiveLoadFailed as e:
            stop = e
        # with 'raise' the error comes while the damaged record is read or skipped
        if mode == 'raise':
            first = next((j for j, v in enumerate(want) if v is False), None)
            if first is None:
                ctx.check(stop is None, 'intact records raise a digest error', lambda: repr(stop))
            else:
                ctx.check(stop is not None, 'damaged record does not raise', lambda: 'record %d %s' % (first, recs[first]['kind']))
                ctx.check(len(seen) in (first, first + 1), 'error raised for the wrong record',
                          lambda: 'record %d damaged, %d seen, %r' % (first, len(seen), stop))
                want = want[:len(seen)]
        else:
            ctx.check(stop is None, 'unexpected error', lambda: repr(stop))
            ctx.check(len(seen) == len(recs),
                      'records missing', lambda: '%d of %d' % (len(seen), len(recs)))
            want = want[:len(seen)]
        for i, rec in enumerate(seen):
            judge(ctx, rec, want[i], i, recs[i], 'at the end')
        err = sys.stderr.getvalue()
        bad = [i for i, v in enumerate(want) if v is False]
        if mode == 'log':
            ctx.check(('digest' in err) == bool(bad), 'log does not agree with the verdicts', lambda: '%r, bad %s' % (err[:200], bad))
        elif mode == 'record':
            ctx.check('digest' not in err, 'problem logged though only recording was asked for', lambda: err[:200])


def judge(ctx, rec, want, i, x, when):
    got = rec.digest_checker.passed
    probs = list(rec.digest_checker.problems)
    ctx.log('verdict', i, got, len(probs))
    what = lambda: 'record %d (%s, digests %r, %s) %s: passed=%r %r' % (
        i, x['R'].rec_type, [v for k, v in x['R'].headers if 'Digest' in k], x['kind'], when, got, probs)
    if want is True:
        ctx.check(got is True and not probs, 'intact record does not pass', what)
    elif want is False:
        ctx.check(got is False and probs, 'damaged record not reported', what)
    else:
        ctx.check(got is None and not probs, 'verdict without a digest to check', what)


def count(ctx, x, v):
    R = x['R']
    if x['kind']:
        ctx.fault(x['kind'])
        ctx.probe(x['kind'])
    elif v:
        ctx.probe('intact')
    b, p = model.hget(R.headers, 'WARC-Block-Digest'), model.hget(R.headers, 'WARC-Payload-Digest')
    if not b and not p:
        ctx.probe('undigested')
    elif not p:
        ctx.probe('block-only')
    elif not b:
        ctx.probe('payload-only')
    if not R.block:
        ctx.probe('empty-block')
    elif not R.payload:
        ctx.probe('empty-payload')
    if R.rec_type == 'revisit':
        ctx.probe('revisit')
    if any(k == 'WARC-Segment-Number' for k, v in R.headers):
        ctx.probe('segment')
    if b or p:
        a, f = R.spec.get('algo'), R.spec.get('form', '')
        if 'algo-%s' % a in PROBES:
            ctx.probe('algo-%s' % a)
        if f.lower() == 'b16':
            ctx.probe('form-b16')
        if f.startswith('b64'):
            ctx.probe('form-b64')
