"""C04: decoded content equals the original entity for any delivery."""
import zlib

from vsim import model
from vsim.core import world, short, diff_bytes
from vsim.streams import gen_deliv, make_input, LineInput

PROP = 'C04'
RUNS = {'quick': 30000, 'thorough': 300000}
RULE = ('One run: an archive of a record whose payload is the chunk-encoded and/or compressed entity '
        '(or is announced so without being so, or is cut off at a chosen byte, either inside an intact '
        'record or with the archive) followed by a second record; the content stream is read by a '
        'random history of read(n)/readline(n) calls under a delivery schedule. Non-trivial: a coded, '
        'mis-announced or cut payload.')
REAL = ['warcio.recordloader', 'warcio.bufferedreaders', 'warcio.limitreader', 'warcio.archiveiterator',
        'zlib', 'brotli']
STUB = ['input stream (SimInput)', 'clock', 'entropy']
PROBES = ('chunked', 'gzip', 'deflate', 'rawdeflate', 'br', 'chunked+coded', 'extensions', 'trailers', 'many-chunks',
          'empty-entity', 'not-chunked', 'not-coded', 'chunked-not-coded', 'coded-not-chunked', 'cut',
          'cut-in-data', 'cut-in-terminator', 'cut-in-size-line', 'cut-in-trailer', 'cut-archive', 'bad-terminator', 'line', 'identity', 'direct', 'direct-limited')
ASSUMPTIONS = ['chunk size lines are at most 64 bytes (longer ones are by design not taken as chunked)',
               'data announced as coded but not: only data which cannot be a prefix of that coding',
               'a cut before the first chunk is complete enough to be recognised may deliver the raw bytes']
CE = [None, 'gzip', 'deflate', 'rawdeflate', 'br']


def definite_plain(data, ce):
    """True if every decoder of this announcement fails on data before any output."""
    if not data:
        return False
    if ce == 'br':
        import brotli
        d = brotli.Decompressor()
        try:
            for i in range(len(data)):
                if d.decompress(data[i:i + 1]):
                    return False
        except brotli.error:
            return True
        return False
    kinds = {'gzip': [31], 'deflate': [15, -15]}[ce]
    for wb in kinds:
        d = zlib.decompressobj(wb)
        bad = False
        try:
            for i in range(len(data)):
                if d.decompress(data[i:i + 1]):
                    return False
        except zlib.error:
            bad = True
        if not bad:
            return False
    return True


def definite_not_chunked(data):
    i = data.find(b'\n')
    line = data[:64] if i < 0 or i >= 64 else data[:i + 1]
    if not line.endswith(b'\r\n'):
        return True
    try:
        return not 0 <= int(line[:-2].split(b';')[0], 16) <= 2 ** 31
    except ValueError:
        return True


def inflate_prefix(data, ce):
    """What of a cut coded payload can be decoded."""
    if ce == 'br':
        return None
    d = zlib.decompressobj({'gzip': 31, 'deflate': 15, 'rawdeflate': -15}[ce])
    return d.decompress(data)


def gen(rng):
    body = model.gen_content(rng, 0.02, 0.12)
    r = rng.random()
    p = {'body': body, 'cut': None, 'te': None, 'ce': None, 'ate': 0, 'ace': None, 'bad': None}
    if r < 0.55:
        mode = 'ok'
    elif r < 0.72:
        mode = 'mis'
    elif r < 0.97:
        mode = 'cut'
    else:
        mode = 'bad'
    if mode != 'mis':
        if rng.random() < 0.75 or mode == 'bad':
            p['te'] = model.gen_layout(rng, body['n'])
        if mode != 'bad' and (p['te'] is None or rng.random() < 0.45):
            p['ce'] = rng.choice(CE[1:])
        if mode == 'ok' and rng.random() < 0.05:
            p['te'] = p['ce'] = None
    else:
        body['k'] = rng.choice(['text', 'crlf', 'text', 'zero', 'nl', 'warcish', 'bin', 'hexish'])
        k = rng.randrange(4)
        if k in (0, 2):
            p['ate'] = 1            # announced chunked, is not
        if k in (1, 2):
            p['ace'] = rng.choice(['gzip', 'deflate', 'br'])
        if k == 0 and rng.random() < 0.5:
            p['ce'] = rng.choice(CE[1:])
        if k == 1 and rng.random() < 0.5:
            p['te'] = model.gen_layout(rng, body['n'])
        if k == 3:
            p['ate'] = 1
            p['ce'] = rng.choice(CE[1:])
    if mode == 'bad':
        p['bad'] = rng.randrange(6)
    enc = encode(p)
    n = len(enc['payload'])
    if mode == 'cut' and n:
        pts = enc['pts']
        if pts and rng.random() < 0.8:
            p['cut'] = max(0, min(n, rng.choice(pts) + rng.randint(-3, 4)))
        else:
            p['cut'] = rng.randint(0, n)
        p['trunc'] = int(rng.random() < 0.3)
    ops = []
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        ops.append([rng.choice('rrrl'), rng.choice([None, -1, 0, 1, 2, 3, 7, 64, 100, 1000, 16384, 40000])])
    p['ops'] = ops
    p['t'] = rng.choice(['response', 'response', 'request'])
    p['case'] = rng.randrange(3)
    p['gz'] = int(rng.random() < 0.3)
    p['dig'] = int(rng.random() < 0.2)
    # the payload straight from a source with short reads, instead of from an archive
    p['via'] = rng.choice([0, 0, 0, 1, 2])
    if p['via']:
        p['gz'] = p['dig'] = 0
    arch = build(p)
    if p['via']:
        arch = {'data': arch['payload'], 'off': 0}
    p['deliv'] = gen_deliv(rng, len(arch['data']), [arch['off'] + x for x in enc['pts']] if not p['gz'] else [])
    p['block'] = rng.choice([16384, 16384, 16384, 1, 7, 100, 1000])
    if n > 20000 and p['block'] < 64:
        p['block'] = 1000
    return p


def encode(p):
    entity = model.content(p.get('body') or {})
    ce, te = p.get('ce'), p.get('te')
    coded = model.encode_entity(entity, {'ce': ce} if ce else {})[0]
    payload = coded
    pts = [0, len(payload)]
    spans = []
    if te is not None:
        payload = model.chunked(coded, te)
        # spans of chunk data in the payload, found by an independent walk
        pos, left = 0, len(coded)
        while True:
            e = payload.index(b'\r\n', pos) + 2
            k = int(payload[pos:e - 2].split(b';')[0], 16)
            pts += [pos, e, e + k, e + k + 2]
            if k == 0:
                endline = e
                break
            spans.append((e, e + k))
            pos = e + k + 2
        pts += [len(payload)]
    return {'entity': entity, 'coded': coded, 'payload': payload, 'pts': pts[:400], 'spans': spans}


def build(p):
    e = encode(p)
    payload = e['payload']
    if p.get('cut') is not None:
        payload = payload[:max(0, p['cut'])]
    if p.get('bad') is not None and e['spans']:
        s, t = e['spans'][p['bad'] % len(e['spans'])]
        payload = payload[:t] + b'XY' + payload[t + 2:]
    hs = []
    case = p.get('case', 0)
    ce = p.get('ace') or p.get('ce')
    if ce:
        v = {'rawdeflate': 'deflate'}.get(ce, ce)
        hs.append((('Content-Encoding', 'content-encoding', 'CONTENT-ENCODING')[case % 3],
                   v.upper() if case == 2 else v))
    if p.get('te') is not None or p.get('ate'):
        hs.append((('Transfer-Encoding', 'transfer-encoding', 'Transfer-ENCODING')[case % 3],
                   'Chunked' if case == 2 else 'chunked'))
    t = p.get('t') if p.get('t') in ('response', 'request') else 'response'
    head = b'HTTP/1.1 200 OK\r\n' if t == 'response' else b'POST /x HTTP/1.1\r\n'
    head += b''.join(('%s: %s\r\n' % h).encode() for h in hs) + b'\r\n'
    block = head + payload
    wh = (b'WARC/1.0\r\nWARC-Type: %s\r\nWARC-Target-URI: http://example.com/\r\n'
          b'WARC-Record-ID: <urn:uuid:12345678-feb0-11e6-8f83-68a86d1772ce>\r\n'
          b'WARC-Date: 2020-01-01T00:00:00Z\r\nContent-Type: application/http; msgtype=%s\r\n' % (t.encode(), t.encode()))
    if p.get('dig'):
        wh += ('WARC-Block-Digest: %s\r\nWARC-Payload-Digest: %s\r\n' % (
            model.digest('sha1', block), model.digest('sha1', payload))).encode()
    wh += b'Content-Length: %d\r\n\r\n' % len(block)
    first = wh + block
    off = len(wh) + len(head)
    second = (b'WARC/1.0\r\nWARC-Type: resource\r\nWARC-Target-URI: http://example.com/2\r\n'
              b'WARC-Record-ID: <urn:uuid:22345678-feb0-11e6-8f83-68a86d1772ce>\r\n'
              b'WARC-Date: 2020-01-01T00:00:00Z\r\nContent-Length: 6\r\n\r\nsecond\r\n\r\n')
    trunc = bool(p.get('trunc')) and p.get('cut') is not None
    if p.get('gz') and not trunc:
        data = model.gzip_member(first + b'\r\n\r\n') + model.gzip_member(second)
    elif trunc:
        # the archive itself ends at the cut; the record announces its full length
        full = e['payload']
        wl = wh.replace(b'Content-Length: %d\r\n' % len(block), b'Content-Length: %d\r\n' % (len(head) + len(full)))
        data = wl + block
        off = len(wl) + len(head)
    else:
        data = first + b'\r\n\r\n' + second
    return {'data': data, 'off': off, 'enc': e, 'payload': payload, 'trunc': trunc, 'ce': ce, 'hs': hs}


def expectation(p, a):
    """-> list of acceptable contents, or (prefix-of,) marker"""
    e = a['enc']
    ce, te, ace = p.get('ce'), p.get('te'), p.get('ace')
    entity = e['entity']
    if p.get('bad') is not None and e['spans']:
        # best guess of the reader: from the broken chunk's size line on the bytes as they are
        i = p['bad'] % len(e['spans'])
        s, t = e['spans'][i]
        done = b''.join(e['payload'][x:y] for x, y in e['spans'][:i])
        raw = e['payload'][(e['spans'][i - 1][1] + 2 if i else 0):t]
        rest = e['payload'][t + 2:]
        return [done + raw + b'XY' + rest], done + raw + rest
    cut = p.get('cut')
    if cut is None:
        if p.get('ate') and te is None:
            if not definite_not_chunked(a['payload']):
                return None, None
        if ace and ace != ce:
            if ace not in ('gzip', 'deflate', 'br') or not definite_plain(e['coded'], ace):
                return None, None
            return [e['coded']], None
        if ce == 'rawdeflate':
            try:
                zlib.decompressobj().decompress(e['coded'])
                return None, None
            except zlib.error:
                pass
        return [entity], None
    cut = len(a['payload'])
    if cut == len(e['payload']) and ce != 'rawdeflate':
        return [entity], None
    if te is None:
        got = e['coded'][:cut]
        early = False
    else:
        got = b''.join(e['payload'][x:min(y, cut)] for x, y in e['spans'] if x < cut)
        first = e['payload'].index(b'\r\n') + 2
        # not yet recognisable as chunked: the first size line, or an end marker alone
        early = cut < first or (not e['spans'] and cut < len(e['payload']))
    if ce is None:
        return [got] + ([a['payload']] if early else []), None
    if early:
        return None, None
    if ce == 'br':
        return ('prefix', entity, a['payload'] if early else None), None
    if ce == 'rawdeflate':
        try:
            zlib.decompressobj().decompress(e['coded'])
            return None, None
        except zlib.error:
            pass
        try:
            zlib.decompressobj().decompress(got)
            # too short to tell raw deflate from zlib
            return ('prefix', entity, a['payload'] if early else None), None
        except zlib.error:
            pass
    want = inflate_prefix(got, ce)
    return [want] + ([a['payload']] if early else []), None


def direct(plan, a, via, ctx, w):
    """A record made in memory over a source that is not an archive (socket, pipe): short reads"""
    from warcio.limitreader import LimitReader
    from warcio.recordloader import ArcWarcRecord
    from warcio.statusandheaders import StatusAndHeaders
    src = LineInput(a['payload'] + (b'beyond the limit' if via == 2 else b''), plan['deliv'], ctx, w.clock)
    st = src if via == 1 else LimitReader(src, len(a['payload']))
    if plan.get('t') == 'request':
        h = StatusAndHeaders('POST /x HTTP/1.1', a['hs'], is_http_request=True)
    else:
        h = StatusAndHeaders('200 OK', a['hs'], protocol='HTTP/1.1')
    return ArcWarcRecord('warc', plan.get('t'), StatusAndHeaders('', [], protocol='WARC/1.0'), st, h, None, None)


def run(plan, ctx):
    from warcio.archiveiterator import ArchiveIterator
    a = build(plan)
    exp, known = expectation(plan, a)
    if exp is None:
        return
    e = a['enc']
    te, ce, ace = plan.get('te'), plan.get('ce'), plan.get('ace')
    if te is not None:
        ctx.probe('chunked')
        if te.get('ext'):
            ctx.probe('extensions')
        if te.get('trailers'):
            ctx.probe('trailers')
        if len(e['spans']) > 3:
            ctx.probe('many-chunks')
    if ce:
        ctx.probe(ce)
        if te is not None:
            ctx.probe('chunked+coded')
    if plan.get('ate') and te is None:
        ctx.probe('not-chunked')
        if ce:
            ctx.probe('coded-not-chunked')
    if ace and ace != ce:
        ctx.probe('not-coded')
        if te is not None:
            ctx.probe('chunked-not-coded')
    if not e['entity']:
        ctx.probe('empty-entity')
    if te is None and not ce and not ace and not plan.get('ate'):
        ctx.probe('identity')
    else:
        ctx.nontrivial()
    if plan.get('bad') is not None and e['spans']:
        ctx.probe('bad-terminator')
    if plan.get('cut') is not None:
        ctx.fault('payload-cut')
        c = len(a['payload'])
        ctx.probe('cut')
        if te is not None:
            if any(x <= c < y for x, y in e['spans']):
                ctx.probe('cut-in-data')
            elif any(y <= c < y + 2 for x, y in e['spans']):
                ctx.probe('cut-in-terminator')
            elif e['spans'] and c > e['spans'][-1][1] + 4:
                ctx.probe('cut-in-trailer')
            else:
                ctx.probe('cut-in-size-line')
        if a['trunc']:
            ctx.probe('cut-archive')
            ctx.fault('archive-cut')
    with world(ctx) as w:
        via = plan.get('via') or 0
        if via:
            ctx.probe('direct' if via == 1 else 'direct-limited')
            recs, rec = None, direct(plan, a, via, ctx, w)
        else:
            src = make_input(a['data'], plan['deliv'], ctx, w.clock)
            it = ArchiveIterator(src, block_size=max(1, plan.get('block') or 1), check_digests='log' if plan.get('dig') else False)
            recs = iter(it)
            rec = next(recs)
        st = rec.content_stream()
        got = []
        ops = [o for o in (plan.get('ops') or []) if o]
        pieces = []
        for op in ops + [['r', None], ['r', 100], ['l', None]]:
            n = op[1] if len(op) > 1 else None
            if op[0] == 'r':
                b = st.read() if n is None else st.read(n)
            else:
                ctx.probe('line')
                b = st.readline() if n is None else st.readline(n)
            ctx.check(isinstance(b, bytes), 'not bytes')
            ctx.log(op[0], n, len(b))
            pieces.append((op[0], n, b))
            got.append(b)
        plain = st is rec.raw_stream
        # not decoded: each call returns what the source delivers
        while plain and via:
            b = st.read(100)
            got.append(b)
            if not b:
                break
        got = b''.join(got)
        what = lambda: '%r' % {k: plan.get(k) for k in ('te', 'ce', 'ate', 'ace', 'cut', 'trunc')}
        if isinstance(exp, tuple):
            ok = exp[1].startswith(got) or (exp[2] is not None and got == exp[2])
            ctx.check(ok, 'wrong content', lambda: what() + ' ' + diff_bytes(exp[1], got))
        elif known is not None and got == known:
            ctx.violate('wrong content', what() + ' ' + diff_bytes(exp[0], got), sig='chunk-terminator-lost-bytes')
        else:
            ctx.check(got in exp, 'wrong content', lambda: what() + ' ' + diff_bytes(exp[0], got))
        # each call gets what a plain stream of the same content would give (a cut makes the end
        # of the data an implementation matter)
        pos = 0
        for k, n, b in [] if plain and via else pieces:
            left = len(got) - pos
            lim = left if n is None or n < 0 else min(n, left)
            want = got[pos:pos + lim]
            if k == 'l':
                e2 = got.find(b'\n', pos, pos + lim)
                if e2 >= 0:
                    want = got[pos:e2 + 1]
            ctx.check(b == want, 'wrong bytes from one call',
                      lambda: '%s(%r) at %d: %s' % (k, n, pos, diff_bytes(want, b)))
            pos += len(b)
        if recs is None:
            return
        if plan.get('dig') and not a['trunc'] and isinstance(exp, list) and te is not None and known is None and plan.get('cut') is None:
            ctx.check(rec.digest_checker.passed is True, 'intact record fails its digests after decoding',
                      lambda: repr(rec.digest_checker.problems))
        nxt = next(recs, None)
        if a['trunc']:
            ctx.check(nxt is None, 'record after the end of the archive')
        else:
            ctx.check(nxt is not None and nxt.rec_type == 'resource' and nxt.raw_stream.read() == b'second',
                      'following record lost or damaged')
            ctx.check(next(recs, None) is None, 'extra record')
