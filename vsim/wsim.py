"""Writer-side vocabulary: specifications of records to create, how to create them through the
public API, and what must come out."""
import io
from urllib.parse import unquote

from vsim import model
from vsim.core import short, diff_bytes
from vsim.streams import gen_deliv, SimInput, TellInput, SeekInput, LineInput

TYPES = ['response'] * 5 + ['request'] * 3 + ['resource'] * 2 + ['metadata', 'conversion', 'continuation', 'x-own']
HNAMES = ['Content-Type', 'X-A', 'Set-Cookie', 'Server', 'Set-Cookie', 'Date', 'X-Empty', 'Location']
HVALS = ['text/html', 'a=b; Path=/', 'value with spaces', '', '0', 'x' * 200, 'http://e.com/?q=1&r', 'a, b']
UVALS = ['\u6587\u5b57', 'caf\xe9', 'attachment; filename="\u0438\u0441.txt"', '\U0001f4c1 x', 'plain; x=\u0438']
SRC = ['bytes', 'bytes', 'nonseek', 'seek', 'tellraise', 'spool', 'limit']


def gen_hs(rng, uni=0.0):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        v = rng.choice(UVALS) if rng.random() < uni else rng.choice(HVALS)
        out.append([rng.choice(HNAMES), v])
    return out


def gen_src(rng, n):
    k = rng.choice(SRC)
    s = {'k': k}
    if k in ('nonseek', 'seek', 'tellraise', 'limit'):
        s['deliv'] = gen_deliv(rng, n)
        s['pre'] = rng.choice([0, 0, 0, 7]) if k == 'seek' else 0
    elif k == 'bytes':
        s['pre'] = rng.choice([0, 0, 0, 5])
    return s


def gen_edits(rng):
    """What a caller changes between creating (or reading) a record and writing it."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.choice(['ha', 'hr', 'hr', 'hd', 'hs', 'ra', 'rr'])
        out.append([k, rng.choice(HNAMES + ['X-New']), rng.choice(HVALS + ['X' * 300, 'changed'])])
    return out


def gen_wrec(rng, big=0.01, edge=0.1, copies=True):
    s = _gen_wrec(rng, big, edge, copies)
    if s['op'] != 'info' and rng.random() < 0.12:
        s['ed'] = gen_edits(rng)
    return s


def edit(ctx, rec, e, ed):
    for op in ed:
        if not isinstance(op, list) or len(op) != 3:
            continue
        k, n, v = str(op[0]), str(op[1]), str(op[2])
        if k[0] == 'r':
            n = 'X-Edit-' + n
            if k == 'ra':
                rec.rec_headers.add_header(n, v)
                e.headers.append((n, v.strip()))
            else:
                rec.rec_headers.replace_header(n, v)
                idx = [i for i, h in enumerate(e.headers) if h[0].lower() == n.lower()]
                if idx:
                    e.headers[idx[-1]] = (e.headers[idx[-1]][0], v.strip())
                else:
                    e.headers.append((n, v.strip()))
            ctx.probe('edited-record-headers')
            continue
        h = rec.http_headers
        if not h or e.http is None:
            continue
        ctx.probe('edited-http-headers')
        proto, sl, hs = e.http
        hs = list(hs)
        idx = [i for i, x in enumerate(hs) if x[0].lower() == n.lower()]
        if k == 'ha':
            h.add_header(n, v)
            hs.append((n, v))
        elif k == 'hr':
            h.replace_header(n, v)
            if idx:
                hs[idx[-1]] = (hs[idx[-1]][0], v)
            else:
                hs.append((n, v))
        elif k == 'hd':
            h.remove_header(n)
            if idx:
                del hs[idx[-1]]
        elif k == 'hs' and e.typ != 'request':
            h.statusline = sl = '299 Edited'
        e.http = (proto, sl, hs)


def _gen_wrec(rng, big=0.01, edge=0.1, copies=True):
    r = rng.random()
    if r < 0.07:
        return {'op': 'info', 'fn': rng.choice(['f.warc', 'x.warc.gz', None]),
                'info': [['software', 'x'], ['format', 'WARC File Format 1.0'], ['e', ''], ['u', '\u6587'], ['pad', ' a  b '], ['n', '0']][:rng.randint(0, 6)]}
    if r < 0.16:
        return {'op': 'revisit', 'uri': rng.randrange(6), 'http': {'sl': rng.choice(model.STATUS), 'hs': gen_hs(rng, 0.05)} if rng.random() < 0.7 else None,
                'wh': rng.randrange(5)}
    if copies and r < 0.36:
        # revisit records with a payload are not written back with it (by design)
        s = model.gen_record(rng, big=big, edge=edge)
        return {'op': 'copy', 'rec': s, 'gz': rng.randrange(2), 'chk': rng.randrange(2), 'deliv': None,
                'ds': rng.randrange(1 << 20), 'ens': int(rng.random() < 0.3)}
    if r < 0.52:
        a, b = gen_create(rng, 'request', big, edge), gen_create(rng, 'response', big, edge)
        b['uri'] = rng.randrange(len(model.URIS))
        return {'op': 'pair', 'req': a, 'resp': b}
    return gen_create(rng, rng.choice(TYPES), big, edge)


def gen_create(rng, t, big, edge):
    body = model.gen_content(rng, big, edge)
    if rng.random() < 0.004:
        body['n'] = 600000
    s = {'op': 'create', 't': t, 'body': body, 'len': rng.random() < 0.55, 'wh': rng.randrange(6), 'wo': int(rng.random() < 0.06),
         'src': gen_src(rng, body['n'])}
    if t in ('response', 'request'):
        s['uri'] = rng.randrange(len(model.URIS))
        k = rng.randrange(3)
        if k < 2:
            s['http'] = {'sl': (rng.choice(model.STATUS) if t == 'response' else 'GET'), 'hs': gen_hs(rng, 0.08),
                         'in': k,       # in=1: parsed from the payload
                         'sh': int(rng.random() < 0.4)}    # the same object as for an earlier record, changed
            if k == 1:
                s['src']['pre'] = 0
                s['http']['nl'] = rng.choice([0, 0, 0, 1])
        if rng.random() < 0.05:
            s['body']['n'] = 0
    else:
        s['nuri'] = rng.randrange(len(model.NONHTTP))
        if rng.random() < 0.3:
            s['uri'] = rng.randrange(len(model.URIS))
    if rng.random() < 0.3:
        s['ct'] = rng.choice(['text/plain', 'application/http; msgtype=' + t, 'image/x-y'])
    if rng.random() < 0.1:
        s['dg'] = rng.choice([1, 1, 2, 3])      # digests that the caller gives: payload, block, both
    return s


class NoSeekFile(object):
    """A pipe-like payload source: read and readline, no tell or seek."""
    def __init__(self, src):
        self.src = src
        self.read = src.read
        self.readline = src.readline


def make_source(ctx, w, s, data, faults=()):
    k = s.get('k', 'bytes')
    pre = max(0, int(s.get('pre', 0) or 0))
    d = dict(s.get('deliv') or {'mode': 'full'})
    if k == 'bytes':
        f = io.BytesIO(b'p' * pre + data)
        f.seek(pre)
        return f
    if k == 'spool':
        import tempfile
        f = tempfile.SpooledTemporaryFile(max_size=max(1, len(data) // 2))
        f.write(data)
        f.seek(0)
        return f
    if k == 'nonseek':
        ctx.probe('source-nonseek')
        return NoSeekFile(LineInput(data, d, ctx, w.clock, faults, 'src'))
    if k == 'seek':
        ctx.probe('source-seek')
        f = LineInput(b'p' * pre + data, d, ctx, w.clock, faults, 'src')
        f.pos = pre
        return f
    if k == 'tellraise':
        ctx.probe('source-tell-raises')
        d['tell'] = 'raise'
        return LineInput(data, d, ctx, w.clock, faults, 'src')
    from warcio.limitreader import LimitReader
    return LimitReader(LineInput(data + b'EXTRA', d, ctx, w.clock, faults, 'src'), len(data))


# the content types the records get when none is given
TYPE_OF = {'warcinfo': 'application/warc-fields', 'metadata': 'application/warc-fields', 'request': 'application/http; msgtype=request',
           'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response'}


class Exp(object):
    """What one written record must be."""
    def __init__(self, typ):
        self.typ = typ
        self.uri = None
        self.ver = None
        self.headers = []       # (name, value) that must be there, in this order
        self.http = None        # (protocol, statusline, headers)
        self.payload = b''
        self.id = None
        self.date = None
        self.copy = None
        self.ct = None
        self.pair = None        # the response's Exp, for a request of a pair
        self.want_pdig = True
        self.t0 = self.t1 = None
        self.odd = False
        self.got_date = None


def _http_obj(spec, t, filt):
    from warcio.statusandheaders import StatusAndHeaders
    h = spec['http']
    hs = [(str(n), str(v)) for n, v in (x for x in h.get('hs', []) if isinstance(x, list) and len(x) == 2)]
    if t == 'request':
        return StatusAndHeaders('GET /p HTTP/1.1', list(hs), is_http_request=True), ('GET', '/p HTTP/1.1', hs)
    sl = str(h.get('sl') or '200 OK')
    return StatusAndHeaders(sl, list(hs), protocol='HTTP/1.1'), ('HTTP/1.1', sl, hs)


def _wh(k, i):
    """Caller-supplied WARC headers."""
    if k == 1:
        return {'WARC-X-Own': 'value %d' % i, 'WARC-IP-Address': '1.2.3.4'}
    if k == 2:
        return {'WARC-Date': '2001-02-03T04:05:%02dZ' % (i % 60), 'WARC-Record-ID': '<urn:uuid:own-%d>' % i}
    if k == 3:
        return {'WARC-Protocol': 'h2', 'X-\u00fcni': '\u6587 text'}
    if k == 4:
        return {'Content-Type': 'x-own/type; a=%d' % i, 'WARC-Y': ''}
    return {}


def create(ctx, w, writer, spec, i, faults=()):
    """-> [(record, Exp)] ; may raise what the library raises."""
    out = _create_all(ctx, w, writer, spec, i, faults)
    if isinstance(spec.get('ed'), list):
        for rec, e in out:
            edit(ctx, rec, e, spec['ed'])
    return out


def _create_all(ctx, w, writer, spec, i, faults=()):
    op = spec.get('op')
    out = []
    t0 = w.clock.us
    if op == 'info':
        ctx.probe('warcinfo')
        info = dict((str(a), str(b)) for a, b in spec.get('info', []))
        rec = writer.create_warcinfo_record(spec.get('fn'), info)
        e = Exp('warcinfo')
        e.payload = b''.join(('%s: %s\r\n' % kv).encode('utf-8') for kv in info.items() if kv[1])
        if spec.get('fn'):
            e.headers.append(('WARC-Filename', spec['fn']))
        e.want_pdig = False
        e.ct = 'application/warc-fields'
        out.append((rec, e))
    elif op == 'revisit':
        ctx.probe('revisit')
        uri = model.URIS[spec.get('uri', 0) % len(model.URIS)]
        kw = {}
        e = Exp('revisit')
        if spec.get('http'):
            kw['http_headers'], e.http = _http_obj(spec, 'response', None)
        e.uri = uri
        wh = _wh(spec.get('wh'), i)
        if wh:
            kw['warc_headers_dict'] = dict(wh)
        rec = writer.create_revisit_record(uri, 'sha1:AAAA', 'http://orig/', '2000-01-01T00:00:00Z', **kw)
        _own(e, wh)
        e.headers += [('WARC-Refers-To-Target-URI', 'http://orig/'), ('WARC-Refers-To-Date', '2000-01-01T00:00:00Z'),
                      ('WARC-Payload-Digest', 'sha1:AAAA')]
        e.want_pdig = False
        e.ct = e.ct or 'application/http; msgtype=response'
        out.append((rec, e))
    elif op == 'pair':
        ctx.probe('pair')
        a = create(ctx, w, writer, dict(spec.get('req') or {}, op='create', t='request'), i, faults)
        b = create(ctx, w, writer, dict(spec.get('resp') or {}, op='create', t='response'), i + 1000, faults)
        a[0][1].pair = b[0][1]
        a[0][1].uri = b[0][1].uri
        return [b[0], a[0]]
    elif op == 'copy':
        return copies(ctx, w, spec, i)
    else:
        out.append(_create(ctx, w, writer, spec, i, faults))
    for rec, e in out:
        e.t0, e.t1 = t0, w.clock.us
        e.ver = e.ver or writer.warc_version
    return out


def _own(e, wh):
    for k, v in wh.items():
        if k == 'WARC-Date':
            e.date = v
        elif k == 'WARC-Record-ID':
            e.id = v
        elif k == 'Content-Type':
            e.ct = v
        else:
            e.headers.append((k, v))


def _create(ctx, w, writer, spec, i, faults):
    t = str(spec.get('t') or 'resource')
    e = Exp(t)
    body = model.content(spec.get('body') or {})
    if 'uri' in spec:
        uri = model.URIS[spec['uri'] % len(model.URIS)]
    else:
        uri = model.NONHTTP[spec.get('nuri', 0) % len(model.NONHTTP)]
    e.uri = uri
    wh = _wh(spec.get('wh'), i)
    kw = {}
    if wh:
        kw['warc_headers_dict'] = dict(wh)
    http = spec.get('http') if t in ('response', 'request') else None
    data = body
    if http and http.get('in') and data is not None:
        # the HTTP message comes as one byte stream
        ctx.probe('http-from-payload')
        obj, e.http = _http_obj(spec, t, None)
        lines = [(e.http[0] + ' ' + e.http[1])] + ['%s: %s' % h for h in e.http[2]]
        nl = '\n' if http.get('nl') else '\r\n'
        data = (nl.join(lines + ['', ''])).encode('utf-8') + body
        e.http = (e.http[0], e.http[1].strip(), [(k, v.strip()) for k, v in e.http[2]])
    elif http:
        ctx.probe('http-object')
        kw['http_headers'], e.http = _http_obj(spec, t, None)
        if http.get('sh'):
            shared = w.__dict__.setdefault('shared', {})
            if t in shared:
                ctx.probe('shared-http-object')
                new, kw['http_headers'] = kw['http_headers'], shared[t]
                kw['http_headers'].headers[:] = new.headers
                kw['http_headers'].statusline = new.statusline
            else:
                shared[t] = kw['http_headers']
    elif t in ('response', 'request') and not body:
        http = None
    elif t in ('response', 'request'):
        # raw bytes that are to be taken as the HTTP message
        data = b'HTTP/1.0 200 OK\r\n\r\n' + body if t == 'response' else b'POST / HTTP/1.0\r\n\r\n' + body
        e.http = ('HTTP/1.0', '200 OK', []) if t == 'response' else ('POST', '/ HTTP/1.0', [])
    e.payload = body
    e.ct = TYPE_OF.get(t, 'application/warc-record')
    src = make_source(ctx, w, spec.get('src') or {}, data, faults)
    if spec.get('len'):
        kw['length'] = len(data)
        ctx.probe('length-known')
    else:
        ctx.probe('length-unknown')
    _own(e, wh)
    dg = int(spec.get('dg') or 0)
    if dg:
        # right ones for a block of known length, which are kept; stale ones otherwise, which are replaced
        ctx.probe('digests-given')
        own = {}
        if dg & 1:
            own['WARC-Payload-Digest'] = model.digest('sha1', body) if spec.get('len') else 'sha1:STALE'
        if dg & 2 and (not spec.get('len') or (e.http is None and not spec.get('ed'))):
            own['WARC-Block-Digest'] = model.digest('sha1', data) if spec.get('len') else 'sha1:STALE2'
        if spec.get('len'):
            e.headers += list(own.items())
        wh = dict(wh, **own)
        if wh:
            kw['warc_headers_dict'] = dict(wh)
    e.ver = writer.warc_version
    if spec.get('wo'):
        # all record headers are the caller's
        ctx.probe('own-headers')
        from warcio.statusandheaders import StatusAndHeaders
        kw.pop('warc_headers_dict', None)
        e.id = e.id or '<urn:own:%d>' % i
        e.date = e.date or '2011-01-02T03:04:05Z'
        e.ver = 'WARC/1.0'
        hs = [('WARC-Type', t), ('WARC-Date', e.date), ('WARC-Target-URI', uri), ('WARC-Record-ID', e.id)]
        hs += [(k, v) for k, v in wh.items() if k not in ('WARC-Date', 'WARC-Record-ID')]
        kw['warc_headers'] = StatusAndHeaders('', hs, protocol=e.ver)
    if spec.get('ct'):
        kw['warc_content_type'] = e.ct = spec['ct']
    rec = writer.create_warc_record(uri, t, payload=src, **kw)
    return rec, e


def copies(ctx, w, spec, i):
    """Records read from another archive, to be written as they are."""
    from warcio.archiveiterator import ArchiveIterator
    ctx.probe('copied')
    ar = model.build_archive({'arc': False, 'gz': spec.get('gz', 0), 'recs': [dict(spec.get('rec') or {}, id=i)]})
    import random
    d = gen_deliv(random.Random(spec.get('ds', 0)), len(ar.data), ar.interesting())
    from vsim.streams import make_input
    src = make_input(ar.data, d, ctx, w.clock, name='old')
    # only those with HTTP headers again when read
    R = ar.recs[0]
    ens = bool(spec.get('ens')) and R.rec_type in ('response', 'request', 'revisit') and str(R.uri).startswith('http')
    it = ArchiveIterator(src, check_digests='log' if spec.get('chk') else False, ensure_http_headers=ens)
    rec = next(iter(it))
    e = Exp(R.rec_type)
    e.copy = R
    e.http = R.http
    e.payload = R.payload
    e.ver = R.protocol
    skip = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
    e.headers = [(k, v) for k, v in R.headers if k.lower() not in skip]
    if ens and not (R.http and any(R.http[1:])):
        # the record is given HTTP headers, which become part of its block
        ctx.probe('given-http-headers')
        ct = [v for k, v in R.headers if k.lower() == 'content-type']
        hs = ([('Content-Type', ct[0])] if ct else []) + [('Content-Length', str(len(R.payload)))]
        e.http = ('HTTP/1.0', '200 OK', hs)
    return [(rec, e)]


def header_filter(h):
    if h[0].lower() == 'set-cookie':
        return None
    if h[0].lower() == 'server':
        return (h[0], 'hidden')
    return h


def filtered(http, filt):
    if not filt or http is None:
        return http
    return (http[0], http[1], [x for x in (header_filter(h) for h in http[2]) if x])


def is_ascii(s):
    return all(ord(c) < 128 for c in s)


def same_http_value(want, got):
    """HTTP values are written as they are if ASCII, percent-encoded otherwise."""
    if is_ascii(want):
        return got == want.strip()
    if not is_ascii(got):
        return False
    if ';' not in want:
        return unquote(got) == want.strip()
    return True


def check_http(ctx, e, got, filt, what):
    """got: (protocol, statusline, headers) as read back"""
    want = filtered(e.http, filt)
    if want is None:
        ctx.check(got is None, 'unexpected http headers', lambda: what + short(got))
        return
    ctx.check(got is not None, 'http headers missing', what)
    ctx.check(got[0] == want[0], 'wrong http protocol', lambda: '%swant %r got %r' % (what, want[0], got[0]))
    ctx.check(same_http_value(want[1], got[1]), 'wrong http status line', lambda: '%swant %r got %r' % (what, want[1], got[1]))
    ctx.check(len(got[2]) == len(want[2]) and all(a[0] == b[0] and same_http_value(a[1], b[1]) for a, b in zip(want[2], got[2])),
              'wrong http headers', lambda: '%swant %s got %s' % (what, short(want[2]), short(got[2])))


def subsequence(want, got):
    it = iter(got)
    return all(any(x == y for y in it) for x in want)


def check_block(ctx, e, r, filt, what, gzip_ok=True):
    """r: a record of the independent parser (model.parse_warc). Framing was checked by the parser;
    here: mandatory headers, digests, content."""
    hs = r['headers']
    for n in ('WARC-Type', 'WARC-Record-ID', 'WARC-Date'):
        v = model.hall(hs, n)
        if e is not None and e.copy is not None:
            ctx.check(len(v) >= 1, 'mandatory header missing', lambda: what + n)
        else:
            ctx.check(len(v) == 1 and v[0], 'mandatory header missing or repeated', lambda: '%s%s: %r' % (what, n, v))
    b = model.hall(hs, 'WARC-Block-Digest')
    ctx.check(len(b) == 1, 'block digest missing or repeated', lambda: what + repr(b))
    ctx.check(same_digest(b[0], r['block']), 'wrong block digest',
              lambda: '%s%r for block %s' % (what, b[0], short(r['block'])))
    p = model.hall(hs, 'WARC-Payload-Digest')
    typ = model.hget(hs, 'WARC-Type')
    if typ not in ('warcinfo', 'revisit'):
        ctx.check(len(p) == 1, 'payload digest missing or repeated', lambda: what + repr(p))
    if typ != 'revisit':
        pay = e.payload if e is not None and e.odd else payload_of(r, e)
        for d in p:
            ctx.check(same_digest(d, pay), 'wrong payload digest', lambda: '%s%r for payload %s' % (what, d, short(pay)))


def payload_of(r, e=None):
    """The payload: the block, less the HTTP header block of an HTTP record."""
    ct = model.hget(r['headers'], 'Content-Type') or ''
    http = (e.http is not None) if e is not None else ct.startswith('application/http')
    if http and r['block'].startswith(b'\r\n'):
        return r['block'][2:]
    if http and r['block']:
        return r['block'][r['block'].index(b'\r\n\r\n') + 4:]
    return r['block']


def same_digest(value, data):
    algo, _, v = value.partition(':')
    for form in ('b32', 'b16', 'B16', 'b64', 'b64u'):
        try:
            if model.digest(algo, data, form).partition(':')[2] == v:
                return True
        except ValueError:
            return False
    return False
