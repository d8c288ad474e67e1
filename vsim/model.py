"""Independent model of WARC/ARC/HTTP/gzip bytes: generates archives from small specs together
with what a correct reader must return for them.  Shares no code with warcio."""
import base64
import hashlib
import io
import random
import zlib

# ---------------------------------------------------------------- content
KINDS = ('text', 'bin', 'zero', 'crlf', 'warcish', 'gzish', 'nl', 'hexish')
_PRINT = bytes(32 + (i % 95) for i in range(256))
_CRLF = bytes([b'\r\n\na b:\r\n'[i % 9] for i in range(256)])
_HEX = bytes([b'0123456789abcdef\r\n;'[i % 19] for i in range(256)])
_TXT = bytes((10 if i % 37 == 0 else 32 + (i % 95)) for i in range(256))

SNIPS = [b'WARC/1.0\r\nWARC-Type: response\r\nContent-Length: 5\r\n\r\nhello\r\n\r\n',
         b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc', b'\r\n\r\n', b'\r\n', b'\n',
         b'WARC/1.0', b'0\r\n\r\n', b'5\r\nhello\r\n', b'\x1f\x8b\x08\x00\x00\x00\x00\x00',
         b'http://a/ 1.2.3.4 20200101000000 text/html 10\n']


def content(c):
    n = max(0, int(c.get('n', 0)))
    k = c.get('k', 'bin')
    rng = random.Random(c.get('s', 0))
    if n == 0:
        return b''
    if k == 'zero':
        return b'\0' * n
    if k == 'warcish':
        out = b''
        while len(out) < n:
            out += rng.choice(SNIPS)
        return out[:n]
    raw = rng.randbytes(n)
    if k == 'text':
        return raw.translate(_TXT)
    if k == 'crlf':
        return raw.translate(_CRLF)
    if k == 'hexish':
        return raw.translate(_HEX)
    if k == 'gzish':
        return (b'\x1f\x8b\x08' + raw)[:n]
    if k == 'nl':
        return b'\n' * n
    return raw


SIZES_EDGE = [0, 1, 2, 3, 4, 5, 16383, 16384, 16385, 32767, 32768, 32769]


def gen_size(rng, big=0.02, edge=0.15):
    r = rng.random()
    if r < big:
        return rng.choice([65535, 65536, 65537, 70000, 131072])
    if r < big + edge:
        return rng.choice(SIZES_EDGE)
    if r < 0.8:
        return rng.randint(0, 200)
    return rng.randint(200, 3000)


def gen_content(rng, big=0.02, edge=0.15):
    return {'n': gen_size(rng, big, edge), 'k': rng.choice(KINDS), 's': rng.randrange(1 << 20)}


# ---------------------------------------------------------------- digests
def digest(algo, data, form='b32'):
    h = hashlib.new(algo, data).digest()
    if form == 'b32':
        v = base64.b32encode(h).decode()
    elif form == 'b16':
        v = h.hex()
    elif form == 'B16':
        v = h.hex().upper()
    elif form == 'b64':
        v = base64.b64encode(h).decode()
    else:
        v = base64.urlsafe_b64encode(h).decode()
    return '%s:%s' % (algo, v)


# ---------------------------------------------------------------- compression
def gzip_member(data, level=9, flags=0):
    """One gzip member; flags adds optional header fields (1 name, 2 extra, 4 comment)."""
    c = zlib.compressobj(level, zlib.DEFLATED, -zlib.MAX_WBITS)
    body = c.compress(data) + c.flush()
    flg = 0
    opt = b''
    if flags & 2:
        flg |= 4
        opt += b'\x04\x00sl\x00\x00'
    if flags & 1:
        flg |= 8
        opt += b'rec.warc\0'
    if flags & 4:
        flg |= 16
        opt += b'comment\0'
    head = b'\x1f\x8b\x08' + bytes([flg]) + b'\0\0\0\0\x02\x03' + opt
    tail = (zlib.crc32(data) & 0xffffffff).to_bytes(4, 'little') + \
        (len(data) & 0xffffffff).to_bytes(4, 'little')
    return head + body + tail


def gunzip_members(data):
    """Split data into gzip members: list of (offset, end, content); raises ValueError if not."""
    out = []
    pos = 0
    while pos < len(data):
        d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        try:
            body = d.decompress(data[pos:])
        except zlib.error as e:
            raise ValueError('bad gzip at %d: %s' % (pos, e))
        if not d.eof:
            raise ValueError('incomplete gzip member at %d' % pos)
        end = len(data) - len(d.unused_data)
        out.append((pos, end, body))
        pos = end
    return out


def deflate(data, raw=False, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -zlib.MAX_WBITS if raw else zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


def brotli(data):
    import brotli as b
    return b.compress(data, quality=1)


def chunked(data, lay):
    """lay: {'sizes': [..], 'ext': int, 'trailers': int, 'hexstyle': int}"""
    sizes = [max(1, int(x)) for x in lay.get('sizes', []) if isinstance(x, int)] or [max(1, len(data))]
    out = []
    pos = 0
    i = 0
    ext = lay.get('ext', 0)
    hs = lay.get('hexstyle', 0)
    while pos < len(data):
        k = min(sizes[i % len(sizes)], len(data) - pos)
        h = ('%x' % k) if hs == 0 else ('%X' % k) if hs == 1 else ('%04x' % k)
        e = ['', ';name=value', ';a', '; q="x y"'][(ext + (i if ext else 0)) % 4 if ext else 0]
        if e and e[-1] != '"':
            # (size lines of more than 64 bytes are not taken as such)
            e += 'y' * min(62 - len(h) - len(e), int(lay.get('elen', 0)))
        out.append(h.encode() + e.encode() + b'\r\n' + data[pos:pos + k] + b'\r\n')
        pos += k
        i += 1
    out.append(b'0' + (b';last' if ext == 3 else b'') + b'\r\n')
    for t in range(lay.get('trailers', 0)):
        out.append(b'X-Trailer-%d: value %d%s\r\n' % (t, t, b'z' * min(20000, int(lay.get('tlen', 0)))))
    out.append(b'\r\n')
    return b''.join(out)


def gen_layout(rng, n):
    r = rng.random()
    if r < 0.3:
        sizes = [max(1, n)]
    elif r < 0.6:
        sizes = [rng.choice([1, 2, 5, 16, 100, 1000, 16384])]
    else:
        sizes = [rng.choice([1, 2, 3, 10, 50, 300, 16383, 20000]) for _ in range(rng.randint(1, 5))]
    # bound the number of chunks
    if n // max(1, min(sizes)) > 400:
        sizes = [max(s, n // 300) for s in sizes]
    return {'sizes': sizes, 'ext': rng.choice([0, 0, 0, 1, 2, 3]),
            'trailers': rng.choice([0, 0, 0, 1, 2, 2, 5]), 'elen': rng.choice([0, 0, 0, 10, 30, 60]), 'tlen': rng.choice([0, 0, 0, 0, 30, 100, 300, 1000, 9000]), 'hexstyle': rng.randrange(3)}


# ---------------------------------------------------------------- headers
def render_header(h):
    """h: {'n','v','st'} -> (bytes of the line(s), expected (name, value) or None)."""
    n, v, st = h['n'], h['v'], h.get('st', 0)
    if st == 0:
        return ('%s: %s\r\n' % (n, v)).encode('utf-8'), (n, v)
    if st == 1:         # no space
        return ('%s:%s\r\n' % (n, v)).encode('utf-8'), (n, v)
    if st == 2:         # blanks around
        return ('%s \t:  \t%s  \t\r\n' % (n, v)).encode('utf-8'), (n, v)
    if st == 3:         # folded
        return ('%s: %s\r\n more; folded\r\n\ttwice \r\n' % (n, v)).encode('utf-8'), \
            (n, v + ' more; folded' + '\ttwice')
    if st == 4:         # bare newline
        return ('%s: %s\n' % (n, v)).encode('utf-8'), (n, v)
    if st == 5:         # not a header
        return ('%s %s\r\n' % (n, v.replace(':', ''))).encode('utf-8'), None
    if st == 6:         # latin-1 bytes
        vv = v + 'caf\xe9'
        return ('%s: %s\r\n' % (n, vv)).encode('latin-1', 'replace'), \
            (n, vv.encode('latin-1', 'replace').decode('latin-1'))
    if st == 7:         # utf-8 text
        vv = v + '\u6587\u5b57'
        return ('%s: %s\r\n' % (n, vv)).encode('utf-8'), (n, vv)
    if st == 8:         # empty value
        return ('%s:\r\n' % n).encode('utf-8'), (n, '')
    if st == 9:         # long line
        vv = v + 'x' * 20000
        return ('%s: %s\r\n' % (n, vv)).encode('utf-8'), (n, vv)
    if st == 10:        # the value begins in a continuation line
        return ('%s:\r\n %s\r\n' % (n, v)).encode('utf-8'), (n, ' ' + v)
    return ('%s: %s\r\n' % (n, v)).encode('utf-8'), (n, v)


def render_headers(hs):
    raw, exp = b'', []
    for h in hs:
        b, e = render_header(h)
        raw += b
        if e is not None:
            exp.append(e)
    return raw, exp


CANON_STYLES = (0,)
ALL_STYLES = (0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
HTTP_STYLES = ALL_STYLES + (10,)


def gen_extra_headers(rng, prefix, styles, k=None):
    out = []
    for i in range(rng.choice([0, 0, 1, 2, 4]) if k is None else k):
        st = rng.choice(HTTP_STYLES if prefix == 'X-Http' and styles is ALL_STYLES else styles)
        out.append({'n': '%s-%d' % (prefix, rng.randrange(5)),
                    'v': rng.choice(['a', 'value with spaces', 'x:y: z', 'k=v; name="q"', '0',
                                     'http://e.com/?a=b', 'w' * rng.randint(1, 90)]),
                    'st': st})
    if styles is not CANON_STYLES and rng.random() < 0.02:
        out.append({'n': prefix + '-Long', 'v': 'l', 'st': 9})
    return out


STATUS = ['200 OK', '404 Not Found', '301 Moved Permanently', '200', '500 Internal  Server Error',
          '206 Partial Content', '204 No Content', '200 \u041e\u041a']
REQLINES = [('GET', '/ HTTP/1.1'), ('POST', '/form?x=1 HTTP/1.1'), ('HEAD', '/a HTTP/1.0'),
            ('PUT', '/p HTTP/1.1'), ('OPTIONS', '* HTTP/1.1'), ('CONNECT', 'h:443 HTTP/1.1'),
            ('PATCH', '/p HTTP/1.1'), ('DELETE', '/d HTTP/1.0'), ('TRACE', '/ HTTP/1.1'), ('PROPFIND', '/dav/ HTTP/1.1'), ('get', '/lower HTTP/1.1')]
URIS = ['http://example.com/', 'https://example.org/path/file.html?q=1&r=2', 'http://e.com/%20x',
        'http://example.com:8080/a', 'https://[::1]/x', 'http://example.com/' + 'p' * 300,
        u'http://ex\xe4mple.com/\u20ac?\U0001f600']
NONHTTP = ['urn:x:1', 'dns:example.com', 'ftp://e.com/f', 'file.html', 'whois:e.com']


# ---------------------------------------------------------------- WARC records
class Rec(object):
    """One realised record: raw bytes and what a correct reader yields."""
    __slots__ = ('head', 'block', 'payload', 'rec_type', 'protocol', 'headers', 'http', 'entity',
                 'decodable', 'fmt', 'id', 'uri', 'sep', 'spec', 'offset', 'length', 'stored',
                 'http_raw', 'w2')


def gen_http(rng, kind, styles=ALL_STYLES):
    if styles is ALL_STYLES and rng.random() < 0.02:
        # no headers: just the blank line, or only a protocol before it
        return {'sl': [], 'hs': [], 'blank': rng.choice([1, 2])}
    if kind == 'request':
        sl = list(rng.choice(REQLINES))
    else:
        sl = [rng.choice(['HTTP/1.1'] * 6 + ['HTTP/1.0'] * 4 + ['HTTP/2', 'ICY', 'http/1.1', 'HTTP/0.9']), rng.choice(STATUS)]
    return {'sl': sl, 'hs': gen_extra_headers(rng, 'X-Http', styles)}


def gen_record(rng, styles=ALL_STYLES, types=None, big=0.02, edge=0.15, enc=0.35, digests=0.5,
               ver=None):
    t = rng.choice(types or ['response'] * 6 + ['request'] * 3 + ['revisit'] * 2 +
                   ['warcinfo', 'metadata', 'resource', 'conversion', 'continuation', 'x-custom'])
    odd = rng.random()
    r = {'t': t, 'id': rng.randrange(1 << 60), 'ver': ver or rng.choice(['1.0', '1.0', '1.1', '0.18', '0.17']),
         'hs': gen_extra_headers(rng, 'WARC-X', styles), 'ord': rng.randrange(4),
         'day': rng.randrange(20000)}
    if odd < 0.03:
        r['hcase'] = rng.choice(['lower', 'upper'])
    elif odd < 0.06:
        r['noct'] = 1
    http = t in ('response', 'request', 'revisit')
    if http and rng.random() < 0.9:
        r['uri'] = rng.randrange(len(URIS))
        if rng.random() < 0.06:
            r['usty'] = rng.choice([1, 2, 3])
        r['http'] = gen_http(rng, t, styles)
        if t == 'revisit' and rng.random() < 0.4:
            r['http'] = None
    else:
        r['nuri'] = rng.randrange(len(NONHTTP))
    if t == 'revisit':
        r['body'] = {'n': 0, 'k': 'bin', 's': 0}
    else:
        r['body'] = gen_content(rng, big, edge)
    if r.get('http') and t != 'revisit' and rng.random() < enc and not r['http'].get('blank'):
        e = {}
        if rng.random() < 0.7:
            e['te'] = gen_layout(rng, r['body']['n'])
        if rng.random() < 0.6:
            e['ce'] = rng.choice(['gzip', 'gzip', 'deflate', 'rawdeflate', 'br'])
        r['enc'] = e
    if rng.random() < digests:
        r['dig'] = rng.choice([1, 2, 3])
        r['algo'] = rng.choice(['sha1', 'sha1', 'sha256', 'md5', 'sha512'])
        r['form'] = rng.choice(['b32', 'b32', 'b16', 'B16', 'b64', 'b64u'])
    return r


def encode_entity(entity, enc):
    """-> (payload, extra http headers [(n, v)], decodable)"""
    hs = []
    data = entity
    ce = enc.get('ce')
    if ce == 'gzip':
        data = gzip_member(data)
    elif ce == 'deflate':
        data = deflate(data)
    elif ce == 'rawdeflate':
        data = deflate(data, raw=True)
    elif ce == 'br':
        data = brotli(data)
    if ce:
        hs.append(('Content-Encoding', {'rawdeflate': 'deflate'}.get(ce, ce)))
    if enc.get('te') is not None:
        data = chunked(data, enc['te'])
        hs.append(('Transfer-Encoding', 'chunked'))
    return data, hs


def iso(day, ver='1.0'):
    import datetime
    d = datetime.date.fromordinal(719163 + day)
    return d.isoformat() + ('T01:02:03.456789Z' if ver == '1.1' else 'T01:02:03Z')


def build_record(spec, i=0, canon=False):
    """Realise a WARC record spec."""
    R = Rec()
    R.fmt = 'warc'
    R.spec = spec
    t = str(spec.get('t') or 'resource')
    ver = str(spec.get('ver', '1.0'))
    entity = content(spec.get('body') or {})
    R.entity = entity
    payload = entity
    http = spec.get('http')
    R.http = None
    R.http_raw = b''
    uri = None
    if 'uri' in spec:
        uri = URIS[spec['uri'] % len(URIS)]
    elif 'nuri' in spec:
        uri = NONHTTP[spec['nuri'] % len(NONHTTP)]
        http = None
    if http:
        blank = http.get('blank')
        enc = {} if blank else spec.get('enc') or {}
        payload, eh = encode_entity(entity, enc)
        raw, exp = render_headers([] if blank else http.get('hs') or [])
        sl = [str(x) for x in (http.get('sl') or ['HTTP/1.1', '200 OK'])] + ['', '']
        line = (sl[0] + ' ' + sl[1]).encode()
        er = b''.join(('%s: %s\r\n' % h).encode() for h in eh)
        R.http_raw = line + b'\r\n' + raw + er + b'\r\n'
        R.http = (sl[0], sl[1].strip(), exp + eh)
        if blank:
            sl0 = 'HTTP/1.1' if blank == 2 else ''
            R.http_raw = sl0.encode() + (b'\r\n\r\n' if sl0 else b'\r\n')
            R.http = (sl0, '', [])
    R.payload = payload
    R.block = R.http_raw + payload
    rid = '<urn:uuid:%08x-0000-4000-8000-%012x>' % (i & 0xffffffff, int(spec.get('id', 0)) & 0xffffffffffff)
    R.id = rid
    R.uri = uri
    hs = [('WARC-Type', t), ('WARC-Record-ID', rid), ('WARC-Date', iso(int(spec.get('day', 0)), ver))]
    raw_uri = uri
    if uri is not None and 'uri' in spec:
        # as some crawlers write them; readers yield the proper form
        if spec.get('usty') in (2, 3):
            uri, raw_uri = uri + '?a%20b%20%20c', raw_uri + '?a b  c'
            R.uri = uri
        if spec.get('usty') in (1, 3):
            raw_uri = '<' + raw_uri + '>'
    if uri is not None and t != 'warcinfo':
        hs.append(('WARC-Target-URI', uri))
    algo, form = spec.get('algo', 'sha1'), spec.get('form', 'b32')
    dig = spec.get('dig', 0)
    if dig & 1:
        hs.append(('WARC-Block-Digest', digest(algo, R.block, form)))
    if dig & 2 and t not in ('warcinfo',):
        hs.append(('WARC-Payload-Digest', digest(algo, payload, form)))
    if spec.get('noct'):
        pass
    elif http:
        hs.append(('Content-Type', 'application/http; msgtype=' + ('request' if t == 'request' else 'response')))
    elif spec.get('ord', 0) != 3:
        hs.append(('Content-Type', 'application/octet-stream' if t != 'warcinfo' else 'application/warc-fields'))
    hs.append(('Content-Length', str(len(R.block))))
    o = spec.get('ord', 0)
    if o == 1:
        hs = hs[:1] + hs[:0:-1]
    elif o == 2:
        hs = hs[-1:] + hs[:-1]
    if spec.get('hcase') in ('lower', 'upper'):
        # names are case-insensitive
        hs = [(getattr(k, spec['hcase'])(), v) for k, v in hs]
    raw = b''.join(('%s: %s\r\n' % (k, raw_uri if k.lower() == 'warc-target-uri' else v)).encode() for k, v in hs)
    xr, xe = render_headers(spec.get('hs') or [])
    R.headers = hs + xe
    R.protocol = 'WARC/' + ver
    R.head = ('WARC/%s\r\n' % ver).encode() + raw + xr + b'\r\n'
    R.rec_type = t
    R.sep = b'\r\n\r\n'
    R.w2 = None
    return R


# ---------------------------------------------------------------- ARC records
def gen_arc_record(rng, first=False, big=0.02, edge=0.15):
    if first:
        return {'arc': 1, 'info': rng.choice(['LiveWeb Capture', 'InternetArchive', 'x', 'Biblioth\xe8que nationale \u20ac', 'Universit\xe4t']), 'ienc': rng.choice(['utf-8', 'utf-8', 'latin-1']), 'fn': rng.choice(['test.arc', 'file.arc', 'IAH-20080430204825-00000-blackbook.arc', '/0/d.arc', 'dir/les.arc.gz', '']),
                'body': {'n': rng.choice([0, 0, 20, 300]), 'k': 'text', 's': rng.randrange(1000)}}
    r = {'arc': 0, 'uri': rng.randrange(len(URIS)), 'usp': int(rng.random() < 0.1), 'ip': rng.randrange(1, 250),
         'ts': rng.choice(['20140216050221', '19991231235959', '20200229000000']),
         'ct': rng.choice(['text/html', 'image/png', 'unk', 'no-type', 'text/html;charset=utf-8', 'application/http', 'text/plain']),
         'http': gen_http(rng, 'response', ALL_STYLES), 'body': gen_content(rng, big, edge),
         'nl': rng.choice([1, 1, 2])}
    if rng.random() < 0.3:
        e = {}
        if rng.random() < 0.7:
            e['te'] = gen_layout(rng, r['body']['n'])
        if rng.random() < 0.6:
            e['ce'] = rng.choice(['gzip', 'deflate', 'br'])
        r['enc'] = e
    return r


def build_arc_record(spec):
    R = Rec()
    R.fmt = 'arc'
    R.spec = spec
    R.id = None
    R.http_raw = b''
    if spec.get('arc'):
        v = ('1 0 %s\n' % spec.get('info', 'x')).encode('latin-1' if spec.get('ienc') == 'latin-1' else 'utf-8', 'replace') + \
            b'URL IP-address Archive-date Content-type Archive-length\n'
        body = content(spec.get('body') or {})
        R.entity = R.payload = body
        R.block = body
        ln = len(v) + len(body)
        fn = str(spec.get('fn', 'test.arc')).replace(' ', '').replace('\n', '')
        line = 'filedesc://' + fn + ' 127.0.0.1 20140216050221 text/plain %d' % ln
        R.head = line.encode() + b'\n' + v
        R.rec_type = 'arc_header'
        R.protocol = 'WARC/1.0'
        R.http = None
        R.uri = 'filedesc://' + fn
        R.headers = list(zip(('uri', 'ip-address', 'archive-date', 'content-type', 'length'),
                             (R.uri, '127.0.0.1', '20140216050221', 'text/plain', str(ln))))
        R.w2 = ('warcinfo', [('WARC-Filename', fn), ('WARC-IP-Address', '127.0.0.1'),
                             ('WARC-Date', '2014-02-16T05:02:21Z'), ('Content-Type', 'text/plain')])
        R.sep = b'\n'
        return R
    entity = content(spec.get('body') or {})
    http = spec.get('http') or {'sl': ['HTTP/1.1', '200 OK'], 'hs': []}
    payload, eh = encode_entity(entity, spec.get('enc') or {})
    raw, exp = render_headers(http.get('hs') or [])
    sl = [str(x) for x in (http.get('sl') or ['HTTP/1.1', '200 OK'])] + ['', '']
    er = b''.join(('%s: %s\r\n' % h).encode() for h in eh)
    R.http_raw = (sl[0] + ' ' + sl[1]).encode() + b'\r\n' + raw + er + b'\r\n'
    R.http = (sl[0], sl[1].strip(), exp + eh)
    R.entity = entity
    R.payload = payload
    R.block = R.http_raw + payload
    R.uri = URIS[spec.get('uri', 0) % len(URIS)]
    if spec.get('usp'):
        R.uri += '?a b 1 2'
    ip = '10.0.0.%d' % int(spec.get('ip', 1))
    ts = str(spec.get('ts', '20140216050221'))
    ct = str(spec.get('ct', 'unk'))
    vals = (R.uri, ip, ts, ct, str(len(R.block)))
    R.head = ' '.join(vals).encode() + b'\n'
    R.headers = list(zip(('uri', 'ip-address', 'archive-date', 'content-type', 'length'), vals))
    R.rec_type = 'response'
    R.protocol = 'WARC/1.0'
    d = ts
    R.w2 = ('response', [('WARC-Target-URI', R.uri.replace(' ', '%20')), ('WARC-IP-Address', ip),
                         ('WARC-Date', '%s-%s-%sT%s:%s:%sZ' % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])),
                         ('Content-Type', 'application/http;msgtype=response')])
    R.sep = b'\n' * max(1, int(spec.get('nl', 1)))
    return R


# ---------------------------------------------------------------- archives
class Archive(object):
    def __init__(self, recs, data, spec):
        self.recs = recs
        self.data = data
        self.spec = spec
        self.gz = bool(spec.get('gz'))
        self.fmt = 'arc' if spec.get('arc') else 'warc'

    def interesting(self):
        """Byte positions where splitting, tearing or failing is most likely to matter."""
        pts = []
        for r in self.recs:
            pts += [r.offset, r.offset + r.length]
            if not self.gz:
                pts += [r.offset + r.head.find(b'\n')]
            if not self.gz:
                pts += [r.offset + len(r.head), r.offset + len(r.head) + len(r.http_raw),
                        r.offset + len(r.head) - 2, r.offset + r.length - 1]
            else:
                pts += [r.offset + 10, r.offset + r.length - 8, r.offset + r.length - 4]
        return pts


def build_archive(spec):
    """spec: {'arc': bool, 'gz': 0|1, 'recs': [...], 'gzflags': n, 'level': n}"""
    arc = bool(spec.get('arc'))
    specs = [s for s in spec.get('recs', []) if isinstance(s, dict)]
    recs = []
    out = []
    pos = 0
    n = len(specs)
    for i, s in enumerate(specs):
        if arc:
            # only the first record of an ARC is its file description
            s2 = dict(s)
            if s2.get('arc') and i:
                s2 = {'arc': 0, 'uri': i, 'ip': 1, 'body': s2.get('body')}
            R = build_arc_record(s2)
        else:
            R = build_record(s, i)
        if isinstance(s.get('pad'), int) and not (arc and i == 0):
            # some writers align records by more blank lines
            R.sep += (b'\n' if arc else b'\r\n') * min(20000, s['pad'])
        if spec.get('gz'):
            b = R.head + R.block + R.sep
            if spec.get('lead') and not arc and len(recs) < n - 1:
                # the blank lines after a record are in the next member
                b = b[:-len(R.sep)]
            if spec.get('lead') and not arc and recs:
                b = recs[-1].sep + b
            b = gzip_member(b'') * max(0, min(3, int(s.get('em', 0)))) + gzip_member(b, int(spec.get('level', 9)) % 10,
                            int(spec.get('gzflags', 0)))
            R.offset, R.length = pos, len(b)
            R.stored = b
        else:
            R.stored = R.head + R.block
            b = R.stored + R.sep
            R.offset, R.length = pos, len(R.stored)
        out.append(b)
        pos += len(b)
        recs.append(R)
    more = spec.get('more')
    if isinstance(more, dict):
        # an archive of the other kind follows in the same file
        b = build_archive(dict(more, gz=spec.get('gz'), more=None))
        for R in b.recs:
            R.offset += pos
        recs += b.recs
        out.append(b.data)
    ar = Archive(recs, b''.join(out), spec)
    ar.mixed = len(set(R.fmt for R in recs)) > 1
    return ar


def add_empty(rng, spec, p=0.04):
    """Empty gzip members before records, as left by sessions in which nothing was written."""
    if spec['gz'] and rng.random() < p:
        for r in spec['recs']:
            if rng.random() < 0.6:
                r['em'] = rng.choice([1, 1, 2, 3])
    return spec


def add_mixed(rng, spec, p=0.05):
    if rng.random() < p and not any(r.get('pad') for r in spec['recs']):
        spec['more'] = gen_archive(rng, arc=not spec['arc'], gz=spec['gz'], nrec=rng.choice([1, 2, 3]))
    return spec


def gen_archive(rng, arc=None, gz=None, nrec=None, **kw):
    arc = (rng.random() < 0.2) if arc is None else arc
    gz = (rng.random() < 0.5) if gz is None else gz
    n = nrec or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
    if arc:
        akw = {k: v for k, v in kw.items() if k in ('big', 'edge')}
        recs = [gen_arc_record(rng, i == 0 and rng.random() < 0.9, **akw) for i in range(n)]
    else:
        recs = [gen_record(rng, **kw) for _ in range(n)]
    if rng.random() < 0.05:
        for r in recs:
            if rng.random() < 0.6:
                r['pad'] = rng.choice([1, 2, 5, 100, 2000, 5000, 9000])
    a = {'arc': arc, 'gz': int(gz), 'recs': recs}
    if gz:
        a['gzflags'] = rng.choice([0, 0, 0, 1, 2, 7])
        a['level'] = rng.choice([0, 1, 6, 9, 9])
    return a


# ---------------------------------------------------------------- reading back
class ParseError(Exception):
    pass


def split_head(data, pos):
    """Lines of a header block starting at pos, and the position after the blank line."""
    end = data.find(b'\r\n\r\n', pos)
    if end < 0:
        raise ParseError('no end of headers at %d' % pos)
    lines = bytes(data[pos:end]).split(b'\r\n')
    return lines, end + 4


def parse_warc(data, strict=True):
    """Independent parser of an uncompressed, canonically written WARC."""
    out = []
    pos = 0
    while pos < len(data):
        lines, bpos = split_head(data, pos)
        if not lines[0].startswith(b'WARC/'):
            raise ParseError('not a WARC record at %d: %r' % (pos, lines[0][:40]))
        hs = []
        for ln in lines[1:]:
            if b': ' not in ln and not ln.endswith(b':'):
                raise ParseError('bad header line %r' % ln[:80])
            k, v = ln.split(b':', 1)
            hs.append((k.decode('utf-8'), v.decode('utf-8').strip(' ')))
        cl = [v for k, v in hs if k.lower() == 'content-length']
        if len(cl) != 1:
            raise ParseError('Content-Length %r' % (cl,))
        n = int(cl[0])
        if bpos + n + 4 > len(data):
            raise ParseError('record at %d: block of %d bytes and separator exceed the file' % (pos, n))
        block = bytes(data[bpos:bpos + n])
        if data[bpos + n:bpos + n + 4] != b'\r\n\r\n':
            raise ParseError('record at %d not followed by its separator: %r' %
                             (pos, bytes(data[bpos + n:bpos + n + 12])))
        out.append({'offset': pos, 'protocol': lines[0].decode(), 'headers': hs, 'block': block,
                    'end': bpos + n + 4})
        pos = bpos + n + 4
    return out


def parse_warc_file(data, gz):
    """Parse written output; with gz every record must be exactly one gzip member."""
    if not gz:
        return parse_warc(data)
    out = []
    try:
        members = gunzip_members(bytes(data))
    except ValueError as e:
        raise ParseError(str(e))
    for off, end, body in members:
        r = parse_warc(body)
        if len(r) != 1:
            raise ParseError('gzip member at %d holds %d records' % (off, len(r)))
        r[0]['offset'], r[0]['end'] = off, end
        out.append(r[0])
    return out


def hget(hs, name):
    for k, v in hs:
        if k.lower() == name.lower():
            return v
    return None


def hall(hs, name):
    return [v for k, v in hs if k.lower() == name.lower()]
