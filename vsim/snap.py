"""Reading archives through warcio's public API into plain data, and comparing with the model."""
from vsim.core import diff_bytes, short, Violation


def headers_of(sh):
    if sh is None:
        return None
    return (sh.protocol, sh.statusline, [(str(k), v) for k, v in sh.headers])


def read_all(stream, size=None, limit=1 << 26):
    out = []
    n = 0
    while True:
        b = stream.read(size) if size else stream.read(16384)
        if not isinstance(b, (bytes, bytearray)):
            raise Violation('read returned %s' % type(b).__name__)
        if not b:
            return b''.join(out)
        out.append(bytes(b))
        n += len(b)
        if n > limit:
            raise Violation('stream does not end', '%d bytes' % n)


def expect_http(R):
    return R.http


def check_head(ctx, R, rec, arc2warc=False, no_parse=False, what=''):
    """Type, record headers and HTTP headers of one record against the model."""
    typ, hdrs = R.rec_type, R.headers
    got = [(str(k), v) for k, v in rec.rec_headers.headers]
    if R.fmt == 'arc' and arc2warc:
        typ = R.w2[0]
        g = [(k, v) for k, v in got if k not in ('WARC-Type', 'WARC-Record-ID', 'Content-Length')]
        ctx.check(g == R.w2[1], 'wrong converted headers', lambda: '%swant %s got %s' % (what, short(R.w2[1]), short(g)))
        rid = rec.rec_headers.get_header('WARC-Record-ID')
        ctx.check(isinstance(rid, str) and rid.startswith('<urn:uuid:'), 'converted record without id', short(rid))
        ctx.check(rec.rec_headers.get_header('WARC-Type') == typ, 'wrong converted type',
                  lambda: short(rec.rec_headers.get_header('WARC-Type')))
        ctx.check(rec.format == 'warc', 'wrong format', lambda: short(rec.format))
    else:
        ctx.check(got == hdrs, 'wrong record headers', lambda: '%swant %s\ngot  %s' % (what, short(hdrs, 400), short(got, 400)))
        if R.fmt == 'warc':
            ctx.check(rec.rec_headers.protocol == R.protocol, 'wrong protocol',
                      lambda: '%swant %r got %r' % (what, R.protocol, rec.rec_headers.protocol))
        ctx.check(rec.format == R.fmt, 'wrong format', lambda: short(rec.format))
    ctx.check(rec.rec_type == typ, 'wrong record type', lambda: '%swant %r got %r' % (what, typ, rec.rec_type))
    if no_parse:
        ctx.check(rec.http_headers is None, 'unexpected http headers', what)
        return
    h = headers_of(rec.http_headers)
    w = R.http
    if w is None:
        ctx.check(h is None, 'unexpected http headers', lambda: what + short(h))
    else:
        ctx.check(h is not None, 'http headers missing', what)
        ctx.check(h[2] == w[2], 'wrong http headers', lambda: '%swant %s\ngot  %s' % (what, short(w[2], 400), short(h[2], 400)))
        ctx.check((h[0], h[1]) == (w[0], w[1]), 'wrong http status line',
                  lambda: '%swant %r got %r' % (what, w[:2], h[:2]))


def body_of(R, no_parse=False):
    return R.block if no_parse else R.payload


def check_body(ctx, want, got, what=''):
    ctx.check(got == want, 'wrong payload', lambda: what + diff_bytes(want, got))
