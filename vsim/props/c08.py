"""C08: every written record is correctly framed and its digests are true."""
import re

from vsim import model, wsim
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.props import c07
from vsim.streams import gen_deliv, make_input

PROP = 'C08'
RUNS = {'quick': 20000, 'thorough': 160000}
RULE = ('One run: a random sequence of created, copied, converted and paired records written to a simulated '
        'disk; the file bytes are then read by an independent strict parser. Non-trivial: a fragmented or '
        'non-seekable source, a copy or a pair.')
REAL = ['warcio.warcwriter', 'warcio.recordbuilder', 'warcio.statusandheaders', 'warcio.recordloader (copies)',
        'io buffers', 'zlib', 'tempfile.SpooledTemporaryFile']
STUB = ['disk (SimFS)', 'payload sources (SimInput)', 'clock', 'entropy']
PROBES = ('edited-http-headers', 'edited-record-headers', 'shared-http-object', 'warcinfo', 'revisit', 'pair', 'copied', 'http-from-payload', 'http-object', 'length-known', 'length-unknown',
          'source-nonseek', 'gzip', 'plain', 'header-filter', 'revisit-with-payload', 'arc-converted', 'fake-http-headers',
          'blank-http-headers', 'noncanonical-copy', 'supplied-digest', 'header-edited-copy')
ASSUMPTIONS = ['a declared length is the true length of the payload', 'copied records are complete',
               'a supplied digest is the digest of the record as created']


def gen(rng):
    p = c07.gen(rng)
    p.pop('a2w', None)
    recs = p['recs']
    for i, r in enumerate(recs):
        if rng.random() < 0.12:
            recs[i] = {'op': 'odd', 'k': rng.choice(['revpay', 'revpay2', 'revnohttp', 'arc', 'ens', 'blank', 'edit', 'dig', 'revcopy']),
                       'rec': model.gen_record(rng, types=['response', 'request'], enc=0.2),
                       'arc': model.gen_arc_record(rng), 'body': model.gen_content(rng, 0.01, 0.1),
                       'len': rng.randrange(2), 'ds': rng.randrange(1 << 20)}
    return p


def odd(ctx, w, writer, spec, i):
    """Unusual but legal records -> [(record, Exp or None)]"""
    import io
    import random
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeaders
    k = spec.get('k')
    body = model.content(spec.get('body') or {})
    rng = random.Random(spec.get('ds', 0))

    def read_one(data, **kw):
        src = make_input(data, gen_deliv(rng, len(data)), ctx, w.clock, name='old')
        return next(iter(ArchiveIterator(src, **kw)))
    kw = {'length': len(body)} if spec.get('len') else {}
    pay = body
    if k == 'revpay':
        ctx.probe('revisit-with-payload')
        rec = writer.create_warc_record('http://e.com/', 'revisit', payload=io.BytesIO(body),
                                        http_headers=StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1'), **kw)
    elif k == 'revpay2':
        ctx.probe('revisit-with-payload')
        m = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' + body
        rec = writer.create_warc_record('http://e.com/', 'revisit', payload=io.BytesIO(m), **({'length': len(m)} if kw else {}))
    elif k == 'revnohttp':
        ctx.probe('revisit-with-payload')
        rec = writer.create_warc_record('ftp://e.com/', 'revisit', payload=io.BytesIO(body), **kw)
    elif k == 'revcopy':
        ctx.probe('revisit-with-payload')
        s = dict(spec.get('rec') or {}, t='revisit', dig=1)
        ar = model.build_archive({'recs': [s]})
        rec = read_one(ar.data)
    elif k == 'arc':
        ctx.probe('arc-converted')
        ar = model.build_archive({'arc': True, 'gz': spec.get('len', 0), 'recs': [dict(spec.get('arc') or {}, arc=0)]})
        rec = read_one(ar.data, arc2warc=True)
        pay = ar.recs[0].payload
    elif k == 'ens':
        ctx.probe('fake-http-headers')
        s = dict(spec.get('rec') or {}, t=rng.choice(['resource', 'metadata']), http=None)
        ar = model.build_archive({'recs': [s]})
        rec = read_one(ar.data, ensure_http_headers=True)
        pay = ar.recs[0].block
    elif k == 'blank':
        ctx.probe('blank-http-headers')
        m = b'\r\n' + body
        if spec.get('len'):
            rec = writer.create_warc_record('http://e.com/', 'response', payload=io.BytesIO(m), length=len(m))
        else:
            data = (b'WARC/1.0\r\nWARC-Type: response\r\nWARC-Record-ID: <urn:x>\r\nWARC-Date: 2020-01-01T00:00:00Z\r\n'
                    b'WARC-Target-URI: http://e.com/\r\nContent-Type: application/http\r\nContent-Length: %d\r\n\r\n' % len(m)) + m + b'\r\n\r\n'
            rec = read_one(data)
    elif k == 'edit':
        ctx.probe('header-edited-copy')
        ar = model.build_archive({'recs': [dict(spec.get('rec') or {}, dig=3)]})
        rec = read_one(ar.data, check_digests=bool(spec.get('len')))
        pay = ar.recs[0].payload
        if rec.http_headers:
            c = rng.randrange(3)
            if c == 0:
                rec.http_headers.add_header('X-Added', 'v')
            elif c == 1 and rec.http_headers.headers:
                n = rec.http_headers.headers[0][0]
                rec.http_headers.replace_header(n, 'other')
            else:
                rec.http_headers.statusline = rec.http_headers.statusline[::-1].strip() or 'x'
    else:
        ctx.probe('supplied-digest')
        rec = writer.create_warc_record('http://e.com/', 'resource', payload=io.BytesIO(body),
                                        warc_headers_dict={'WARC-Block-Digest': model.digest('sha256', body),
                                                           'WARC-Payload-Digest': model.digest('md5', body)}, **kw)
    e = wsim.Exp(rec.rec_type)
    e.odd = True
    e.payload = pay
    return [(rec, e)]


ISO = re.compile(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z$')
UUID = re.compile(r'^<urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}>$')


def run(plan, ctx):
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    fs = SimFS({'bufsize': plan.get('bufsize', 8192), 'lat': 3, 'wfrag': plan.get('wfrag')})
    gz = bool(plan.get('gz'))
    with world(ctx, seed=1, fs=fs) as w:
        filt = wsim.header_filter if plan.get('filt') else None
        ctx.probe('gzip' if gz else 'plain')
        if filt:
            ctx.probe('header-filter')
        kw = dict(gzip=gz, warc_version=plan.get('ver'), header_filter=filt)
        fh = open('/simdisk/out.warc', 'wb')
        writer = BufferWARCWriter(**kw) if plan.get('buf') else WARCWriter(fh, **kw)
        exps, marks = [], []
        for i, spec in enumerate(plan.get('recs') or []):
            if not isinstance(spec, dict):
                continue
            op = spec.get('op')
            if op in ('copy', 'pair', 'odd') or (spec.get('src') or {}).get('k') not in (None, 'bytes'):
                ctx.nontrivial()
            if op == 'odd':
                made = odd(ctx, w, writer, spec, i)
            else:
                made = wsim.create(ctx, w, writer, spec, i)
            w.clock.advance(plan.get('lat', 0))
            if op == 'copy' and made[0][1].copy.http and any((h or {}).get('st') for h in
                                                         ((spec.get('rec') or {}).get('http') or {}).get('hs') or []):
                ctx.probe('noncanonical-copy')
            if op == 'pair':
                writer.write_request_response_pair(made[1][0], made[0][0])
            else:
                for rec, e in made:
                    writer.write_record(rec)
            exps += [e for rec, e in made]
            data = writer.get_contents() if plan.get('buf') else fs.get('/simdisk/out.warc')
            marks.append((len(exps), len(data)))
        try:
            recs = model.parse_warc_file(data, gz)
        except model.ParseError as ex:
            ctx.violate('malformed output', str(ex))
        ctx.check(len(recs) == len(exps), 'wrong number of records', lambda: 'wrote %d, file has %d' % (len(exps), len(recs)))
        for n, end in marks:
            ctx.check(n == 0 or recs[n - 1]['end'] == end, 'record not complete when its write returned',
                      lambda: 'after %d records: %d, record ends at %d' % (n, end, recs[n - 1]['end']))
        for n, (e, r) in enumerate(zip(exps, recs)):
            hs = r['headers']
            typ = model.hget(hs, 'WARC-Type')
            what = 'record %d (%s): ' % (n, typ)
            wsim.check_block(ctx, e, r, filt, what)
            if e.odd:
                ctx.check(e.typ == 'revisit' or r['block'].endswith(e.payload), 'wrong payload bytes', lambda: what + short(r['block']))
                continue
            ctx.check(typ == e.typ, 'wrong type', lambda: what + repr(e.typ))
            if e.copy is None:
                ctx.check(r['protocol'] == e.ver, 'wrong version', lambda: what + r['protocol'])
                if e.id is None:
                    ctx.check(UUID.match(model.hget(hs, 'WARC-Record-ID')), 'malformed id', lambda: what + repr(hs))
                ctx.check(ISO.match(model.hget(hs, 'WARC-Date')), 'malformed date', lambda: what + repr(hs))
                if not e.want_pdig:
                    want = [v for k, v in e.headers if k.lower() == 'warc-payload-digest']
                    ctx.check(model.hall(hs, 'WARC-Payload-Digest') == want, 'payload digest changed or added', lambda: what + repr(hs))
            pay = wsim.payload_of(r, e)
            ctx.check(pay == e.payload or e.typ == 'revisit', 'wrong payload bytes', lambda: what + short(pay))
            if e.pair is not None:
                resp = recs[n - 1]['headers']
                for a, b in (('WARC-Concurrent-To', 'WARC-Record-ID'), ('WARC-Target-URI', 'WARC-Target-URI'), ('WARC-Date', 'WARC-Date')):
                    ctx.check(model.hall(hs, a) == [model.hget(resp, b)], 'request does not match its response',
                              lambda: '%s%s %r, response %r' % (what, a, model.hall(hs, a), model.hget(resp, b)))
