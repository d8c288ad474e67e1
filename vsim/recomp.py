"""Containers in which archives are found, and what a recompressed copy must hold."""
import io
import random

from vsim import model, wsim
from vsim.core import short, diff_bytes
from vsim.snap import headers_of, read_all


def gen_container(rng, spec):
    """How the records are stored: -> {'k': ...}; spec['gz'] decides 'asis'."""
    r = rng.random()
    if r < 0.4:
        return {'k': 'asis'}
    if r < 0.55:
        return {'k': 'whole'}
    if r < 0.75:
        return {'k': 'groups', 's': rng.randrange(1 << 20)}
    ar = model.build_archive(dict(spec, gz=0))
    pts = ar.interesting()
    n = len(ar.data)
    cuts = []
    for _ in range(rng.choice([1, 1, 2, 3, 10])):
        cuts.append(max(0, min(n, rng.choice(pts) + rng.choice([0, 0, 1, 2, 3, 4, -1, -2, -3, -4])) if rng.random() < 0.7 else rng.randint(0, n)))
    return {'k': 'pieces', 'cuts': sorted(cuts)}


def contain(spec, cont):
    """-> (model archive, stored bytes, is every record its own member or the file plain?)"""
    k = cont.get('k')
    lvl, fl = int(spec.get('level', 9)) % 10, int(spec.get('gzflags', 0))
    if k in ('whole', 'groups', 'pieces'):
        ar = model.build_archive(dict(spec, gz=0))
        data = ar.data
        if k == 'whole':
            return ar, model.gzip_member(data, lvl, fl), len(ar.recs) < 2
        if k == 'groups':
            rng = random.Random(cont.get('s', 0))
            cuts = [r.offset for r in ar.recs[1:] if rng.random() < 0.5]
        else:
            cuts = [max(0, min(len(data), int(c))) for c in cont.get('cuts') or [] if isinstance(c, int)]
        out, pos = [], 0
        for c in sorted(cuts) + [len(data)]:
            out.append(model.gzip_member(data[pos:c], lvl, fl))
            pos = c
        return ar, b''.join(out), False
    ar = model.build_archive(spec)
    return ar, ar.data, True


SKIP = ('content-length', 'warc-block-digest', 'warc-payload-digest')


def check_copy(ctx, ar, data, what=''):
    """data: a WARC that must hold the records of the model archive, one gzip member each."""
    from warcio.archiveiterator import ArchiveIterator
    try:
        recs = model.parse_warc_file(data, True)
    except model.ParseError as e:
        ctx.violate('malformed output', '%s%s' % (what, e))
    ctx.check(len(recs) == len(ar.recs), 'records missing' if len(recs) < len(ar.recs) else 'extra records',
              lambda: '%s%d of %d' % (what, len(recs), len(ar.recs)))
    for n, (R, r) in enumerate(zip(ar.recs, recs)):
        w = '%srecord %d (%s): ' % (what, n, R.rec_type)
        ctx.check(r['block'].endswith(R.payload) or R.rec_type == 'revisit' and R.http, 'wrong payload', lambda: w + diff_bytes(R.block, r['block']))
        if R.http is None:
            ctx.check(r['block'] == R.block, 'wrong block', lambda: w + diff_bytes(R.block, r['block']))
    n = 0
    for rec in ArchiveIterator(io.BytesIO(data), check_digests=True):
        R = ar.recs[n]
        w = '%srecord %d (%s): ' % (what, n, R.rec_type)
        typ, hdrs, proto = R.rec_type, R.headers, R.protocol
        if R.fmt == 'arc':
            typ, hdrs = R.w2
        got = [(str(k), v) for k, v in rec.rec_headers.headers]
        ctx.check(rec.rec_type == typ, 'wrong type', lambda: '%swant %r got %r' % (w, typ, rec.rec_type))
        if R.fmt == 'warc':
            ctx.check(rec.rec_headers.protocol == proto, 'wrong version', lambda: '%swant %r got %r' % (w, proto, rec.rec_headers.protocol))
        want = [(k, v) for k, v in hdrs if k.lower() not in SKIP]
        g = [(k, v) for k, v in got if k.lower() not in SKIP]
        if R.fmt == 'arc':
            g = [(k, v) for k, v in g if k not in ('WARC-Type', 'WARC-Record-ID')]
            i = model.hall(got, 'WARC-Record-ID')
            ctx.check(len(i) == 1 and i[0].startswith('<urn:uuid:'), 'converted record without id', w + repr(got))
        ctx.check(g == want, 'wrong record headers', lambda: '%swant %s\ngot  %s' % (w, short(want, 300), short(g, 300)))
        for d in ('WARC-Payload-Digest',):
            v = model.hall(hdrs, d)
            if v:
                ctx.check(model.hall(got, d) == v, 'payload digest changed', lambda: w + repr(got))
        if R.http is None:
            v = model.hall(hdrs, 'WARC-Block-Digest')
            if v:
                ctx.check(model.hall(got, 'WARC-Block-Digest') == v, 'block digest changed', lambda: w + repr(got))
        h = headers_of(rec.http_headers)
        want = R.http
        if want is None:
            ctx.check(h is None, 'unexpected http headers', lambda: w + short(h))
        else:
            ctx.check(h is not None, 'http headers missing', w)
            ctx.check(h[0] == want[0] and wsim.same_http_value(want[1], h[1]), 'wrong http status line', lambda: '%swant %r got %r' % (w, want[:2], h[:2]))
            ctx.check(len(h[2]) == len(want[2]) and all(a[0] == b[0] and wsim.same_http_value(a[1], b[1]) for a, b in zip(want[2], h[2])),
                      'wrong http headers', lambda: '%swant %s got %s' % (w, short(want[2], 300), short(h[2], 300)))
        body = read_all(rec.raw_stream)
        if not (R.rec_type == 'revisit' and R.http):
            ctx.check(body == R.payload, 'wrong payload', lambda: w + diff_bytes(R.payload, body))
        ctx.check(rec.digest_checker.passed is not False, 'record fails its digests', lambda: w + repr(rec.digest_checker.problems))
        n += 1
    ctx.check(n == len(ar.recs), 'records missing when read', lambda: '%s%d of %d' % (what, n, len(ar.recs)))
    return recs
