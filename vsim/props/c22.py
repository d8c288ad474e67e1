"""C22: record ids are unique and dates are the true UTC time."""
import datetime as _dt
import io
import random
import re
import uuid

from vsim import model
from vsim.core import world, short
from vsim.disk import SimFS
from vsim.seams import Entropy
from vsim.streams import make_input

PROP = 'C22'
RUNS = {'quick': 20000, 'thorough': 120000}
RULE = ('One run: several simulated processes (forked twins included: same pseudo-random state and clock, '
        'fresh kernel entropy) in different time zones create records of every kind while the clock is '
        'frozen, ticks, jumps forward and steps back. Non-trivial: a clock fault or a second process.')
REAL = ['warcio.recordbuilder', 'warcio.warcwriter', 'warcio.statusandheaders', 'warcio.timeutils', 'warcio.recordloader (ARC conversion)', 'uuid', 'datetime']
STUB = ['clock', 'kernel entropy', 'time zone']
PROBES = ('frozen', 'step-back', 'jump', 'tick', 'twin', 'zone', 'v1.1', 'warcinfo', 'revisit', 'arc-converted', 'pair',
          'supplied-id', 'supplied-date', 'whole-second', 'year-end', 'leap-day', 'dst', 'shared-headers')
ASSUMPTIONS = ['the operating system\'s entropy source yields distinct values']
ZONES = ['UTC', 'EST5EDT', 'CET-1CEST', 'IST-5:30', 'XXX-14', 'YYY12', 'NST3:30NDT']
STARTS = {'plain': 1700000000 * 10 ** 6 + 123456, 'whole-second': 1700000001 * 10 ** 6,
          'year-end': int(_dt.datetime(2021, 12, 31, 23, 59, 59, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 6 + 999999,
          'leap-day': int(_dt.datetime(2024, 2, 29, 12, 0, 0, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 6 + 5,
          'dst': int(_dt.datetime(2023, 3, 12, 7, 0, 0, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 6 - 1,
          'old': int(_dt.datetime(1999, 1, 2, 3, 4, 5, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 6 + 67,
          'far': int(_dt.datetime(2040, 6, 7, 8, 9, 10, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 6 + 10}


def gen(rng):
    procs = []
    for i in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops.append([rng.choice(['create', 'create', 'create', 'revisit', 'info', 'pair', 'arc', 'id', 'date', 'nouri', 'shared', 'shared']),
                        rng.choice([0, 0, 0, 1, 999999, 10 ** 6, 3600 * 10 ** 6, -1, -5 * 10 ** 6, -7200 * 10 ** 6, 86400 * 365 * 10 ** 6])])
        procs.append({'ops': ops, 'start': rng.choice(sorted(STARTS)), 'tz': rng.choice(ZONES), 'tick': rng.choice([0, 0, 1, 7, 500000]),
                      'ver': rng.choice([None, '1.0', '1.1', '1.1']), 'twin': int(i > 0 and rng.random() < 0.5), 'filt': int(rng.random() < 0.2), 'buf': int(rng.random() < 0.2)})
    return {'procs': procs}


def parse_date(s):
    m = re.match(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?Z$', s or '')
    if not m:
        return None
    f = (m.group(7) or '').ljust(6, '0')
    t = _dt.datetime(*[int(x) for x in m.groups()[:6]], tzinfo=_dt.timezone.utc)
    return int((t - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)).total_seconds()) * 10 ** 6 + int(f or 0)


def run(plan, ctx):
    seen = {}
    prev = None
    for n, p in enumerate(plan.get('procs') or []):
        if not isinstance(p, dict):
            continue
        if n:
            ctx.nontrivial()
        q = dict(p)
        if p.get('twin') and prev:
            ctx.probe('twin')
            ctx.fault('forked-twin')
            q.update({k: prev[k] for k in ('start', 'tick')})
        prev = q
        start = STARTS.get(q.get('start'), STARTS['plain'])
        if q.get('start') in PROBES:
            ctx.probe(q['start'])
        tz = q.get('tz') if q.get('tz') in ZONES else 'UTC'
        if tz != 'UTC':
            ctx.probe('zone')
        # what a new process has of its own
        uuid._last_timestamp = None
        with world(ctx, seed=11, fs=SimFS({}), start_us=start, tz=tz) as w:
            w.entropy = Entropy('kernel-%d' % n)
            random.seed(99)
            w.clock.tick = max(0, int(q.get('tick', 0)))
            ctx.probe('tick' if w.clock.tick else 'frozen')
            process(ctx, w, q, n, seen)


def process(ctx, w, q, n, seen):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    out = io.BytesIO()
    kw = {'header_filter': lambda h: h} if q.get('filt') else {}
    if q.get('buf'):
        writer = BufferWARCWriter(gzip=False, warc_version=q.get('ver'), **kw)
        out = writer.out
    else:
        writer = WARCWriter(out, gzip=False, warc_version=q.get('ver'), **kw)
    shared = {'X-Same': '1'}
    v11 = '1.1' in str(q.get('ver'))
    if v11:
        ctx.probe('v1.1')
    for i, op in enumerate(q.get('ops') or []):
        if not op:
            continue
        k, move = op[0], (op[1] if len(op) > 1 and isinstance(op[1], int) else 0)
        w.clock.advance(move)
        if move < 0:
            ctx.fault('clock-step-back')
            ctx.probe('step-back')
        elif move > 10 ** 6:
            ctx.fault('clock-jump')
            ctx.probe('jump')
        elif move == 0 and not w.clock.tick:
            ctx.fault('clock-frozen')
        t0 = w.clock.us
        own_id = own_date = None
        recs = []
        pairs = []
        if k == 'revisit':
            ctx.probe('revisit')
            recs = [writer.create_revisit_record('http://a/', 'sha1:X', 'http://b/', '2000-01-01T00:00:00Z')]
        elif k == 'info':
            ctx.probe('warcinfo')
            recs = [writer.create_warcinfo_record('f.warc', {'a': 'b'})]
        elif k == 'arc':
            ctx.probe('arc-converted')
            ar = model.build_archive({'arc': True, 'recs': [{'arc': 1, 'info': 'x'}, {'arc': 0, 'uri': 0, 'ip': 1, 'body': {'n': 5}}]})
            for rec in ArchiveIterator(make_input(ar.data, {'mode': 'full'}, ctx, w.clock), arc2warc=True):
                rec.raw_stream.read()
                note(ctx, seen, rec, n)
                writer.write_record(rec) if rec.rec_type == 'warcinfo' else None
            continue
        elif k == 'pair':
            ctx.probe('pair')
            b = writer.create_warc_record('http://a/', 'response', payload=io.BytesIO(b'x'), http_headers=StatusAndHeaders('200 OK', [], protocol='HTTP/1.0'))
            t1 = w.clock.us
            w.clock.advance(10 ** 6)
            a = writer.create_warc_record('http://a/', 'request', http_headers=StatusAndHeaders('GET / HTTP/1.0', [], is_http_request=True))
            note(ctx, seen, b, n)
            note(ctx, seen, a, n)
            check_date(ctx, b, t0, t1, v11)
            d = b.rec_headers.get_header('WARC-Date')
            writer.write_request_response_pair(a, b)
            ctx.check(a.rec_headers.get_header('WARC-Date') == d, 'request of a pair does not carry the response\'s date')
            continue
        elif k == 'id':
            ctx.probe('supplied-id')
            own_id = '<urn:uuid:own-%d-%d>' % (n, i)
            recs = [writer.create_warc_record('http://a/', 'metadata', payload=io.BytesIO(b'x'), warc_headers_dict={('WARC-Record-ID', 'warc-record-id', 'Warc-Record-Id')[i % 3]: own_id})]
        elif k == 'date':
            ctx.probe('supplied-date')
            own_date = '2001-02-03T04:05:06Z'
            recs = [writer.create_warc_record('http://a/', 'metadata', payload=io.BytesIO(b'x'), warc_headers_dict={('WARC-Date', 'warc-date')[i % 2]: own_date})]
        elif k == 'shared':
            # headers that all records have
            ctx.probe('shared-headers')
            recs = [writer.create_warc_record('http://a/', 'resource', payload=io.BytesIO(b'x'), warc_headers_dict=shared),
                    writer.create_revisit_record('http://a/', 'sha1:X', 'http://b/', '2000-01-01T00:00:00Z', warc_headers_dict=shared),
                    writer.create_warc_record('http://a/', 'metadata', payload=io.BytesIO(b'x'), warc_headers_dict=shared)]
        else:
            recs = [writer.create_warc_record('http://a/' if k != 'nouri' else None, 'resource', payload=io.BytesIO(b'x'))]
        t1 = w.clock.us
        for rec in recs:
            note(ctx, seen, rec, n)
            if own_id:
                ctx.check(rec.rec_headers.get_header('WARC-Record-ID') == own_id, 'supplied id not kept')
            if own_date:
                ctx.check(rec.rec_headers.get_header('WARC-Date') == own_date, 'supplied date not kept')
            else:
                check_date(ctx, rec, t0, t1, v11)
            rid, date = rec.rec_headers.get_header('WARC-Record-ID'), rec.rec_headers.get_header('WARC-Date')
            w.clock.advance(10 ** 6)
            pos = out.tell()
            writer.write_record(rec)
            data = writer.get_contents() if q.get('buf') else out.getvalue()
            r = model.parse_warc(data[pos:])[0]
            ctx.check(model.hall(r['headers'], 'WARC-Record-ID') == [rid] and model.hall(r['headers'], 'WARC-Date') == [date],
                      'id or date changed when written', lambda: short(r['headers']))
        ctx.log(k, move)


def note(ctx, seen, rec, n):
    rid = rec.rec_headers.get_header('WARC-Record-ID')
    ctx.check(isinstance(rid, str) and rid.startswith('<urn:uuid:') and rid.endswith('>'), 'malformed id', lambda: short(rid))
    ctx.check(rid not in seen, 'record id used twice', lambda: '%s in process %d and %d' % (rid, seen[rid], n))
    seen[rid] = n


def check_date(ctx, rec, t0, t1, v11):
    s = rec.rec_headers.get_header('WARC-Date')
    t = parse_date(s)
    ctx.check(t is not None, 'malformed date', lambda: short(s))
    unit = 1 if v11 else 10 ** 6
    ctx.check(t0 // unit * unit <= t <= t1 // unit * unit, 'wrong date',
              lambda: '%s = %d, created between %d and %d' % (s, t, t0, t1))
    if not v11:
        ctx.check('.' not in s, 'fraction in a WARC/1.0 date', lambda: s)
