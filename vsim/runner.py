"""Seeds -> plans -> runs, on forked workers; shrinking, replay files, evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time as _t

from vsim import seams
from vsim.core import execute, HarnessError, InvalidPlan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
RUN_CPU_S = 25          # CPU seconds after which a run is suspected to hang
LINE_BUDGET = 6000000   # source lines after which a run is declared hanging (deterministic)
BATCH = 40
MEM = 6 << 30

real_time = seams.real_time


def seed_of(prop, verif_seed, i):
    h = hashlib.sha256(('%s:%d:%d' % (prop, verif_seed, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def load(prop):
    return importlib.import_module('vsim.props.' + prop.lower())


def make_plan(mod, prop, verif_seed, i):
    s = seed_of(prop, verif_seed, i)
    plan = mod.gen(random.Random(s))
    # the plan is exactly what its JSON text says
    return s, json.loads(json.dumps(plan))


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in seams.real_open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'known':
                out[d['sig']] = d['what']
    return out


# ------------------------------------------------------------------ workers
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Child(object):
    """A forked process running fn(send) -> messages."""
    def __init__(self, fn):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                _limits()
                gc.disable()
                fn(lambda o: _send(w, o))
                code = 0
            except BaseException as e:
                try:
                    import traceback
                    _send(w, ('error', traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.pid = pid
        self.buf = b''
        self.msgs = []
        self.status = None

    def pump(self):
        """Read what is available; return False at end."""
        d = os.read(self.fd, 1 << 20)
        if not d:
            os.close(self.fd)
            _, self.status = os.waitpid(self.pid, 0)
            return False
        self.buf += d
        while len(self.buf) >= 4:
            n = struct.unpack('>I', self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            self.msgs.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return True

    def wait(self):
        while self.pump():
            pass
        return self.msgs


def in_child(fn):
    c = Child(fn)
    return c.wait(), c.status


def run_solo(mod, plan, known=(), line_budget=None):
    """Run one plan in a fresh fork.  Returns a result dict (a suspected hang gives kind 'cpu')."""
    def f(send):
        signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S * (6 if line_budget else 1))
        send(('r', execute(mod, plan, known, line_budget)))
    msgs, status = in_child(f)
    for m in msgs:
        if m[0] == 'r':
            return m[1]
        if m[0] == 'error':
            raise HarnessError(m[1])
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
        return {'vio': {'kind': 'cpu', 'detail': 'CPU limit'}, 'events': [], 'digest': ''}
    return {'vio': {'kind': 'process died', 'detail': 'status %r' % status}, 'events': [], 'digest': ''}


def run_history(mod, plans, known=()):
    """Run several plans in one fresh fork; result of the last."""
    def f(send):
        r = None
        for p in plans:
            signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
            r = execute(mod, p, known)
        send(('r', r))
    msgs, status = in_child(f)
    for m in msgs:
        if m[0] == 'r':
            return m[1]
        if m[0] == 'error':
            raise HarnessError(m[1])
    return {'vio': {'kind': 'process died', 'detail': 'status %r' % status}, 'events': [], 'digest': ''}


def judge(mod, plan, known=()):
    """Deterministic verdict on one plan, hang included."""
    r = run_solo(mod, plan, known)
    if r['vio'] and r['vio']['kind'] == 'cpu':
        r = run_solo(mod, plan, known, LINE_BUDGET)
        if r['vio'] and r['vio']['kind'] == 'cpu':
            r['vio'] = {'kind': 'hang', 'detail': 'no end within the CPU limit'}
    return r


# ------------------------------------------------------------------ shrinking
def _variants(x):
    """Smaller variants of a JSON value, biggest cuts first: yields replacement values."""
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x:
            yield 0
            if abs(x) > 1:
                yield x // 2
            if x > 0:
                yield x - 1
    elif isinstance(x, list):
        n = len(x)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield x[:i] + x[i + k:]
            k //= 2
        for i in range(n):
            for v in _variants(x[i]):
                yield x[:i] + [v] + x[i + 1:]
    elif isinstance(x, dict):
        for k in sorted(x):
            if k.startswith('_'):
                continue
            for v in _variants(x[k]):
                d = dict(x)
                d[k] = v
                yield d
    elif isinstance(x, str) and len(x) > 12:
        yield x[:len(x) // 2]


def shrink(mod, plan, kind, known, seconds=60, tries=600):
    t0 = real_time()
    n = 0
    best = plan
    hang = kind == 'hang'
    progress = True
    while progress and n < tries and real_time() - t0 < seconds:
        progress = False
        for cand in _variants(best):
            if n >= tries or real_time() - t0 > seconds:
                break
            n += 1
            try:
                r = run_solo(mod, cand, known, 400000 if hang else None)
            except HarnessError:
                continue
            if r['vio'] and r['vio']['kind'] == kind:
                best = cand
                progress = True
                break
    return best, n


# ------------------------------------------------------------------ replay files
def write_replay(prop, seed, plan, res, history=None, orig=None, tries=0, tag=''):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {'property': prop, 'seed': seed, 'kind': res['vio']['kind'],
            'detail': res['vio']['detail'], 'plan': plan, 'history': history,
            'digest': res['digest'], 'trace': res['events'], 'shrink_attempts': tries,
            'original_plan': orig}
    name = '%s-%s.json' % (prop, hashlib.sha256(
        json.dumps([plan, history, res['vio']['kind']], sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    with seams.real_open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def replay(path):
    d = json.load(seams.real_open(path))
    mod = load(d['property'])
    known = known_findings(d['property'])
    if d.get('history'):
        r = run_history(mod, d['history'] + [d['plan']], known)
    else:
        r = judge(mod, d['plan'], known)
    same = bool(r['vio']) and r['vio']['kind'] == d['kind']
    exact = same and (r['digest'] == d['digest'])
    for e in r['events']:
        print('  ' + e)
    if r['vio']:
        print('replayed: %s\n%s' % (r['vio']['kind'], r['vio']['detail']))
        print('same violation: %s, identical event log: %s' % (same, exact))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('replayed: no violation')
    return 0


# ------------------------------------------------------------------ main loop
def check(prop, tier, verif_seed, jobs=None, runs=None, cap=None, quiet=False):
    t0 = real_time()
    mod = load(prop)
    known = known_findings(prop)
    total = runs or mod.RUNS[tier]
    cap = cap or (240 if tier == 'quick' else 3000)
    jobs = jobs or min(8, os.cpu_count() or 1)
    gc.collect()
    gc.freeze()

    next_i = 0
    active = {}
    done = 0
    agg = {'probes': {}, 'faults': {}, 'known': {}, 'sim': 0, 'events': 0, 'nontriv': 0}
    digests = set()
    nontriv_digests = set()
    samples = []
    failures = []       # (i, result, batch start)
    per_run = {}
    errors = []
    capped = False

    def batch_fn(lo, hi):
        def f(send):
            for i in range(lo, hi):
                send(('s', i))
                s, plan = make_plan(mod, prop, verif_seed, i)
                signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
                r = execute(mod, plan, known)
                if not r['vio']:
                    r['events'] = r['events'][:12] if i < 3 else []
                send(('d', i, s, r))
        return f

    while True:
        while (len(active) < jobs and next_i < total and len(failures) < 6 and not errors
               and not capped):
            if real_time() - t0 > cap:
                capped = True
                break
            hi = min(total, next_i + BATCH)
            c = Child(batch_fn(next_i, hi))
            c.lo, c.hi, c.cur = next_i, hi, None
            active[c.fd] = c
            next_i = hi
        if not active:
            break
        rd, _, _ = select.select(list(active), [], [], 5)
        for fd in rd:
            c = active[fd]
            alive = c.pump()
            for m in c.msgs:
                if m[0] == 's':
                    c.cur = m[1]
                elif m[0] == 'd':
                    _, i, s, r = m
                    c.cur = None
                    done += 1
                    per_run[i] = r['digest']
                    for k in ('probes', 'faults', 'known'):
                        for n, v in r[k].items():
                            agg[k][n] = agg[k].get(n, 0) + v
                    agg['sim'] += r['simtime_us']
                    agg['events'] += r['nevents']
                    digests.add(r['digest'])
                    if r['nontriv']:
                        agg['nontriv'] += 1
                        nontriv_digests.add(r['digest'])
                    if i < 3:
                        samples.append({'run': i, 'seed': s,
                                        'plan': make_plan(mod, prop, verif_seed, i)[1],
                                        'events': r['events'][:12]})
                    if r['vio']:
                        failures.append((i, r, c.lo))
                elif m[0] == 'error':
                    errors.append(m[1])
            c.msgs = []
            if not alive:
                del active[fd]
                if c.cur is not None and not errors:
                    failures.append((c.cur, {'vio': {'kind': 'cpu', 'detail': ''}}, c.lo))
                    if c.cur + 1 < c.hi:
                        next_hi = c.hi
                        c2 = Child(batch_fn(c.cur + 1, next_hi))
                        c2.lo, c2.hi, c2.cur = c.cur + 1, next_hi, None
                        active[c2.fd] = c2
        if len(failures) >= 6 or errors:
            # enough: end the other workers
            for c in list(active.values()):
                os.kill(c.pid, signal.SIGKILL)
                os.close(c.fd)
                os.waitpid(c.pid, 0)
            active = {}
            break

    if errors:
        sys.stderr.write('HARNESS ERROR\n' + errors[0] + '\n')
        return 2

    # determinism sample: re-run some seeds solo, logs must be identical
    redo = 0
    mismatch = []
    again = max(6, int(os.environ.get('VSIM_REDO') or 6))
    for i in sorted(per_run)[:again] + sorted(per_run)[-4:]:
        if failures:
            break
        s, plan = make_plan(mod, prop, verif_seed, i)
        r = run_solo(mod, plan, known)
        redo += 1
        if r['digest'] != per_run[i]:
            mismatch.append(i)

    # confirm, shrink and report
    reported = []
    kinds = set()
    flaky = []
    for i, r, lo in sorted(failures, key=lambda f: f[0]):
        if r['vio']['kind'] in kinds or len(reported) >= 3:
            continue
        s, plan = make_plan(mod, prop, verif_seed, i)
        solo = judge(mod, plan, known)
        history = None
        if not solo['vio']:
            # depends on earlier runs in the same process
            history = [make_plan(mod, prop, verif_seed, j)[1] for j in range(lo, i)]
            h = run_history(mod, history + [plan], known)
            if not h['vio']:
                flaky.append(i)
                continue
            while len(history) > 1:
                half = history[len(history) // 2:]
                h2 = run_history(mod, half + [plan], known)
                if not h2['vio']:
                    break
                history, h = half, h2
            res, small, tries = h, plan, 0
        else:
            if solo['vio']['kind'] in kinds:
                continue
            small, tries = shrink(mod, plan, solo['vio']['kind'], known)
            res = judge(mod, small, known)
            if not res['vio']:
                small, res = plan, solo
        kinds.add(r['vio']['kind'])
        kinds.add(res['vio']['kind'])
        path = write_replay(prop, s, small, res, history, plan if small is not plan else None, tries)
        reported.append((i, s, res, path))

    wall = real_time() - t0
    for sig in sorted(known):
        if sig in agg['known']:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(nontriv_digests),
        'rule': mod.RULE + ' Distinct: different event-log digests.',
        'samples': samples or [{'run': f[0], 'vio': f[1]['vio']} for f in failures[:1]] or ['none'],
        'runs_planned': total, 'stopped_at_wall_cap': capped,
        'runs_per_hour': int(done / wall * 3600) if wall > 0 else 0,
        'seeds_per_hour': int(done / wall * 3600) if wall > 0 else 0,
        'simulated_seconds': round(agg['sim'] / 1e6, 3),
        'events_logged': agg['events'],
        'distinct_event_logs': len(digests),
        'nontrivial_runs': agg['nontriv'],
        'faults_fired': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'probes_stuck_at_zero': [p for p in getattr(mod, 'PROBES', ()) if not agg['probes'].get(p)],
        'real_components': mod.REAL, 'stub_components': mod.STUB,
        'determinism_reexecutions': redo, 'determinism_mismatches': mismatch,
        'known_findings_hit': agg['known'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': verif_seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
          'wall_s': round(wall, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with seams.real_open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.rename(p + '.tmp', p)
    if not quiet:
        print('%s %s: %d runs, %d distinct non-trivial, %.1f s, faults %s' % (
            prop, tier, done, len(nontriv_digests), wall, cov['faults_fired']))
        print('  probes %s' % cov['probes'])
        if cov['probes_stuck_at_zero']:
            print('  probes at zero: %s' % cov['probes_stuck_at_zero'])
    for i, s, res, path in reported:
        print('run %d seed %d: %s' % (i, s, res['vio']['kind']))
        print('  ' + res['vio']['detail'].replace('\n', '\n  ')[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if reported:
        return 1
    if flaky or mismatch:
        sys.stderr.write('HARNESS ERROR: not repeatable: failing runs %r, digests of %r\n'
                         % (flaky, mismatch))
        return 2
    return 0
