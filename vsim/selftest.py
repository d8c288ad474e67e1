"""Is one seed one execution?  Every run is executed several ways and its event log compared:
in one process in order, in the same process in reverse order (state left behind by other runs),
in a fork of its own, and in another interpreter with another hash seed."""
import json
import os
import subprocess
import sys

from vsim import runner, seams
from vsim.core import execute

ALL = ['C%02d' % i for i in range(1, 29)]


def digests(prop, seed, n, order):
    mod = runner.load(prop)
    known = runner.known_findings(prop)

    def f(send):
        out = {}
        idx = list(range(n))
        if order == 'rev':
            idx.reverse()
        elif order == 'odd':
            idx = idx[1::2] + idx[0::2]
        for i in idx:
            s, plan = runner.make_plan(mod, prop, seed, i)
            r = execute(mod, plan, known)
            out[i] = (r['digest'], r['vio']['kind'] if r['vio'] else None)
        send(('r', out))
    msgs, status = runner.in_child(f)
    for m in msgs:
        if m[0] == 'r':
            return m[1]
    return {'error': (str(msgs)[:500], status)}


def solo(prop, seed, n):
    mod = runner.load(prop)
    known = runner.known_findings(prop)
    out = {}
    for i in range(0, n, 7):
        s, plan = runner.make_plan(mod, prop, seed, i)
        r = runner.run_solo(mod, plan, known)
        out[i] = (r['digest'], r['vio']['kind'] if r['vio'] else None)
    return out


def foreign(prop, seed, n, hashseed):
    env = dict(os.environ, VSIM_HASHSEED=str(hashseed))
    p = subprocess.run([os.path.join(runner.ROOT, 'check'), '--digests', prop, '--seed', str(seed), '--runs', str(n)],
                       stdout=subprocess.PIPE, env=env)
    d = json.loads(p.stdout)
    return {int(k) if k.isdigit() else k: tuple(v) for k, v in d.items()}


def print_digests(prop, seed, n):
    print(json.dumps(digests(prop, seed, n, 'fwd')))
    return 0


def main(props, seed, n):
    bad = 0
    for prop in props or ALL:
        ref = digests(prop, seed, n, 'fwd')
        res = {'reverse order': digests(prop, seed, n, 'rev'), 'odd first': digests(prop, seed, n, 'odd'),
               'own process': solo(prop, seed, n), 'hash seed 7': foreign(prop, seed, n, 7),
               'random hash seed': foreign(prop, seed, n, 'random')}
        diff = {}
        for k, d in res.items():
            x = [i for i in d if d[i] != ref.get(i)]
            if x:
                diff[k] = x[:5]
        print('%s: %d runs, %d distinct logs, %s' % (prop, len(ref), len(set(v[0] for v in ref.values())),
                                                     'identical in %d other executions' % sum(len(d) for d in res.values())
                                                     if not diff else 'DIFFER %r' % diff))
        sys.stdout.flush()
        bad += bool(diff)
    return 1 if bad else 0
