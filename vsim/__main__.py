import argparse
import os
import sys

REPO = os.environ.get('VSIM_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ['NO_PROXY'] = '*'
for k in list(os.environ):
    if k.lower() in ('http_proxy', 'https_proxy', 'all_proxy'):
        del os.environ[k]

from vsim import seams
seams.install()

import warcio      # noqa
assert os.path.dirname(os.path.dirname(os.path.abspath(warcio.__file__))) == os.path.abspath(REPO), warcio.__file__


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--plan', help='run and print one plan: PROP:index')
    ap.add_argument('--selftest', action='store_true', help='is every seed exactly repeatable?')
    ap.add_argument('--digests', help=argparse.SUPPRESS)
    a = ap.parse_args()
    from vsim import runner
    if a.replay:
        return runner.replay(a.replay)
    if a.plan:
        import json
        prop, i = a.plan.split(':')
        mod = runner.load(prop)
        s, plan = runner.make_plan(mod, prop, a.seed, int(i))
        print(json.dumps(plan, indent=1)[:6000])
        r = runner.judge(mod, plan, runner.known_findings(prop))
        print('\n'.join(r['events'][:60]))
        print(r['vio'], r['digest'])
        return 0
    if a.digests:
        from vsim import selftest
        return selftest.print_digests(a.digests, a.seed, a.runs or 200)
    if a.selftest:
        from vsim import selftest
        return selftest.main(a.props, a.seed, a.runs or 200)
    rc = 0
    for p in a.props:
        rc = max(rc, runner.check(p, a.tier, a.seed, a.jobs, a.runs))
    return rc


try:
    code = main()
except SystemExit as e:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    code = 2
sys.stdout.flush()
os._exit(code)
