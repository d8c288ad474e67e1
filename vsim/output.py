"""The standard output of a command, as a buffered file over a device that may be full or fail."""
import io

from vsim.disk import SimFS


def gen_out(rng):
    r = rng.random()
    if r < 0.85:
        return None
    return {'n': rng.choice([0, 0, 1, 2, 5]), 'kind': rng.choice(['nospace', 'eio', 'short']), 'times': rng.choice([1, 1, 0]),
            'part': rng.choice([0, 1, 100]), 'buf': rng.choice([1, 50, 8192, 8192])}


class Stdout(object):
    """raw: pass to run_cli(stdout_raw=...); data(): what reached the device"""
    def __init__(self, plan, ctx):
        f = dict(plan)
        if f.get('kind') == 'short':
            f['times'] = f.get('times') or 5
        self.fs = SimFS({'bufsize': max(1, int(f.get('buf') or 1)), 'faults': [dict(f, op='write', file='stdout')]})
        self.fs.ctx = ctx
        self.raw = self.fs.open_any('stdout', 'wb')

    @property
    def failed(self):
        """did a write fail for good?"""
        return self.fs.fired and self.fs.faults[0]['kind'] != 'short'

    def data(self):
        return self.fs.get('stdout')
