"""Running the warcio command line inside the simulated world."""
import io
import sys

from vsim import seams
from vsim.core import SimBase, tb_of


class Result(object):
    status = 0      # what the process would exit with
    exc = ''
    out = b''
    err = ''

    @property
    def failed(self):
        return self.status != 0


class Stdin(object):
    def __init__(self, raw):
        self.buffer = raw


def run_cli(args, stdin=None, fsspec=True, stdout_raw=None):
    """warcio <args>, as the console script would run it."""
    import warcio.utils
    from warcio.cli import main
    r = Result()
    out = stdout_raw if stdout_raw is not None else io.BytesIO()
    so, si, se = sys.stdout, sys.stdin, sys.stderr
    had = getattr(warcio.utils, 'HAS_FSSPEC', None)
    err = io.StringIO()
    txt = io.TextIOWrapper(out, encoding='utf-8', newline='\n', write_through=True)
    sys.stdout = txt
    sys.stderr = err
    sys.stdin = Stdin(stdin if stdin is not None else io.BytesIO(b''))
    if had is not None and not fsspec:
        warcio.utils.HAS_FSSPEC = False
    try:
        try:
            main(list(args))
        finally:
            if had is not None:
                warcio.utils.HAS_FSSPEC = had
        txt.flush()
    except SystemExit as e:
        c = e.code
        r.status = 0 if c is None else c if isinstance(c, int) else 1
        try:
            txt.flush()
        except Exception:
            # as the interpreter does when it can not flush at exit
            r.status = 120
    except SimBase:
        raise
    except BaseException as e:
        r.status = 1
        r.exc = tb_of(e)
    finally:
        sys.stdout, sys.stdin, sys.stderr = so, si, se
    r.err = err.getvalue()
    if stdout_raw is None:
        try:
            txt.flush()
        except ValueError:
            pass
        r.out = out.getvalue() if not out.closed else b''
        txt.detach()
    return r
