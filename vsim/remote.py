"""A simulated remote file system, registered with fsspec as sim://"""
from fsspec.spec import AbstractFileSystem
import fsspec

from vsim.seams import World


class SimRemote(AbstractFileSystem):
    protocol = 'sim'
    cachable = False

    def _open(self, path, mode='rb', **kw):
        path = path.replace('sim://', '')
        w = World.cur
        if 'r' in mode:
            f = w.remote.get(path)
            if f is None:
                raise FileNotFoundError(path)
            return f() if callable(f) else f
        return w.fs.open_any('/simdisk/' + path.strip('/'), mode)

    def open(self, path, mode='rb', block_size=None, cache_options=None, compression=None, **kw):
        return self._open(path, mode)


fsspec.register_implementation('sim', SimRemote, clobber=True)


def serve(w, name, src):
    if not hasattr(w, 'remote'):
        w.remote = {}
    w.remote[name] = src
    return 'sim://' + name
