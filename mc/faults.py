"""Deterministic fault injection at file system access of one directory

Every open of a file below the directory (audit hook) and every HDF5 access
which can fail (h5py.File, create_dataset, create_group, attribute) is a
numbered fault point.
"""
import os
import sys

_STATE = {'dir': None, 'count': 0, 'at': None, 'exc': None, 'log': None}
_INSTALLED = []


class Injected(OSError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


KINDS = {'os': Injected, 'int': Interrupt}


def _point(what):
    s = _STATE
    if s['dir'] is None:
        return
    n = s['count']
    s['count'] += 1
    if n == s['at']:
        exc = s['exc']
        s['hit'] = what
        raise exc('injected at %d (%s)' % (n, what))


def _hook(event, args):
    if event != 'open' or _STATE['dir'] is None:
        return
    path = args[0]
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, str) and os.path.abspath(path).startswith(
            _STATE['dir']):
        _point('open')


def install():
    if _INSTALLED:
        return
    _INSTALLED.append(1)
    sys.addaudithook(_hook)
    import h5py

    def patch(cls, name):
        orig = getattr(cls, name)

        def new(self, *args, **kwargs):
            _point(name)
            return orig(self, *args, **kwargs)
        setattr(cls, name, new)
    patch(h5py.File, '__init__')
    patch(h5py.Group, 'create_dataset')
    patch(h5py.Group, 'create_group')
    patch(h5py.AttributeManager, '__setitem__')


class inject(object):
    """Context: fail at fault point number `at` (None: only count)"""

    def __init__(self, dir_, at=None, kind='os'):
        self.args = (os.path.abspath(dir_), at, KINDS[kind])

    def __enter__(self):
        _STATE.update(dir=self.args[0], at=self.args[1], exc=self.args[2],
                      count=0, hit=None)
        return self

    def __exit__(self, *args):
        self.count = _STATE['count']
        self.hit = _STATE['hit']
        _STATE.update(dir=None, at=None)
