"""Monitors every outermost call into CHECLabPy made by a workload.

All functions and methods of the package are wrapped where they are defined
(and wherever they were imported to).  Around each call that does not come
from CHECLabPy itself the arguments and the state of the interpreter are
fingerprinted; what differs afterwards is reported.
"""
import functools
import importlib
import inspect
import locale
import os
import pkgutil
import random
import sys
import threading
import warnings
import zlib

import numpy as np
import pandas as pd


# Functions whose very purpose is to change what they are given
PURPOSE = {'CHECLabPy.utils.files:sort_file_list',
           'CHECLabPy.plotting.camera:CameraImageImshow.mask'}


def _crc(b):
    return zlib.crc32(b), len(b)


def fingerprint(o, depth=0):
    """Value of containers, arrays and tables; other objects are opaque"""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return (type(o).__name__, repr(o))
    if depth > 6:
        return 'deep'
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'O':
            body = tuple(fingerprint(x, depth + 1) for x in o.ravel()[:5000])
        else:
            body = _crc(np.ascontiguousarray(o).tobytes())
        extra = ()
        if type(o) is not np.ndarray:
            extra = fingerprint(getattr(o, '__dict__', {}), depth + 1)
        return ('array', o.dtype.str, o.shape, body, extra)
    if isinstance(o, np.generic):
        return ('scalar', o.dtype.str, repr(o))
    if isinstance(o, pd.DataFrame):
        meta = o.__dict__.get('metadata')
        return ('frame', tuple(map(repr, o.columns)),
                fingerprint(o.index, depth + 1),
                tuple(fingerprint(o.iloc[:, i].array, depth + 1)
                      for i in range(o.shape[1])),
                fingerprint(dict(o.attrs), depth + 1),
                fingerprint(meta, depth + 1))
    if isinstance(o, pd.Series):
        return ('series', repr(o.name), fingerprint(o.index, depth + 1),
                fingerprint(o.array, depth + 1))
    if isinstance(o, (pd.Index, pd.api.extensions.ExtensionArray)):
        return ('index', str(o.dtype),
                fingerprint(np.asarray(o), depth + 1))
    if isinstance(o, dict):
        return (type(o).__name__, tuple(
            (repr(k), fingerprint(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,
                tuple(fingerprint(v, depth + 1) for v in o))
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, o))))
    return 'opaque'


def state():
    """What belongs to the whole interpreter, not to the library"""
    r = np.random.get_state()
    return {
        'numpy.random': (_crc(r[1].tobytes()), r[2:]),
        'random': hash(random.getstate()),
        'numpy error handling': tuple(sorted(np.geterr().items())),
        'numpy print options': repr(np.get_printoptions()),
        'warnings filters': tuple(map(repr, warnings.filters)),
        'working directory': os.getcwd(),
        'environment': tuple(sorted(os.environ.items())),
        'locale': locale.setlocale(locale.LC_ALL),
        'recursion limit': sys.getrecursionlimit(),
        'module path': tuple(sys.path),
        'threads': len([t for t in threading.enumerate() if not t.daemon]),
        'pandas options': (pd.get_option('mode.chained_assignment'),
                           pd.get_option('display.max_rows'),
                           pd.get_option('mode.use_inf_as_na')),
    }


PUBLIC = ('__init__', '__call__', '__getitem__', '__exit__', '__iter__',
          '__len__')


def public(name):
    return not name.startswith('_') or name in PUBLIC


class Monitor:
    def __init__(self):
        self.local = threading.local()
        self.on = False
        self.reset()

    def reset(self):
        self.calls = {}
        self.arguments = 0
        self.found = []

    def wrap(self, f, qualname, judged=True):
        @functools.wraps(f)
        def call(*args, **kwargs):
            if not self.on or getattr(self.local, 'depth', 0):
                return f(*args, **kwargs)
            if not judged:  # a part of how something else works
                self.local.depth = 1
                try:
                    return f(*args, **kwargs)
                finally:
                    self.local.depth = 0
            method = '.' in qualname.split(':')[1]
            names = [('argument {}'.format(i), a)
                     for i, a in enumerate(args)
                     if not (method and i == 0 and not isinstance(
                         a, (np.ndarray, pd.DataFrame, dict, list)))]
            names += list(kwargs.items())
            before = [(n, a, fingerprint(a)) for n, a in names]
            s, modules = state(), len(sys.modules)
            self.local.depth = 1
            try:
                return f(*args, **kwargs)
            finally:
                self.local.depth = 0
                after = state()
                self.calls[qualname] = self.calls.get(qualname, 0) + 1
                for n, a, v in before:
                    if v != 'opaque':
                        self.arguments += 1
                        if fingerprint(a) != v and qualname not in PURPOSE:
                            self.found.append(
                                (qualname, n, repr(a)[:300]))
                # a first import may add filters, threads or paths
                for k in s:
                    if s[k] != after[k] and (
                            len(sys.modules) == modules or k in (
                                'numpy.random', 'working directory',
                                'numpy error handling')):
                        self.found.append((qualname, k, '{} -> {}'.format(
                            s[k], after[k])[:600]))
        call._monitored = True
        return call

    def install(self):
        """Wrap everything CHECLabPy defines"""
        import CHECLabPy
        mods = [CHECLabPy]
        for m in pkgutil.walk_packages(CHECLabPy.__path__, 'CHECLabPy.'):
            if '.tests' in m.name or 'convert_hd52root' in m.name:
                continue
            mods.append(importlib.import_module(m.name))
        replaced = {}
        for mod in mods:
            for name, obj in list(vars(mod).items()):
                if getattr(obj, '__module__', None) != mod.__name__:
                    continue
                if inspect.isfunction(obj):
                    replaced[id(obj)] = (obj, self.wrap(
                        obj, '{}:{}'.format(mod.__name__, name),
                        public(name)))
                elif inspect.isclass(obj):
                    self.wrap_class(obj, mod.__name__)
        for mod in mods:
            for name, obj in list(vars(mod).items()):
                if id(obj) in replaced:
                    setattr(mod, name, replaced[id(obj)][1])
        self.on = True
        return self

    def wrap_class(self, cls, module):
        for name, obj in list(vars(cls).items()):
            q = '{}:{}.{}'.format(module, cls.__name__, name)
            if inspect.isfunction(obj) and name not in (
                    '__new__', '__init_subclass__', '__getattribute__',
                    '__getattr__', '__setattr__', '__del__'):
                setattr(cls, name, self.wrap(obj, q, public(name)))
            elif type(obj) is property:
                setattr(cls, name, property(
                    obj.fget and self.wrap(obj.fget, q, False),
                    obj.fset and self.wrap(obj.fset, q),
                    obj.fdel, obj.__doc__))
            elif isinstance(obj, (staticmethod, classmethod)) and \
                    not name.startswith('__') and \
                    inspect.isfunction(obj.__func__):
                setattr(cls, name, type(obj)(self.wrap(
                    obj.__func__, q if isinstance(obj, classmethod)
                    else q.replace('.' + name, '_' + name),
                    public(name))))
