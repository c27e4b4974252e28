"""C15: names are unique and select the intended implementation"""
import abc
import importlib
import inspect
import pkgutil

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random hierarchies of reducer classes with colliding, inherited,
redefined and private names are defined at run time; a monitor records whether
the definition succeeded, the columns each class claims and what processing
returns, against a model of the naming rules. Random hierarchies with abstract
classes, diamonds and equal names are searched; the packages are walked
independently and compared with what is found; factories are asked for every
and unknown names. Distinct by hierarchy."""
ASSUMPTIONS = []
REQUIRE = ['definitions_refused', 'definitions_accepted', 'inherited',
           'products', 'unprepared_reads']
WORKERS = dict(quick=4, thorough=4)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.chain  # noqa


MODULES = [__name__, 'reducers_of_somebody_else',
           'CHECLabPy.waveform_reducers.common', '__main__']


def make_reducer(name, bases, columns, value=1.0, qual=None, module=None,
                 alias=None):
    """Define a reducer class; the functions carry proper qualified names"""
    from CHECLabPy.core.reducer import column
    dct = {'__doc__': 'Defined at run time', **(alias or {})}
    if module:
        dct['__module__'] = module
    for k, col in enumerate(columns):
        def f(self, k=k):
            return self.waveforms.sum(1) * value + k
        f.__name__ = col
        f.__qualname__ = '{}.{}'.format(qual or name, col)
        f.__doc__ = 'column'
        if module:
            f.__module__ = module
        dct[col] = column(f)
    return type(bases[0])(name, bases, dct)


@group(quick=60, thorough=3000)
def definitions(c):
    from CHECLabPy.core.reducer import WaveformReducer
    tag = 'v{}_{}_{}'.format(c.seed, c.tier[0], c.index)
    names = ['col{}_{}'.format(i, tag) for i in range(6)]
    owner = {}  # column -> class
    classes = []
    wf = c.rng.normal(0, 1, (4, 16)).astype(np.float32)
    story = []
    for i in range(int(c.rng.integers(2, 9))):
        if not names:
            break
        cname = 'Reducer{}_{}'.format(i, tag)
        cols = sorted({str(x) for x in c.rng.choice(
            names, int(c.rng.integers(0, 4)))})
        parent = None
        if not cols and not names:
            break
        if classes and c.rng.random() < 0.5:
            parent = classes[int(c.rng.integers(len(classes)))]
        bases = (parent[0],) if parent else (WaveformReducer,)
        taken = [k for k in cols if k in owner]
        module = str(c.rng.choice(MODULES))
        story.append((cname, cols, parent[0].__name__ if parent else None,
                      module))
        c.note(story=story)
        if taken:
            e = c.raises(Exception,
                         lambda: make_reducer(cname, bases, cols,
                                                  module=module),
                         'duplicate-accepted', (cname, taken))
            c.event('definitions_refused')
            c.check(e is None or any(k in str(e) or owner[k] in str(e)
                                     for k in taken), 'message', e)
            # the other names of the refused class are not used again
            names = [k for k in names if k not in cols or k in owner]
            continue
        value = float(c.rng.integers(1, 5))
        # columns of its ancestors, named again in the body of the class
        alias, a = {}, parent
        while a is not None:
            for k in a[1]:
                if c.rng.random() < 0.3:
                    alias[k] = getattr(bases[0], k)
                    c.event('named_again')
            a = a[3]
        cls = make_reducer(cname, bases, cols, value, module=module,
                           alias=alias)
        c.event('definitions_accepted')
        for k in cols:
            owner[k] = cname
        classes.append((cls, cols, value, parent))
        if c.rng.random() < 0.3:  # the same class defined again
            cls = make_reducer(cname, bases, cols, value, module=module,
                               alias=alias)
            classes[-1] = (cls, cols, value, parent)
            c.event('redefined')
        if parent:
            c.event('inherited')
        c.check(sorted(cls.columns) == cols, 'columns-claimed',
                (cname, cls.columns, cols))
        obj = cls(4, 16)
        for k in cols:
            c.raises(Exception, lambda: getattr(obj, k), 'unprepared', k)
            c.event('unprepared_reads')
        d = obj.process(wf)
        c.check(sorted(d) == cols, 'columns-provided', (d, cols))
        for j, k in enumerate(cols):
            c.close(d[k], wf.sum(1) * value + j, 'column-implementation',
                    1e-5, 1e-4, k)
            c.close(getattr(obj, k), d[k], 'column-attribute', 1e-5, 1e-4)
    # Each column belongs to exactly one class
    claimed = [k for cls, *_ in classes for k in cls.columns]
    c.check(len(claimed) == len(set(claimed)), 'column-of-two-reducers',
            claimed)
    c.nontrivial(len(story), len(classes), len(claimed))


@group(quick=30, thorough=600)
def helpers(c):
    """Only columns are inherited as columns: a helper, setting or property of
    a parent may become a column of the child"""
    from CHECLabPy.core.reducer import WaveformReducer, column
    tag = 'v{}_{}_{}h'.format(c.seed, c.tier[0], c.index)
    kinds = [str(x) for x in c.rng.permutation(
        ['method', 'value', 'property', 'none'])]
    dct = {'__doc__': 'parent'}
    for k in kinds:
        dct[k + '_' + tag] = dict(
            method=lambda self: 7, value=3, none=None,
            property=property(lambda self: 5))[k]
    parent = type(WaveformReducer)('HParent' + tag, (WaveformReducer,), dct)
    c.check(parent.columns == [], 'helper-is-column', parent.columns)
    c.check(parent(4, 16).process(np.ones((4, 16))) == {}, 'helper-is-column')
    cols = ['{}_{}'.format(k, tag) for k in kinds[:int(c.rng.integers(1, 4))]]
    child = make_reducer('HChild' + tag, (parent,), cols)
    c.event('definitions_accepted')
    c.check(sorted(child.columns) == sorted(cols), 'columns-claimed',
            (child.columns, cols))
    wf = c.rng.normal(0, 1, (4, 16)).astype(np.float32)
    d = child(4, 16).process(wf)
    c.check(sorted(d) == sorted(cols), 'columns-provided', (d, cols))
    for j, k in enumerate(cols):
        if k in d:
            c.close(d[k], wf.sum(1) + j, 'column-implementation', 1e-5, 1e-4)
    c.nontrivial(kinds, len(cols))


@group(quick=40, thorough=2000)
def hierarchies(c):
    from CHECLabPy.core import child_subclasses
    n = int(c.rng.integers(1, 12))

    class Base(metaclass=abc.ABCMeta):
        pass
    classes = [(Base, False)]
    want, seen = {}, set()
    for i in range(n):
        k = min(int(c.rng.integers(1, 3)), len(classes))
        bases = [classes[int(j)][0] for j in
                 c.rng.permutation(len(classes))[:k]]
        abstract = c.rng.random() < 0.3
        dct = {}
        if abstract:
            dct['todo' + str(i)] = abc.abstractmethod(lambda self: None)
        else:
            # implement whatever is inherited
            for b in bases:
                for m in getattr(b, '__abstractmethods__', ()):
                    if c.rng.random() < 0.7:
                        dct[m] = lambda self: None
        name = 'K{}'.format(i)
        if c.rng.random() < 0.3:  # names that differ little
            name = str(c.rng.choice(
                ['a', 'A', 'aA', 'Aa', 'a_', '_a', 'b', 'B', 'ab', 'aB']))
            if name in want or name in seen:
                continue
            seen.add(name)
        try:
            cls = abc.ABCMeta(name, tuple(bases), dct)
        except TypeError:  # no consistent method resolution order
            continue
        classes.append((cls, inspect.isabstract(cls)))
        if not inspect.isabstract(cls):
            want[name] = cls
    got = child_subclasses(Base)
    c.note(classes=[(k.__name__, a) for k, a in classes])
    names = [g.__name__ for g in got]
    c.check(sorted(names) == sorted(want), 'subclasses-found',
            (names, sorted(want)))
    c.check(all(want.get(g.__name__) is g for g in got), 'subclass-identity')
    c.nontrivial(n, sorted(want))


def package_classes(package, base):
    """Concrete subclasses of base defined in the modules of a package"""
    found = {}
    for m in pkgutil.iter_modules(package.__path__):
        if m.ispkg:
            continue
        module = importlib.import_module(
            '{}.{}'.format(package.__name__, m.name))
        for _, obj in inspect.getmembers(module, inspect.isclass):
            if (issubclass(obj, base) and obj is not base
                    and obj.__module__ == module.__name__
                    and not inspect.isabstract(obj)):
                found[obj.__name__] = obj
    return found


@group(quick=1, thorough=2)
def packages(c):
    import CHECLabPy.waveform_reducers as wr
    import CHECLabPy.spectrum_fitters as sf
    from CHECLabPy.core import child_subclasses
    from CHECLabPy.core.reducer import WaveformReducer
    from CHECLabPy.core.spectrum_fitter import SpectrumFitter
    from CHECLabPy.core.factory import SpectrumFitterFactory
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce, camera
    want = package_classes(wr, WaveformReducer)
    got = {r.__name__: r for r in child_subclasses(WaveformReducer)
           if r.__module__.startswith(wr.__name__)}
    c.equal(sorted(got), sorted(want), 'reducers-found')
    owner = {}
    for name, r in got.items():
        c.check(getattr(wr, name, None) is r, 'reducers-exported', name)
        for k in r.columns:
            c.check(k not in owner, 'column-of-two-reducers',
                    (k, name, owner.get(k)))
            owner[k] = name
    c.check(set(owner) >= reduce.ALL, 'columns-missing',
            reduce.ALL - set(owner))
    # Every column can be switched on alone, and is the one returned
    mapping = camera.mapping_of('checs')
    small = camera.mapping_of('module')
    for k in sorted(owner):
        n = 2048 if k == 'flasher_unit' else 64
        wf, _ = reduce.event(c.rng, n)
        on = {j: j == k for j in owner}
        chain = WaveformReducerChain(
            n, 128, reference_pulse_path=reduce.PULSES[0],
            mapping=mapping if n == 2048 else small, **on)
        c.equal(sorted(chain.process(wf)), [k], 'column-selected', k)
    fitters = package_classes(sf, SpectrumFitter)
    c.equal(sorted(SpectrumFitterFactory.subclass_names), sorted(fitters),
            'fitters-found')
    c.check(set(fitters) >= {'SiPMGentileFitter', 'MAPMFitter'},
            'fitters-missing', sorted(fitters))
    for name, cls in fitters.items():
        n = int(c.rng.integers(1, 4))
        obj = SpectrumFitterFactory.produce(name, n)
        c.event('products')
        c.check(type(obj) is cls, 'product-class', (name, type(obj)))
        c.check(obj.n_illuminations == n, 'product-arguments')
        other = SpectrumFitterFactory.produce(name, n)
        c.check(other is not obj and other.parameters is not obj.parameters,
                'product-new', name)
    c.raises(Exception, lambda: SpectrumFitterFactory.produce('Nope', 1),
             'unknown-product')
    c.nontrivial('packages', len(owner), len(fitters))


@group(quick=10, thorough=300)
def factories(c):
    from CHECLabPy.core import child_subclasses
    from CHECLabPy.core.factory import Factory

    class Base:
        def __init__(self, *args, **kwargs):
            self.args, self.kwargs = args, kwargs
    n = int(c.rng.integers(1, 8))
    pattern = str(c.rng.choice(['Product{}', 'P{}x', 'p{}']))
    names = [pattern.format(i) for i in range(n)]
    if c.rng.random() < 0.4:  # names that differ little
        names = ['Ab', 'ab', 'AB', 'A', 'Abc', 'aB', 'b', 'Bb'][:n]
    made = [type(k, (Base,), {}) for k in names]

    class MyFactory(Factory):
        subclasses = child_subclasses(Base)
        subclass_names = [k.__name__ for k in subclasses]
    for k in c.rng.permutation(n):
        args = tuple(int(x) for x in c.rng.integers(0, 9, 2))
        obj = MyFactory.produce(names[k], *args, a=int(k))
        c.event('products')
        c.check(type(obj) is made[k], 'product-class')
        c.check(obj.args == args and obj.kwargs == dict(a=int(k)),
                'product-arguments', (obj.args, obj.kwargs))
        other = MyFactory.produce(names[k], *args, a=int(k))
        c.check(type(other) is made[k] and other is not obj, 'product-new')
    for bad in ('Product{}'.format(n), 'product0', '', 'Base', 'bB'):
        e = c.raises(Exception, lambda: MyFactory.produce(bad),
                     'unknown-product', bad)
        c.check(e is None or repr(bad)[1:-1] in str(e), 'unknown-message', e)
    c.nontrivial('factory', n)
