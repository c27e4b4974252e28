"""C35: the fit uses exactly the configured parameters"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Fitters with random parameter sets (fixed, multiple, narrow limits)
and a likelihood with a known optimum go through random histories of updates,
loaded and saved configurations, fits and replaced starting values; the
likelihood records every point at which it is evaluated, which a monitor
compares with a model of the configuration. The real fitters are recorded the
same way. Distinct by history and parameter set."""
ASSUMPTIONS = ["parameters are changed through the documented methods"]
REQUIRE = ['fits', 'evaluations', 'updates', 'loads', 'saves',
           'replacements', 'one_kind', 'errors', 'fixed', 'multi', 'limited',
           'real_fits']
WORKERS = dict(quick=4, thorough=8)
NAMES = ['eped', 'eped_sigma', 'spe', 'opct', 'gain', 'tau', 'q0']


def setup():
    from vlib import synth
    synth.fitters()


class Par:
    def __init__(self, rng, multi=None):
        lo = float(np.round(rng.uniform(-50, 40), 3))
        self.limits = (lo, float(np.round(lo + rng.choice([2, 20, 80]), 3)))
        self.initial = self.inside(rng)
        self.fixed = bool(rng.random() < 0.3)
        self.multi = bool(rng.random() < 0.4) if multi is None else multi

    def inside(self, rng):
        lo, hi = self.limits
        return float(np.round(lo + (hi - lo) * rng.uniform(0.1, 0.9), 4))

    @property
    def width(self):
        return self.limits[1] - self.limits[0]


def objects(model, names=None):
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter
    return [SpectrumParameter(k, model[k].initial, model[k].limits,
                              model[k].fixed, model[k].multi)
            for k in (names or model)]


def slots(model, n_ill):
    """{name in the result: (parameter, illumination or None)}"""
    res = {}
    for k, p in model.items():
        if p.multi:
            for i in range(n_ill):
                res[k + str(i)] = k, i
        else:
            res[k] = k, None
    return res


def draw_targets(rng, model, n_ill):
    res = []
    for i in range(n_ill):
        t = {}
        for k, p in model.items():
            lo, hi = p.limits
            u = rng.uniform(0.15, 0.85) if rng.random() < 0.8 else \
                rng.choice([-0.5, 1.5])
            t[k] = float(lo + u * (hi - lo)), p.width / 30
        res.append(t)
    return res


def check_record(c, record, model, n_ill, first=True):
    table = record[0][1]
    names = slots(model, n_ill)
    c.check(len(record[0][0]) == len(names), 'number-of-values',
            (len(record[0][0]), sorted(names)))
    used = {}
    for name, (k, i) in names.items():
        at = {table[j][k] for j in ([i] if i is not None
                                    else range(n_ill))}
        if not c.check(len(at) == 1, 'shared-parameter', (k, table)):
            return False
        used[name] = at.pop()
    if not c.check(len(set(used.values())) == len(used), 'independent-values',
                   used):
        return False
    c.check(all(t == table for _, t in record), 'lookup-changed')
    values = np.array([v for v, _ in record], dtype=float)
    c.event('evaluations', len(values))
    for name, (k, i) in names.items():
        p, v = model[k], values[:, used[name]]
        tol = 1e-7 * p.width
        if p.fixed:
            c.event('fixed')
            c.check((np.abs(v - p.initial) <= 1e-12 * abs(p.initial)).all(),
                    'fixed-changed', lambda: (name, p.initial, v[:5]))
        else:
            c.event('limited')
            c.check((v >= p.limits[0] - tol).all()
                    and (v <= p.limits[1] + tol).all(), 'outside-limits',
                    lambda: (name, p.limits, v.min(), v.max()))
            away = min(p.initial - p.limits[0], p.limits[1] - p.initial)
            if first and away > 1e-2 * p.width:
                c.check(abs(v[0] - p.initial) <= 1e-6 * p.width,
                        'initial-value', (name, p.initial, v[0]))
        if p.multi:
            c.event('multi')
    return True


def optimum(model, targets, n_ill):
    res = {}
    for name, (k, i) in slots(model, n_ill).items():
        p = model[k]
        if p.fixed:
            res[name] = p.initial
            continue
        t = [targets[j][k][0] for j in ([i] if i is not None
                                        else range(n_ill))]
        res[name] = float(np.clip(np.mean(t), *p.limits))
    return res


def compare_config(c, fitter, model, mech):
    seen = {p.name: p for p in fitter.parameters}
    if not c.check(list(seen) == list(model), mech + '-names', list(seen)):
        return
    for k, p in model.items():
        got = seen[k]
        c.check(got.initial == p.initial and tuple(got.limits) == p.limits
                and got.fixed == p.fixed, mech, lambda: (
                    k, got.initial, p.initial, got.limits, p.limits,
                    got.fixed, p.fixed))


@group(quick=120, thorough=5000)
def histories(c):
    from CHECLabPy.core.spectrum_fitter import SpectrumParameterCollection
    from vlib import synth
    import yaml
    rng = c.rng
    n_ill = int(rng.integers(1, 5))
    chosen = [str(k) for k in rng.permutation(NAMES)[:rng.integers(1, 5)]]
    if rng.random() < 0.04:  # more illuminations than digits
        n_ill, chosen = int(rng.integers(11, 13)), chosen[:1]
        c.event('many_illuminations')
    model = {k: Par(rng) for k in chosen}
    model['lambda_'] = Par(rng, multi=True)
    cls = synth.fitters()['QuadraticFitter']
    fitter = cls(n_ill)
    fitter.parameters = SpectrumParameterCollection(objects(model), n_ill)
    bystander = cls(n_ill)
    last = None  # result that may replace the starting values
    fitted = False
    history = ''
    binning = [fitter.n_bins, tuple(fitter.range)]
    for step in range(int(rng.integers(2, 9))):
        what = str(rng.choice(['fit', 'fit', 'update', 'load', 'save',
                               'replace']))
        if what == 'replace' and last is None:
            if not fitted:
                c.raises(Exception, fitter.update_initial,
                         'replace-too-early')
            continue
        history += what[0] + what[1]
        if what == 'update':
            c.event('updates')
            names = [str(k) for k in rng.permutation(list(model))[
                :rng.integers(1, len(model) + 1)]]
            for k in names:
                model[k] = Par(rng, multi=model[k].multi if k == 'lambda_'
                               or rng.random() < 0.7 else None)
            fitter.parameters.update(objects(model, names))
            last = None
        elif what == 'load':
            c.event('loads')
            d = {}
            before = {k: (p.limits, p.initial, p.fixed)
                      for k, p in model.items()}
            if rng.random() < 0.4:
                d['n_bins'] = binning[0] = int(rng.integers(1, 400))
            if rng.random() < 0.4:
                lo = round(float(rng.uniform(-60, 20)), 2)
                binning[1] = (lo, round(lo + float(rng.uniform(5, 400)), 2))
                d['range'] = list(binning[1])
            for k, p in model.items():
                new = Par(rng, multi=p.multi)
                if rng.random() < 0.5:  # limits and a value within
                    p.limits, p.initial = new.limits, new.initial
                    d.setdefault('limits', {})[k] = list(p.limits)
                    d.setdefault('initial', {})[k] = p.initial
                elif rng.random() < 0.4:  # limits around the present value
                    p.limits = tuple(
                        round(float(p.initial + f * rng.uniform(0.3, 2)
                                    * p.width), 3) for f in (-1, 1))
                    d.setdefault('limits', {})[k] = list(p.limits)
                elif rng.random() < 0.5:
                    p.initial = p.inside(rng)
                    d.setdefault('initial', {})[k] = p.initial
                if rng.random() < 0.4:
                    p.fixed = new.fixed
                    d.setdefault('fixed', {})[k] = p.fixed
            part = rng.random()
            if part < 0.2:
                d['note'] = 'other program'
            elif part < 0.5:  # of the settings only one kind
                only = str(rng.choice(['limits', 'initial', 'fixed']))
                if only == 'limits':
                    for k, v in d.get('limits', {}).items():
                        old = before[k][1]
                        if not v[0] <= old <= v[1]:
                            v[:] = [round(min(v[0], old - 1), 3),
                                    round(max(v[1], old + 1), 3)]
                for other in ('limits', 'initial', 'fixed'):
                    if other != only:
                        d.pop(other, None)
                for k, p in model.items():
                    limits, initial, fixed = before[k]
                    p.limits = tuple(d.get('limits', {}).get(k, limits))
                    p.initial = d.get('initial', {}).get(k, initial)
                    p.fixed = d.get('fixed', {}).get(k, fixed)
                    if only == 'initial' and not (
                            p.limits[0] <= p.initial <= p.limits[1]):
                        p.initial = d['initial'][k] = p.inside(rng)
                c.event('one_kind')
            path = c.path('config.yml')
            with open(path, 'w') as f:
                if d or rng.random() < 0.5:
                    yaml.safe_dump(d, f)
            fitter.load_config(path)
            c.check([fitter.n_bins, tuple(fitter.range)] == binning,
                    'loaded-binning', (fitter.n_bins, fitter.range, binning))
            last = None  # may lie outside the new limits
        elif what == 'save':
            c.event('saves')
            path = c.path('saved.yml')
            fitter.save_config(path)
            compare_config(c, fitter, model, 'changed-by-saving')
            other = cls(n_ill)
            other.n_bins, other.range = 3, (1, 2)
            other.parameters = SpectrumParameterCollection(objects(
                {k: _reset(rng, p) for k, p in model.items()}), n_ill)
            other.load_config(path)
            compare_config(c, other, model, 'saved-configuration')
            for f in (fitter, other):
                c.check([f.n_bins, tuple(f.range)] == binning,
                        'saved-binning', (f.n_bins, f.range, binning))
            if rng.random() < 0.5:
                fitter = other
                last, fitted = None, False
        elif what == 'replace':
            c.event('replacements')
            i = int(rng.integers(n_ill))
            if i or rng.random() < 0.5:
                fitter.update_initial(illumination=i)
            else:
                fitter.update_initial()
            for k, p in model.items():
                p.initial = last[k + str(i)] if p.multi else last[k]
        else:
            targets = draw_targets(rng, model, n_ill)
            synth.TARGETS[:] = targets
            del synth.RECORD[:]
            fitter.apply(*[rng.uniform(*binning[1], 200)
                           for _ in range(n_ill)])
            c.event('fits')
            ok = check_record(c, synth.RECORD, model, n_ill)
            want = optimum(model, targets, n_ill)
            got = dict(fitter.fit_result_values)
            errors = dict(fitter.fit_result_errors)
            edges = fitter.charge_histogram[2]
            c.check(len(edges) == binning[0] + 1, 'binning-used', len(edges))
            c.close([edges[0], edges[-1]], binning[1], 'binning-used', 1e-6,
                    1e-3)
            if not c.check(set(got) == set(want), 'result-names',
                           (sorted(got), sorted(want))):
                return
            for name, (k, i) in slots(model, n_ill).items():
                p = model[k]
                if p.fixed:
                    c.close(got[name], p.initial, 'fixed-result', 1e-12, 0)
                    continue
                # A starting value on a limit has no slope to follow
                away = min(p.initial - p.limits[0],
                           p.limits[1] - p.initial)
                if away > 1e-2 * p.width:
                    c.check(abs(got[name] - want[name]) <= 0.02 * p.width,
                            'optimum', (name, got[name], want[name],
                                        p.limits, p.initial))
                    w = targets[0][k][1] / np.sqrt(1 if p.multi else n_ill)
                    if min(want[name] - p.limits[0],
                           p.limits[1] - want[name]) > 0.14 * p.width:
                        c.event('errors')
                        c.check(abs(errors[name] - w) <= 0.05 * w, 'error',
                                lambda: (name, errors[name], w))
                c.check(p.limits[0] - 1e-9 * p.width <= got[name]
                        <= p.limits[1] + 1e-9 * p.width, 'result-limits',
                        (name, got[name], p.limits))
            if ok:  # each illumination's curve uses its own values
                table = synth.RECORD[0][1]
                vec = [None] * len(got)
                for name, (k, i) in slots(model, n_ill).items():
                    vec[table[i or 0][k]] = got[name]
                x, y = fitter.fit_result_curve
                ref = cls._get_spectra(n_ill, x, table, *vec)
                for i in range(n_ill):
                    r = ref[i] / np.trapz(ref[i], x)
                    g = np.asarray(y[i]) / np.trapz(y[i], x)
                    c.close(g, r, 'own-values', 1e-3, 1e-4 * np.abs(r).max(),
                            'curve {}'.format(i))
            last, fitted = got, True
        compare_config(c, fitter, model, 'after-' + what)
    ref_ = {p.name: (p.initial, tuple(p.limits), p.fixed)
            for p in bystander.parameters}
    c.check(ref_ == {'a': (1.0, (-5.0, 5.0), False),
                     'lambda_': (0.5, (0.0, 9.0), False)}, 'other-fitter',
            ref_)
    c.note(history=history, n_illuminations=n_ill, parameters=len(model))
    c.nontrivial(history, n_ill, len(model))


def _reset(rng, p):
    new = Par(rng, multi=p.multi)
    return new


@group(quick=20, thorough=300)
def shipped_config(c):
    """Configurations of the real fitters, without fitting"""
    from CHECLabPy.spectrum_fitters.gentile import SiPMGentileFitter
    from CHECLabPy.spectrum_fitters.mapm import MAPMFitter
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter
    cls = [MAPMFitter, SiPMGentileFitter][int(c.rng.integers(2))]
    n = int(c.rng.integers(1, 4))
    a, b = cls(n), cls(n)
    before = {p.name: (p.initial, tuple(p.limits), p.fixed) for p in b.parameters}
    new = []
    for p in a.parameters:
        if c.rng.random() < 0.6:
            lo, hi = p.limits
            limits = [lo, float(c.rng.uniform(hi, hi + 5))]
            if c.rng.random() < 0.25:  # no limit on one side or on both
                limits[int(c.rng.integers(2))] = None
                c.event('one_sided')
                if c.rng.random() < 0.2:
                    limits = [None, None]
            if c.rng.random() < 0.2:  # whole numbers
                limits = [None if x is None else int(x) for x in limits]
            new.append(SpectrumParameter(
                p.name, float(c.rng.uniform(lo, hi)), tuple(limits),
                bool(c.rng.random() < 0.5), p.multi))
    a.parameters.update(new)
    c.event('updates')
    a.n_bins = int(c.rng.integers(20, 200))
    a.range = (float(c.rng.integers(-50, 0)), float(c.rng.integers(50, 300)))
    path = c.path('c.yml')
    a.save_config(path)
    b.load_config(path)
    c.event('saves')
    c.event('loads')
    for p, q in zip(a.parameters, b.parameters):
        c.check((p.name, p.initial, tuple(p.limits), p.fixed)
                == (q.name, q.initial, tuple(q.limits), q.fixed),
                'saved-configuration', (p.name, p.initial, q.initial,
                                        p.limits, q.limits))
    c.check(a.n_bins == b.n_bins and tuple(a.range) == tuple(b.range),
            'saved-binning')
    want = dict(before)
    for p in new:
        want[p.name] = p.initial, tuple(p.limits), p.fixed
    got = {p.name: (p.initial, tuple(p.limits), p.fixed)
           for p in b.parameters}
    c.check(got == want, 'updated', (got, want))
    fresh = {p.name: (p.initial, tuple(p.limits), p.fixed)
             for p in cls(n).parameters}
    c.check(fresh == before, 'other-fitter')
    c.nontrivial(cls.__name__, n, len(new))


@group(quick=6, thorough=120)
def real(c):
    """The real fitters, their likelihood recorded"""
    from CHECLabPy.spectrum_fitters.mapm import MAPMFitter
    from CHECLabPy.spectrum_fitters.gentile import SiPMGentileFitter
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter
    from vlib import synth
    rng = c.rng
    cls = SiPMGentileFitter if c.thorough and c.index % 3 == 0 else MAPMFitter
    n = 2 if c.thorough and c.index % 5 == 0 else 1
    fitter = cls(n)
    likelihood = fitter._get_likelihood
    record = []
    model = {}
    truth = dict(eped=0, eped_sigma=9, spe=25, spe_sigma=2, lambda_=0.7,
                 opct=0.3)
    for p in fitter.parameters:
        m = model[p.name] = Par(rng, multi=p.multi)
        lo, hi = p.limits
        t = truth[p.name]
        m.limits = (lo, hi) if rng.random() < 0.5 else (
            max(lo, t - 0.2 * (hi - lo)), min(hi, t + 0.3 * (hi - lo)))
        m.initial = float(np.clip(t + rng.normal(0, 0.02) * (hi - lo),
                                  m.limits[0] + 0.02 * m.width,
                                  m.limits[1] - 0.02 * m.width))
        m.fixed = bool(rng.random() < 0.35) and p.name != 'lambda_'
    fitter.parameters.update([SpectrumParameter(
        k, p.initial, p.limits, p.fixed, p.multi) for k, p in model.items()])
    c.event('updates')

    def recording(n_ill, x, y, lookup, *values):
        record.append((tuple(values), synth.lookup_of(lookup, n_ill, model)))
        return likelihood(n_ill, x, y, lookup, *values)
    fitter._get_likelihood = recording
    k = rng.poisson(0.7, (n, 4000))
    q = rng.normal(k * 25.0, np.sqrt(81 + 4 * k))
    fitter.apply(*q)
    c.event('fits')
    c.event('real_fits')
    check_record(c, record, model, n)
    got = dict(fitter.fit_result_values)
    for name, (k, i) in slots(model, n).items():
        p = model[k]
        if p.fixed:
            c.close(got[name], p.initial, 'fixed-result', 1e-12, 0, name)
        tol = 1e-9 * p.width
        c.check(p.limits[0] - tol <= got[name] <= p.limits[1] + tol,
                'result-limits', (name, got[name], p.limits))
    c.note(fitter=cls.__name__, n=n, fixed=[k for k, p in model.items()
                                            if p.fixed])
    c.nontrivial(cls.__name__, n, sum(p.fixed for p in model.values()),
                 c.index)
