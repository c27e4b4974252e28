"""C39: resolution plots show the binned results and limit curves"""
import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random result tables (any charges, pixels, sizes, entries below the
plotted range) are plotted by the real classes; a monitor reads lines and error
bars back from matplotlib and compares them with binning done by counting.
Curves are evaluated on random charges around their end points. Distinct by
table and kind of plot."""
ASSUMPTIONS = ["entries are not within rounding of inner bin edges"]
REQUIRE = ['plots', 'points', 'empty_bins', 'shared_bins', 'curves',
           'beyond_end', 'wrr_points']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.plotting.resolutions  # noqa


def noise(x, n_nsb, enf, sigma2, end):
    out = np.sqrt(n_nsb + enf ** 2 * x + (sigma2 * x) ** 2) / x
    return np.where(x > end, np.nan, out)


def requirement(x):
    return noise(x, np.sqrt(7.0), 1.2, 0.1, 1000)


def goal(x):
    return noise(x, 2.0, 1.1152, 0.05, 2000)


def charges(rng, n):
    """Charges away from inner bin edges"""
    kind = str(rng.choice(['log', 'steps', 'narrow']))
    top = 10.0 ** rng.uniform(-0.5, 4)
    while True:
        if kind == 'log':
            x = 10 ** rng.uniform(-1.3, np.log10(top), n)
        elif kind == 'steps':
            x = rng.choice(10 ** rng.uniform(-1, np.log10(top), 12), n)
        else:
            x = rng.normal(top, top / 20, n)
        if x.max() <= 0.11:
            continue
        i = np.log(x / 0.1) / np.log(x.max() / 0.1) * 99
        near = (np.abs(i - np.round(i)) < 1e-6) & (x != x.max())
        if not near.any():
            return kind, x


def binned(x, y, e):
    """Means per bin by counting, and the error of the mean"""
    top = x.max()
    res, shared = [], 0
    pos = np.log(x / 0.1) / np.log(top / 0.1) * 99
    idx = np.floor(pos).astype(int)
    idx[x == top] = 98
    idx[(x < 0.1)] = -1
    for b in range(99):
        m = idx == b
        if m.any():
            shared += m.sum() > 1
            res.append((x[m].mean(), y[m].mean(),
                        np.sqrt((e[m] ** 2).sum()) / m.sum()))
    return np.array(res).reshape(-1, 3), shared


def bars(container):
    """x, y and half lengths of the error bars as drawn"""
    line = container.lines[0]
    x, y = np.asarray(line.get_xdata()), np.asarray(line.get_ydata())
    half = None
    if container.lines[2]:
        seg = container.lines[2][0].get_segments()
        half = np.array([0.5 * (s[1, 1] - s[0, 1]) if len(s) == 2 else np.nan
                         for s in seg])
    return x, y, half


@group(quick=120, thorough=4000)
def points(c):
    from CHECLabPy.plotting import resolutions as mod
    from matplotlib import pyplot as plt
    rng = c.rng
    name = str(rng.choice(['ChargeResolutionPlotter',
                           'ChargeResolutionWRRPlotter',
                           'ChargeMeanPlotter']))
    mean = name == 'ChargeMeanPlotter'
    cols = (('amplitude', 'mean') if mean else ('true', 'charge_resolution'))
    n_pixels = int(rng.integers(1, 6))
    tables = []
    for _ in range(n_pixels + 1):
        kind, x = charges(rng, int(rng.integers(1, 300)))
        df = pd.DataFrame({cols[0]: x,
                           cols[1]: rng.uniform(0.01, 3, x.size)})
        if rng.random() < 0.4:
            # means below zero (pedestal), resolutions of exactly zero
            low = rng.random(x.size) < 0.3
            df.loc[low, cols[1]] *= -1 if mean else 0
            c.event('not_positive', low.sum())
        if mean:
            df['std'] = rng.uniform(0.1, 2, x.size)
        elif rng.random() < 0.5:  # entries without charge
            low = df.iloc[:3].copy()
            low[cols[0]] = [0., -1., 1e-4][:len(low)]
            df = pd.concat([df, low])
        tables.append(df)
    camera = tables.pop().reset_index(drop=True)
    for p, df in enumerate(tables):
        df['pixel'] = p
    # interleaved pixels, any index
    pixel = pd.concat(tables).sample(
        frac=1, random_state=int(rng.integers(2 ** 31)))
    store = ({'charge_statistics_pixel': pixel,
              'charge_statistics_camera': camera} if mean else
             {'charge_resolution_pixel': pixel,
              'charge_resolution_camera': camera})
    copies = {k: v.copy() for k, v in store.items()}
    pl = getattr(mod, name)()
    pl.set_store(store)
    todo = list(rng.permutation(n_pixels))[:2] + [-1]
    for p in rng.permutation(todo):
        df = camera if p < 0 else pixel.loc[pixel['pixel'] == p]
        before = len(pl.ax.containers)
        label = 'L{}'.format(p)
        if p < 0:
            pl.plot_camera(label=label)
        else:
            pl.plot_pixel(int(p), label=label)
        c.event('plots')
        if not c.check(len(pl.ax.containers) == before + 1, 'one-series'):
            continue
        if not mean:
            df = df.loc[df[cols[0]] > 0.001]
        x, y = df[cols[0]].values, df[cols[1]].values
        e = df['std'].values if mean else 1 / np.sqrt(x)
        want, shared = binned(x, y, e)
        cont = pl.ax.containers[-1]
        c.check(cont.get_label() == label, 'label', cont.get_label())
        gx, gy, ge = bars(cont)
        if not c.check(gx.shape == (len(want),), 'number-of-points',
                       (gx.shape, want.shape, x.max())):
            continue
        c.event('points', len(want))
        c.event('empty_bins', 99 - len(want))
        c.event('shared_bins', shared)
        c.close(gx, want[:, 0], 'x', 1e-6)
        wy = want[:, 1]
        if mean:
            wy = wy / want[:, 0]
        elif 'WRR' in name:
            with np.errstate(all='ignore'):
                wy = wy / requirement(want[:, 0])
            c.event('wrr_points', np.isfinite(wy).sum())
        c.close(gy, wy, 'y', 1e-6)
        if not mean and 'WRR' not in name:
            if c.check(ge is not None and ge.shape == gx.shape, 'errors'):
                c.close(ge, want[:, 2], 'error', 1e-6, 1e-9)
    pl.finish()
    for k, v in copies.items():
        c.check(store[k].equals(v), 'table-changed', k)
    if mean:
        # dashed line of unity over everything plotted
        lo = min(cont.lines[0].get_xdata().min() for cont in pl.ax.containers)
        hi = max(cont.lines[0].get_xdata().max() for cont in pl.ax.containers)
        line = [ln for ln in pl.ax.lines if ln.get_linestyle() == '--']
        if c.check(len(line) == 1, 'unity-line'):
            xd = line[0].get_xdata()
            c.close(line[0].get_ydata(), np.ones(len(xd)), 'unity-line')
            c.close([xd.min(), xd.max()], [lo, hi], 'unity-range', 1e-9)
    plt.close(pl.fig)
    c.note(plotter=name, n_pixels=n_pixels)
    c.nontrivial(name, n_pixels, len(pixel), len(camera))


@group(quick=150, thorough=6000)
def curves(c):
    from CHECLabPy.plotting import resolutions as mod
    from matplotlib import pyplot as plt
    rng = c.rng
    n = int(rng.integers(1, 200))
    x = 10 ** rng.uniform(-1, 4, n)
    ends = [999.999, 1000., 1000.001, 1999.99, 2000., 2000.01]
    x = np.concatenate([x, ends])
    if rng.random() < 0.5:
        x = np.sort(x)
    if rng.random() < 0.3:
        x = np.unique(x.astype(np.int64).clip(1))
    keep = x.copy()
    for name in ('ChargeResolutionPlotter', 'ChargeResolutionWRRPlotter'):
        cls = getattr(mod, name)
        r, g, p = cls.requirement(x), cls.goal(x), cls.poisson(x)
        c.event('curves', 3)
        c.event('beyond_end', (x > 1000).sum())
        c.equal(x, keep, 'input-changed')
        xf = keep.astype(float)
        c.close(r, requirement(xf), 'requirement', 1e-9, 1e-12)
        c.close(g, goal(xf), 'goal', 1e-9, 1e-12)
        c.close(p, 1 / np.sqrt(xf), 'poisson', 1e-9, 1e-12)
        ok = np.isfinite(r)
        c.check((g[ok] < r[ok]).all() and (p[ok] < g[ok]).all(), 'order')
        pl = cls()
        pl.plot_requirement(x)
        pl.plot_goal(x)
        pl.plot_poisson(x)
        lines = {ln.get_label(): ln for ln in pl.ax.lines}
        div = requirement(xf) if 'WRR' in name else 1
        want = dict(Requirement=requirement(xf), Goal=goal(xf),
                    Poisson=1 / np.sqrt(xf))
        if c.check(set(lines) == set(want), 'curves-drawn', list(lines)):
            for k, w in want.items():
                c.equal(lines[k].get_xdata(), x, 'curve-x', k)
                c.close(lines[k].get_ydata(), w / div, 'curve-y', 1e-9,
                        1e-12, name + k)
        c.equal(x, keep, 'input-changed')
        plt.close(pl.fig)
    # at and below zero there is no limit, and the input stays as it is
    z = np.concatenate([x[:3], [0, 0]]).astype(x.dtype)
    keep_z = z.copy()
    for name in ('requirement', 'goal', 'poisson'):
        with np.errstate(all='ignore'):
            y = getattr(mod.ChargeResolutionPlotter, name)(z)
        c.equal(z, keep_z, 'input-changed', name)
        c.check(not np.isfinite(y[-2:]).any(), 'limit-at-zero', name)
    a = rng.uniform(0, 9, 4)
    got = mod.ChargeResolutionPlotter.limit_curves(keep.astype(float), *a)
    c.close(got, np.sqrt(a[0] + a[1] + a[2] ** 2 * keep
                         + (a[3] * keep) ** 2) / keep, 'limit-curve', 1e-9)
    c.nontrivial(str(x.dtype), n)
