"""C42: waveform displays show each pixel's waveform in its own panel"""
import re

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Layouts from single modules to the full camera and random waveforms
(noise, outliers, flat, integer, several events one after another) go to the
real displays; a monitor reads panel positions, lines, colours, lists, limits
and outlines back from matplotlib. Distinct by layout and waveforms."""
ASSUMPTIONS = ["pixels are numbered module by module, 64 per module"]
REQUIRE = ['module_panels', 'pixel_panels', 'lines', 'listed_pixels',
           'highlighted', 'resets', 'single_plots', 'averages']
WORKERS = dict(quick=8, thorough=8)


def setup():
    import CHECLabPy.plotting.waveform  # noqa


def waveforms(rng, n):
    n_samples = int(rng.choice([32, 64, 96, 128]))
    t = np.arange(n_samples)
    kind = str(rng.choice(['pulses', 'noise', 'int', 'few']))
    wf = rng.normal(0, 1, (n, n_samples))
    if kind in ('pulses', 'few'):
        amp = rng.exponential(20, (n, 1))
        if kind == 'few':
            amp = amp * 0.1 + 30 * (rng.random((n, 1)) < 0.95)
        wf += amp * np.exp(-0.5 * ((t - rng.uniform(8, n_samples - 8))
                                   / 3) ** 2)
    elif kind == 'int':
        wf = rng.integers(-50, 400, (n, n_samples))
    if rng.random() < 0.3:
        wf = wf - 20
    return wf, kind


def panel_grid(axes, c, want):
    """Panels are where the rows (upwards) and columns say"""
    box = {k: ax.get_position() for k, ax in axes.items()}
    xs = np.array([[b.x0 + b.x1, b.y0 + b.y1] for b in box.values()]) / 2
    size = np.array([[b.width, b.height] for b in box.values()])
    c.check((size.std(0) < 1e-6).all(), 'panel-size')
    pos = np.round((xs - xs.min(0)) / size.mean(0)).astype(int)
    pos[:, 0] += min(v[1] for v in want.values())
    pos[:, 1] += min(v[0] for v in want.values())
    for (k, _), (x, y) in zip(box.items(), pos):
        if not c.check((y, x) == tuple(want[k]), 'panel-position',
                       (k, (y, x), want[k])):
            return


def ydata(ax, skip=0):
    return [np.asarray(ln.get_ydata()) for ln in ax.lines[skip:]
            if len(np.asarray(ln.get_xdata())) > 2]


@group(quick=24, thorough=600)
def modules(c):
    from CHECLabPy.plotting.waveform import CameraTMWaveformPlotter
    from matplotlib import pyplot as plt
    from matplotlib.colors import to_rgba
    from vlib import camera
    rng = c.rng
    name = str(rng.choice(['module', 'quad', 'nine', 'cross', 'checs', 'any'],
                          p=[.1, .15, .15, .15, .1, .35]))
    slots = camera.random_slots(rng, 4) if name == 'any' \
        else camera.LAYOUTS[name]['slots']
    m = camera.mapping_of(name, slots)
    n = len(m)
    p = CameraTMWaveformPlotter(m, 'title {}'.format(n))
    axes = p.ax_dict
    if not c.check(set(axes) == set(range(len(slots))), 'panels'):
        return
    c.event('module_panels', len(slots))
    panel_grid(axes, c, {i: s for i, s in enumerate(slots)})
    for tm, ax in axes.items():
        c.check(str(tm) in [t.get_text() for t in ax.texts], 'panel-label')
    kinds = []
    for _ in range(int(rng.integers(1, 3))):
        wf, kind = waveforms(rng, n)
        kinds.append(kind)
        keep = wf.copy()
        frac = round(float(rng.choice([0.75, rng.uniform(0, 1.5)])), 2)
        if rng.random() < 0.25:  # maxima exactly at the limit, not below
            wf = np.zeros(wf.shape, dtype=wf.dtype)
            wf[:, int(rng.integers(wf.shape[1]))] = np.tile([10, 30], n // 2)
            frac, keep = float(rng.choice([0.5, 1.5])), wf.copy()
            kinds[-1] = 'border'
        n_lines = {k: len(ax.lines) for k, ax in axes.items()}
        n_texts = {k: len(ax.texts) for k, ax in axes.items()}
        p.plot_waveforms(wf, thresh_fraction=frac)
        c.equal(wf, keep, 'waveforms-changed')
        mean = keep.mean(0)
        limit = mean.max() * frac
        for tm, ax in axes.items():
            mine = keep[tm * 64:(tm + 1) * 64]
            new = [ln for ln in ax.lines[n_lines[tm]:]
                   if len(np.asarray(ln.get_ydata())) == wf.shape[1]]
            c.event('lines', len(new))
            if not c.check(len(new) == 66, 'number-of-lines', len(new)):
                return
            thin = [ln for ln in new
                    if to_rgba(ln.get_color())[:3] != (0, 0, 0)]
            if not c.check(len(thin) == 64, 'coloured-lines', len(thin)):
                return
            c.equal(np.array([ln.get_ydata() for ln in thin]), mine,
                    'module-waveforms', tm)
            cols = [to_rgba(ln.get_color()) for ln in thin]
            for a in range(4):
                c.check(len(set(cols[16 * a:16 * a + 16])) == 1
                        and to_rgba(p.asic_color[a])[:3] == cols[16 * a][:3],
                        'asic-colour')
            black = {ln.get_linestyle(): np.asarray(ln.get_ydata())
                     for ln in new if ln not in thin}
            c.event('averages', 2)
            if c.check(set(black) == {'-', '--'}, 'average-lines'):
                c.close(black['-'], mean, 'camera-mean', 1e-9, 1e-9)
                c.close(black['--'], mine.mean(0), 'module-mean', 1e-9, 1e-9)
            text = ''.join(t.get_text() for t in ax.texts[n_texts[tm]:])
            got = [tuple(map(int, g)) for g in
                   re.findall(r'\[(\d+)\|(\d+)\]', text)]
            want = [(i, 64 * tm + i) for i in range(64)
                    if mine[i].max() < limit]
            c.event('listed_pixels', len(want))
            c.check(got == want, 'listed-pixels', (got[:5], want[:5]))
            c.check(ax.get_xlim() == (0, wf.shape[1]), 'x-limits')
            lo, hi = ax.get_ylim()  # ticks may extend it
            c.check(lo <= keep.min() and hi >= keep.max(), 'y-limits',
                    (lo, hi))
        c.check(any('{:.2f} x'.format(frac) in t.get_text()
                    for t in p.fig.texts), 'threshold-text')
    plt.close('all')
    c.note(layout=name, kinds=kinds)
    c.nontrivial(name, kinds)


def outline(ax):
    from matplotlib.colors import to_rgba
    return {k: (s.get_visible(), to_rgba(s.get_edgecolor()),
                round(float(s.get_linewidth()), 6))
            for k, s in ax.spines.items()}


@group(quick=16, thorough=300)
def pixels(c):
    from CHECLabPy.plotting.waveform import CameraPixelWaveformPlotter
    from matplotlib import pyplot as plt, cm
    from matplotlib.colors import to_rgba
    from vlib import camera
    rng = c.rng
    name = 'quad' if rng.random() < (0.3 if c.thorough else 0.1) else 'module'
    m = camera.mapping_of(name)
    if name == 'module' and rng.random() < 0.2:
        name = 'two'
        m = camera.mapping_of(name, [(0, 0), (0, 1)] if rng.random() < 0.5
                              else [(0, 0), (1, 0)])
    n = len(m)
    p = CameraPixelWaveformPlotter(m)
    axes = p.ax_dict
    if not c.check(set(axes) == set(range(n)), 'panels'):
        return
    c.event('pixel_panels', n)
    panel_grid(axes, c, {i: (r, k) for i, (r, k) in enumerate(
        m[['row', 'col']].values)})
    for i, ax in axes.items():
        c.check('{}\n{},{}'.format(i, i // 64, i % 64)
                in [t.get_text() for t in ax.texts], 'panel-label', i)
    start = {i: outline(ax) for i, ax in axes.items()}
    wf, kind = waveforms(rng, n)
    keep = wf.copy()
    skip = {i: len(ax.lines) for i, ax in axes.items()}
    p.plot_waveforms(wf)
    c.equal(wf, keep, 'waveforms-changed')
    top = keep.max(1)
    for i, ax in axes.items():
        y = ydata(ax, skip[i])
        c.event('lines', len(y))
        if not c.check(len(y) == 2, 'number-of-lines', len(y)):
            return
        c.equal(y[0], keep[i], 'pixel-waveform', i)
        c.close(y[1], keep.mean(0), 'camera-mean', 1e-9, 1e-9)
        c.check(ax.get_xlim() == (0, wf.shape[1]), 'x-limits')
        c.close(ax.get_ylim(), [keep.min(), keep.max()], 'y-limits')
        u = (top[i] - top.min()) / max(top.max() - top.min(), 1e-30)
        c.close(to_rgba(ax.get_facecolor()), cm.viridis(u), 'panel-colour',
                0, 0.02, i)
    marked, history = {}, ''
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.6:
            col = str(rng.choice(['red', 'blue', 'lime']))
            mask = rng.random(n) < rng.choice([0, 0.05, 0.5, 1])
            p.highlight_pixels(mask if rng.random() < 0.5
                               else mask.tolist(), color=col)
            marked.update({i: col for i in np.flatnonzero(mask)})
            c.event('highlighted', mask.sum())
            history += 'h'
        else:
            p.reset_pixel_highlight()
            marked = {}
            c.event('resets')
            history += 'r'
        for i, ax in axes.items():
            want = start[i]
            if i in marked:
                want = {k: (True, to_rgba(marked[i]), 1.0) for k in want}
            if not c.check(outline(ax) == want, 'outline',
                           lambda: (i, history, outline(ax), want)):
                break
    plt.close('all')
    c.note(layout=name, history=history)
    c.nontrivial(name, kind, history)


@group(quick=40, thorough=1000)
def single(c):
    from CHECLabPy.plotting.waveform import WaveformPlotter
    from matplotlib import pyplot as plt
    rng = c.rng
    title, units = 'T{}'.format(rng.integers(99)), str(
        rng.choice(['', 'mV']))
    ax = plt.figure().add_subplot(1, 1, 1) if rng.random() < 0.3 else None
    p = WaveformPlotter(title=title, units=units, ax=ax)
    if ax is not None:
        c.check(p.ax is ax and p.fig is ax.figure, 'given-axes')
    want = []
    for i in range(int(rng.integers(1, 5))):
        n = int(rng.integers(2, 200))
        y = rng.normal(0, 5, n)
        x = np.sort(rng.uniform(0, 100, n)) if rng.random() < 0.5 else None
        p.add(x, y, label='w{}'.format(i))
        want.append((np.arange(n) if x is None else x, y))
    p.finish()
    c.event('single_plots')
    c.check(p.ax.get_title() == title, 'title')
    c.check(('mV' in p.ax.get_ylabel()) == (units == 'mV')
            and '(ns)' in p.ax.get_xlabel(), 'axis-labels')
    if c.check(len(p.ax.lines) == len(want), 'number-of-lines'):
        for i, (ln, (x, y)) in enumerate(zip(p.ax.lines, want)):
            c.equal(ln.get_xdata(), x, 'times', i)
            c.equal(ln.get_ydata(), y, 'amplitudes', i)
            c.check(ln.get_label() == 'w{}'.format(i), 'label')
    out = c.path('d/e/plot.png')
    if rng.random() < 0.3:
        import os
        number = p.fig.number
        p.save(out)
        c.check(os.path.getsize(out) > 1000, 'saved')
        c.check(not plt.fignum_exists(number), 'closed')
    plt.close('all')
    c.nontrivial(len(want), units)
