"""C46: diagnostic plots show the quantities they diagnose"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random masks, data sheets and events go to the real plotting methods;
the figures as they are when shown are read back from matplotlib (lines, axes,
patches, colours, texts, arrows, circles) and compared with the inputs, with
reference pulse times, and with the columns extracted without plotting.
Distinct by inputs."""
ASSUMPTIONS = ["""timing is judged for pulses as in C19; telescope-up and
flasher positions are those of the mapping metadata"""]
REQUIRE = ['sheets', 'mask_images', 'masked_pixels', 'pulse_panels',
           'annotations', 'colour_bars']
WORKERS = dict(quick=6, thorough=8)
QUICK_FACTOR = 2


def setup():
    import CHECLabPy.plotting.camera  # noqa
    import CHECLabPy.waveform_reducers.timing  # noqa


class Shown:
    """Monitor: figures at the moment they are shown"""

    def __init__(self, look):
        self.look = look
        self.seen = []

    def __enter__(self):
        from matplotlib import pyplot as plt
        self.plt = plt
        self.orig = plt.show, plt.pause
        plt.close('all')

        def show(*args, **kwargs):
            figs = [plt.figure(k) for k in plt.get_fignums()]
            self.seen.append([self.look(f) for f in figs])

        plt.show = plt.pause = show
        return self

    def __exit__(self, *args):
        self.plt.show, self.plt.pause = self.orig
        self.plt.close('all')


def line_data(ln):
    return (np.asarray(ln.get_xdata(), float),
            np.asarray(ln.get_ydata(), float))


@group(quick=30, thorough=400)
def sheet(c):
    import pandas as pd
    from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    if c.rng.random() < 0.7:
        n = int(c.rng.integers(2, 40))
        conv.df = pd.DataFrame(dict(
            vover=np.cumsum(c.rng.uniform(0.05, 0.5, n)),
            gain=np.cumsum(c.rng.uniform(1e4, 1e5, n)),
            pde=c.rng.uniform(0, 1, n), opct=c.rng.uniform(0, 1, n)))
    keep = conv.df.copy()

    def look(fig):
        res = []
        for i, ax in enumerate(fig.axes):
            leg = ax.get_legend()
            res.append(dict(
                lines=[(ln.get_label(),) + line_data(ln) + (ln.get_color(),)
                       for ln in ax.lines],
                x=ax.get_xlabel(), y=ax.get_ylabel(), ylim=ax.get_ylim(),
                box=ax.get_position().bounds,
                legend=[] if leg is None else [
                    (t.get_text(), h.get_color()) for t, h in zip(
                        leg.get_texts(), leg.get_lines())]))
        return res

    with Shown(look) as s:
        conv.plot()
    c.event('sheets')
    c.check(conv.df.equals(keep), 'sheet-changed')
    if not c.check(len(s.seen) == 1 and len(s.seen[0]) == 1, 'shown-once',
                   len(s.seen)):
        return
    axes = s.seen[0][0]
    found = {}
    for k, ax in enumerate(axes):
        for label, x, y, colour in ax['lines']:
            found[label.lower()] = (k, x, y, colour)
    if not c.check(sorted(found) == ['gain', 'opct', 'pde'], 'lines',
                   sorted(found)):
        return
    for name, (k, x, y, colour) in found.items():
        c.close(x, keep['vover'].values, 'sheet-x', 1e-12)
        c.close(y, keep[name].values, 'sheet-' + name, 1e-12)
        lo, hi = axes[k]['ylim']
        c.check(name.upper() in axes[k]['y'].upper(), 'axis-label',
                (name, axes[k]['y']))
        if name != 'gain':
            c.check(lo <= 0 < 1 <= hi, 'axis-range', (name, lo, hi))
        else:
            c.check(lo <= 0 and keep['gain'].max() <= max(hi, 4e6) and hi > 0,
                    'axis-range', (name, lo, hi))
    c.check(found['gain'][0] != found['pde'][0], 'gain-axis')
    c.check(found['pde'][0] == found['opct'][0], 'fraction-axis')
    c.check(len({ax['box'] for ax in axes}) == 1, 'axes-apart')
    legend = [e for ax in axes for e in ax['legend']]
    c.check(sorted(t.lower() for t, _ in legend) == ['gain', 'opct', 'pde'],
            'legend', legend)
    for t, colour in legend:
        c.check(colour == found[t.lower()][3], 'legend-colour', t)
    c.check(len({f[3] for f in found.values()}) == 3, 'line-colours')
    c.check(any('over' in ax['x'].lower() for ax in axes), 'x-label')
    c.note(n=len(keep))
    c.nontrivial(len(keep), c.index)


@group(quick=4, thorough=40)
def masks(c):
    from CHECLabPy.calib.pixel_masks import PixelMasks
    from checks.c38 import positions, colours
    from vlib import camera
    df, _ = camera.layout_info('checs')
    pos = df[['xpix', 'ypix']].values
    m = PixelMasks()
    if c.index:
        f = 10.0 ** c.rng.uniform(-3, -0.3)
        m.dead = c.rng.random(2048) < f
        m.low = c.rng.random(2048) < f
        m.bad_hv = c.rng.random(512) < f
    want = np.full(2048, np.nan)
    for p in range(2048):
        if m.dead[p]:
            want[p] = 1
        if m.low[p]:
            want[p] = 2
        if m.bad_hv[p // 4]:
            want[p] = 0.5
    keep = m.dead.copy(), m.low.copy(), m.bad_hv.copy()

    def look(fig):
        ax = fig.axes[0]
        col = ax.collections[0]
        col.update_scalarmappable()
        return dict(
            pos=positions(col), lw=np.array(col.get_linewidth()),
            values=np.ma.filled(np.ma.masked_invalid(
                col.get_array()).astype(float), np.nan),
            fc=np.broadcast_to(col.get_facecolor(), (2048, 4)).copy(),
            want=colours(col, want, col.get_clim()),
            texts=[(t.get_position(), t.get_text()) for t in ax.texts])

    with Shown(look) as s:
        m.plot()
    c.event('mask_images')
    c.event('masked_pixels', np.isfinite(want).sum())
    for a, b, name in zip(keep, (m.dead, m.low, m.bad_hv),
                          ('dead', 'low', 'bad_hv')):
        c.equal(b, a, 'mask-changed', name)
    if not c.check(len(s.seen) == 1 and len(s.seen[0]) == 1, 'shown-once',
                   len(s.seen)):
        return
    d = s.seen[0][0]
    if c.check(d['pos'].shape == pos.shape, 'number-of-pixels'):
        c.close(d['pos'], pos, 'pixel-position', 0, 1e-7)
    c.close(d['values'], want, 'mask-value')
    c.close(d['fc'], d['want'], 'mask-colour', 0, 0.02)
    c.check((d['lw'] > 0).all(), 'outlines')
    got = np.full(2048, '', dtype=object)
    for (x, y), t in d['texts']:
        p = np.argmin(((pos - [x, y]) ** 2).sum(1))
        c.check(np.abs(pos[p] - [x, y]).max() < 1e-6, 'number-position')
        got[p] += t
    c.check((got == np.arange(2048).astype(str)).all(), 'pixel-numbers')
    c.nontrivial(int(np.isfinite(want).sum()))


@group(quick=24, thorough=600)
def pulses(c):
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.waveform_reducers.timing import Timing
    from checks.c19 import crossing
    from vlib import camera
    rng = c.rng
    n_pix, n = int(rng.integers(2, 9)), int(rng.choice([64, 96, 128]))
    t = np.arange(n)
    t0 = float(rng.uniform(24, n - 24))
    amp = rng.permutation(np.linspace(10, 60, n_pix))
    time = t0 + rng.uniform(-1, 1, n_pix)
    wf = (amp[:, None] * np.exp(-0.5 * ((t - time[:, None])
                                        / rng.uniform(2, 4)) ** 2)
          + rng.normal(0, 5)).astype(np.float32)
    kw = {}
    if rng.random() < 0.5:
        kw = dict(window_size=int(rng.integers(8, 14)),
                  window_shift=int(rng.integers(4, 7)))
    kw.update(t_event=True, t_pulse=True, t_pulse_amp=True, fwhm=True,
              t_rise=True, saturation_sum=False)
    plain = Timing(n_pix, n, **kw)
    ref = {k: np.array(v) for k, v in plain.process(wf).items()}
    if rng.random() < 0.5:
        red = Timing(n_pix, n, plot_timing=True, **kw)
    else:
        chain = {k: False for k in WaveformReducerChain.default_columns}
        red = WaveformReducerChain(
            n_pix, n, mapping=camera.mapping_of('module'),
            plot_timing=True, **{**chain, **kw})

    def look(fig):
        return [dict(title=ax.get_title(), lines=[
            (ln.get_label(),) + line_data(ln) for ln in ax.lines])
            for ax in fig.axes]

    keep = wf.copy()
    with Shown(look) as s:
        got = red.process(wf)
        c.check(not s.plt.get_fignums(), 'figure-left-open')
    c.equal(wf, keep, 'waveforms-changed')
    for k, v in ref.items():
        c.close(np.asarray(got[k], float), np.asarray(v, float),
                'plotting-changes-' + k, 0)
    if not c.check(len(s.seen) == 1 and len(s.seen[0]) == 1, 'shown-once',
                   len(s.seen)):
        return
    panels = s.seen[0][0]
    if not c.check(len(panels) == 2, 'panels', len(panels)):
        return
    te = int(ref['t_event'])
    ends = [int(np.argmax(wf[:, te])), int(np.argmin(wf[:, te]))]
    lo = max(te - kw.get('window_shift', 4), 0)
    hi = te - kw.get('window_shift', 4) + kw.get('window_size', 8)
    for panel, p, title in zip(panels, ends, ('large', 'low')):
        c.event('pulse_panels')
        c.check(title in panel['title'].lower(), 'panel-title',
                panel['title'])
        curves = [(x, y) for _, x, y in panel['lines'] if len(x) == n]
        if c.check(len(curves) == 1, 'waveform-shown', len(curves)):
            c.close(curves[0][0], t, 'waveform-samples')
            c.close(curves[0][1], wf[p], 'waveform', 1e-6)
        marks = [(x[0], y[0]) for _, x, y in panel['lines'] if len(x) == 1]
        c.check(len(marks) == 1 and np.allclose(
            marks[0], (ref['t_pulse'][p], ref['t_pulse_amp'][p]), 1e-6),
            'peak-mark', marks)
        w = wf[p].astype(np.float64)
        base = w[:10].mean()
        tp, ap = float(ref['t_pulse'][p]), float(ref['t_pulse_amp'][p])
        i = int(np.round(tp))
        want = [te, lo, hi, tp, crossing(w, i, -1, base + ap / 2),
                crossing(w, i, 1, base + ap / 2),
                crossing(w, i, -1, base + 0.1 * ap),
                crossing(w, i, -1, base + 0.9 * ap)]
        got = [x[0] for _, x, y in panel['lines']
               if len(x) == 2 and x[0] == x[1]]
        if c.check(len(got) == len(want), 'number-of-marks', (got, want)):
            c.close(np.sort(got), np.sort(want), 'marked-times', 0, 0.02)
    c.note(n=n, n_pix=n_pix)
    c.nontrivial(n, n_pix, te)


@group(quick=24, thorough=400)
def annotations(c):
    """Telescope-up arrow, flashers and colour bars on camera images"""
    from matplotlib import patches
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    from checks.c38 import random_layout, random_image, colours
    rng = c.rng
    name, m = random_layout(c)
    meta = m.metadata
    for k in ('X', 'Y'):
        for e in 'lu':
            meta['fOTUp{}_{}'.format(k, e)] = float(rng.normal(0, 0.1))
    for k in ('Row', 'Col'):
        for e in 'lu':
            meta['fOTUp{}_{}'.format(k, e)] = int(rng.integers(0, 48))
    grid = bool(rng.random() < 0.5)
    ci = (CameraImageImshow if grid else CameraImage).from_mapping(m)
    n = len(m)
    _, v = random_image(rng, n)
    ci.image = v
    # the arrow
    if grid:
        start = np.array([meta['fOTUpCol_l'], meta['fOTUpRow_l']], float)
        end = np.array([meta['fOTUpCol_u'], meta['fOTUpRow_u']], float)
        size = 1.0
    else:
        start = np.array([meta['fOTUpX_l'], meta['fOTUpY_l']])
        end = np.array([meta['fOTUpX_u'], meta['fOTUpY_u']])
        size = 0.01
    if np.linalg.norm(end - start) > 0:
        before = list(ci.ax.patches)
        n_text = len(ci.ax.texts)
        ci.annotate_on_telescope_up()
        arrow = [p for p in ci.ax.patches if p not in before]
        c.event('annotations')
        if c.check(len(arrow) == 1, 'one-arrow', len(arrow)):
            xy = arrow[0].get_xy()
            u = (end - start) / np.linalg.norm(end - start)
            along = (xy - start) @ u
            across = np.abs((xy - start) @ np.array([-u[1], u[0]]))
            length = np.linalg.norm(end - start)
            c.check(abs(along.min()) < 1e-3 * size, 'arrow-start',
                    (along.min(), start))
            c.check(length - 1e-9 <= along.max() <= length + 3 * size,
                    'arrow-end', (along.max(), length))
            tip = along > length * (1 - 1e-9) - 1e-12
            c.check(across.max() < 2 * size, 'arrow-direction',
                    (across.max(), size))
            c.check(across[np.argmax(along)] < 1e-6 * size + 1e-12,
                    'arrow-tip', tip.sum())
        texts = ci.ax.texts[n_text:]
        if c.check(len(texts) == 1, 'one-text'):
            c.check('up' in texts[0].get_text().lower(), 'arrow-text')
            c.check(np.allclose(texts[0].get_position(), start),
                    'arrow-text-position')
    if not grid:
        before = list(ci.ax.patches)
        n_text = len(ci.ax.texts)
        ci.annotate_led_flasher()
        c.event('annotations')
        x0 = meta['fOTUpX_l']
        y0 = meta['fOTUpY_l'] + 2 * meta['size']
        want = {0: (x0, y0), 1: (-x0, y0), 2: (x0, -y0), 3: (-x0, -y0)}
        texts = {int(t.get_text()): t.get_position()
                 for t in ci.ax.texts[n_text:]}
        c.check(sorted(texts) == [0, 1, 2, 3], 'flashers', sorted(texts))
        circles = [p for p in ci.ax.patches if p not in before
                   and isinstance(p, patches.Circle)]
        c.check(len(circles) == 4, 'flasher-marks', len(circles))
        for k, p in want.items():
            c.check(k in texts and np.allclose(texts[k], p, 1e-9, 1e-12),
                    'flasher-position', (k, texts.get(k), p))
            c.check(any(np.allclose(q.center, p, 1e-9, 1e-12)
                        for q in circles), 'flasher-mark', k)
    # the colour bar follows the image
    label = 'Charge {}'.format(int(rng.integers(100)))
    ci.add_colorbar(label=label)
    c.event('colour_bars')
    base = ci.ax.images[0] if grid else ci.ax.collections[0]
    bars = [ax for ax in ci.fig.axes if ax is not ci.ax]
    c.check(len(bars) == 1, 'one-colour-bar')
    c.check(ci.colorbar is not None and ci.colorbar.mappable is base,
            'colour-bar-of-image')
    c.check(label in (bars[0].get_ylabel(), bars[0].get_xlabel()),
            'colour-bar-label')
    for _ in range(3):
        what = str(rng.choice(['image', 'limits', 'cmap']))
        if what == 'image':
            _, v = random_image(rng, n)
            if np.ptp(v[np.isfinite(np.asarray(v, float))]) < 1e-3:
                v = rng.normal(0, 5, n)
            ci.image = v
        elif what == 'limits':
            a = float(rng.normal())
            ci.set_limits_minmax(a, a + 2)
        elif not grid:
            ci.set_cmap(str(rng.choice(['magma', 'gray', 'plasma'])))
            base.update_scalarmappable()
            c.close(np.broadcast_to(base.get_facecolor(), (n, 4)),
                    colours(base, v, base.get_clim()), 'cmap-colour', 0, .02)
        got = (ci.colorbar.vmin, ci.colorbar.vmax)
        lim = base.get_clim()
        if lim[1] > lim[0]:
            c.check(np.allclose(got, lim, 1e-3), 'colour-bar-limits',
                    (got, lim))
    ci.fig.canvas.draw_idle()
    c.note(layout=name, grid=grid)
    c.nontrivial(name, grid, c.index)
