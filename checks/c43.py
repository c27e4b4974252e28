"""C43: photoelectron spectra are plotted as they were stored"""
import os
import re

import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Result files with random parameters, pixels, histograms and curves
are given to the real executable; a monitor reads camera images, histograms,
lines, legends and tables back from every figure it saves and compares them
with the generating values. The same for the plot mode of the extraction and
for figures saved to random paths. Distinct by content."""
REQUIRE = ['figures', 'camera_images', 'value_histograms', 'spectra',
           'table_cells', 'plot_mode', 'saved_files']
WORKERS = dict(quick=8, thorough=8)


def setup():
    import CHECLabPy.scripts.plot_spe  # noqa
    import CHECLabPy.scripts.extract_spe  # noqa
    from checks import c37
    c37.setup()


class Saved:
    """Monitor: what is on each figure when it is saved or shown"""

    def __init__(self, really=False):
        self.figs, self.really = {}, really

    def __enter__(self):
        from CHECLabPy.plotting.setup import Plotter
        self.cls, self.orig = Plotter, (Plotter.save, Plotter.show)
        me = self

        def save(p, path, **kwargs):
            p.finish()
            me.figs[os.path.basename(path)] = describe(p.fig)
            if me.really:
                return me.orig[0](p, path, **kwargs)
            p.close()

        def show(p, *args, **kwargs):
            p.finish()
            me.figs['show'] = describe(p.fig)
            p.close()
        Plotter.save, Plotter.show = save, show
        return self

    def __exit__(self, *args):
        self.cls.save, self.cls.show = self.orig


def describe(fig):
    d = dict(title=fig._suptitle.get_text() if fig._suptitle else '',
             images=[], steps=[], lines=[], tables=[], bars=[], legend=[])
    for ax in fig.axes:
        for col in ax.collections:
            paths = col.get_paths()
            arr = col.get_array()
            if arr is not None and len(paths) == len(arr) and len(arr) > 1 \
                    and ax.get_label() != '<colorbar>':
                pos = np.array([[0.5 * (p.vertices[:, i].min()
                                        + p.vertices[:, i].max())
                                 for i in (0, 1)] for p in paths])
                d['images'].append((pos, np.ma.filled(
                    np.ma.masked_invalid(arr), np.nan)))
        for p in ax.patches:
            xy = p.get_path().vertices if hasattr(p, 'get_xy') else None
            if type(p).__name__ == 'Polygon':
                d['steps'].append((np.array(p.get_xy()), p.get_edgecolor()))
            elif type(p).__name__ == 'Rectangle' and xy is not None:
                d['bars'].append((p.get_x(), p.get_width(), p.get_height()))
        for ln in ax.lines:
            d['lines'].append((np.array(ln.get_xdata()),
                               np.array(ln.get_ydata()), ln.get_label(),
                               ln.get_color()))
        for t in ax.tables:
            d['tables'].append({k: v.get_text().get_text()
                                for k, v in t.get_celld().items()})
        if ax.get_legend():
            d['legend'] += [t.get_text()
                            for t in ax.get_legend().get_texts()]
    return d


def number(text):
    return [float(x) for x in re.findall(
        r'-?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)', text)]


def check_spectrum(c, d, hist_y, edges, fit_x, fit_y, values, errors,
                   initial):
    n_ill = len(hist_y)
    c.event('spectra', n_ill)
    if c.check(len(d['steps']) == n_ill, 'histograms-drawn',
               len(d['steps'])):
        for i, (xy, _) in enumerate(d['steps']):
            # the outline of a histogram: two points per bin and the ends
            want = np.repeat(np.concatenate([[0], hist_y[i], [0]]), 2)[1:-1]
            c.close(xy[:len(want), 1], want, 'histogram-height', 1e-6, 1e-9)
            c.close(xy[:len(want), 0], np.repeat(edges, 2),
                    'histogram-edges', 1e-6, 1e-9)
    lines = [ln for ln in d['lines'] if len(ln[0]) == len(fit_x)]
    if c.check(len(lines) == n_ill, 'curves-drawn', len(d['lines'])):
        for i, (x, y, label, colour) in enumerate(lines):
            c.close(x, fit_x, 'curve-x', 1e-9)
            c.close(y, fit_y[i], 'curve-y', 1e-9)
            name = 'lambda_{}'.format(i)
            got = number(label.split('=')[1])
            c.check(str(i) in label.split('=')[0], 'curve-label', label)
            c.close(got[:2], [values[name], errors[name]], 'curve-label',
                    0, 6e-4, label)
            if len(d['steps']) == n_ill:
                from matplotlib.colors import to_rgba
                c.check(to_rgba(colour)[:3] == tuple(d['steps'][i][1][:3]),
                        'curve-colour')
        c.check(d['legend'] == [ln[2] for ln in lines], 'legend')
    if not c.check(len(d['tables']) == 1, 'table'):
        return
    cells = d['tables'][0]
    rows = {cells[k]: k[0] for k in cells if k[1] == -1}
    if c.check(set(rows) == set(values), 'table-rows', list(rows)):
        for k, r in rows.items():
            c.event('table_cells', 2)
            c.close(number(cells[(r, 0)]), [initial[k]], 'table-initial',
                    6e-3, 1e-9, k)
            c.close(number(cells[(r, 1)]), [values[k], errors[k]],
                    'table-fit', 1e-9, 6e-4, k)


def random_result(rng, n_pixels, n_ill):
    names = ['norm{}'.format(i) for i in range(n_ill)] + [
        'lambda_{}'.format(i) for i in range(n_ill)] + \
        ['eped', 'eped_sigma', 'spe', 'spe_sigma', 'opct'][
            :int(rng.integers(0, 6))]
    n_bins = int(rng.integers(5, 60))
    val = pd.DataFrame({k: rng.normal(5, 3, n_pixels) for k in names})
    err = pd.DataFrame({k: rng.uniform(0, 2, n_pixels) for k in names})
    err *= rng.random(err.shape) > 0.1  # nothing free: no error
    rows = []
    for p in range(n_pixels):
        edges = np.linspace(-5, rng.uniform(20, 90), n_bins + 1)
        rows.append(dict(
            charge_hist_x=0.5 * (edges[1:] + edges[:-1]),
            charge_hist_y=[rng.integers(0, 500, n_bins)
                           for _ in range(n_ill)],
            charge_hist_edges=edges,
            fit_x=np.linspace(edges[0], edges[-1], 200),
            fit_y=[rng.uniform(0, 500, 200) for _ in range(n_ill)]))
    arr = pd.DataFrame(rows)
    initial = {k: round(float(rng.normal(3, 2)), 3) for k in names}
    for df in (val, err, arr):
        df.index.name = 'pixel'
    return val, err, arr, initial


@group(quick=16, thorough=300)
def files(c):
    from CHECLabPy.core.io import HDF5Writer
    from CHECLabPy.scripts import plot_spe
    from checks.c37 import small_mapping
    from vlib import dl1
    rng = c.rng
    n_pixels = int(rng.choice([2, 16, 64]))
    n_ill = int(rng.integers(1, 4)) if rng.random() < 0.8 else 12
    val, err, arr, initial = random_result(rng, n_pixels, n_ill)
    if rng.random() < 0.3:
        val.iloc[0, 0] = val.iloc[0, 0] * 100
    if rng.random() < 0.3:  # pixels without a result, or with none above 0
        val.iloc[rng.integers(n_pixels)] = 0.
    m = small_mapping(rng, n_pixels)
    path, out = c.path('spe.h5'), c.path('plots')
    with HDF5Writer(path) as w:
        w.write(values=val, errors=err, arrays=arr)
        w.add_mapping(m)
        w.add_metadata(files=['a'], fitter='F{}'.format(n_pixels),
                       n_illuminations=n_ill, n_pixels=n_pixels,
                       initial=initial)
    pixel = int(rng.integers(n_pixels))
    really = bool(rng.random() < 0.15)
    with Saved(really) as s:
        dl1.run_script(plot_spe, ['-f', path, '-o', out, '-p', pixel])
    figs = s.figs
    c.event('figures', len(figs))
    want = {'{}_{}.pdf'.format(a, k) for a in ('camera', 'hist')
            for k in val.columns} | {'spectrum_p{}.pdf'.format(pixel)}
    if really:
        c.check(set(os.listdir(out)) == want, 'files', os.listdir(out))
        c.event('saved_files', len(os.listdir(out)))
    if not c.check(set(figs) == want, 'figures', sorted(figs)):
        return
    pos = m[['xpix', 'ypix']].values
    for k in val.columns:
        d = figs['camera_{}.pdf'.format(k)]
        c.check(d['title'] == k, 'title', d['title'])
        if c.check(len(d['images']) == 2, 'camera-images', k):
            for (xy, v), df in zip(d['images'], (val, err)):
                c.event('camera_images')
                c.close(xy, pos, 'camera-position', 1e-6, 1e-6)
                c.close(v, df[k].values, 'camera-value', 1e-9, 1e-12, k)
        d = figs['hist_{}.pdf'.format(k)]
        v = val[k].values
        c.event('value_histograms')
        c.check(d['title'] == k, 'title', d['title'])
        total = 0
        for x, width, height in d['bars']:
            last = np.isclose(x + width, v.max())
            inside = (v >= x - 1e-9) & ((v < x + width - 1e-9) |
                                        (last & (v <= v.max())))
            total += height
            c.check(abs(inside.sum() - height) <= 1, 'value-histogram',
                    (k, x, width, height, inside.sum()))
        c.check(total == n_pixels, 'value-histogram', (k, total))
        got = number(''.join(d['legend']))
        c.close(got, [np.mean(v), np.sqrt(np.mean((v - np.mean(v)) ** 2))],
                'value-summary', 6e-3, 1e-9, k)
    d = figs['spectrum_p{}.pdf'.format(pixel)]
    c.check('F{}'.format(n_pixels) in d['title']
            and str(pixel) in d['title'].split('=')[-1], 'title', d['title'])
    row = arr.loc[pixel]
    check_spectrum(c, d, row['charge_hist_y'], row['charge_hist_edges'],
                   row['fit_x'], row['fit_y'], val.loc[pixel].to_dict(),
                   err.loc[pixel].to_dict(), initial)
    c.note(n_pixels=n_pixels, n_illuminations=n_ill, pixel=pixel)
    c.nontrivial(n_pixels, n_ill, len(val.columns))


@group(quick=30, thorough=600)
def plot_mode(c):
    """extract_spe -p shows the fit of that pixel"""
    from CHECLabPy.scripts import extract_spe
    from checks.c37 import small_mapping, write_dl1, initial_of
    from vlib import dl1, synth
    rng = c.rng
    n_pixels, n_ill = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    data, paths = [], []
    for i in range(n_ill):
        q = rng.normal(rng.uniform(2, 12, n_pixels),
                       rng.uniform(0.5, 3, n_pixels),
                       (int(rng.integers(40, 200)), n_pixels))
        paths.append(c.path('Run{}_dl1.h5'.format(i)))
        data.append(write_dl1(paths[-1], q, rng,
                              small_mapping(rng, n_pixels)))
    cls = synth.fitters()['MomentFitter']
    pixel = int(rng.integers(n_pixels))
    out = c.path('out.h5')
    with Saved() as s:
        c.raises(SystemExit, lambda: dl1.run_script(extract_spe, [
            '-f', *paths, '-o', out, '-C', 'charge', '-s', 'MomentFitter',
            '-p', pixel]), 'plot-mode-ends')
    c.event('plot_mode')
    c.check(not os.path.exists(out), 'file-in-plot-mode')
    if not c.check('show' in s.figs, 'shown'):
        return
    fitter = cls(n_ill)
    fitter.apply(*[q[:, pixel] for q in data])
    d = s.figs['show']
    c.check(str(pixel) in d['title'].split('=')[-1] and 'MomentFitter'
            in d['title'], 'title', d['title'])
    x, y, e = fitter.charge_histogram
    fx, fy = fitter.fit_result_curve
    check_spectrum(c, d, y, e, fx, fy, dict(fitter.fit_result_values),
                   dict(fitter.fit_result_errors), initial_of(fitter, n_ill))
    c.nontrivial(n_pixels, n_ill, pixel)


@group(quick=12, thorough=200)
def saving(c):
    """Figures are saved where asked, complete, and closed afterwards"""
    from CHECLabPy.plotting.setup import Plotter
    from matplotlib import pyplot as plt
    rng = c.rng
    finished = []

    class Mine(Plotter):
        def finish(self):
            finished.append(1)
            self.ax.set_title('finished')
    side = bool(rng.random() < 0.5)
    p = Mine(sidebyside=side, talk=False)
    other = plt.figure()
    p.ax.plot(rng.normal(0, 1, 9), label='line')
    p.add_legend(str(rng.choice(['upper right', 'lower left', 'best'])))
    deep = '/'.join('d{}'.format(i) for i in range(int(rng.integers(0, 3))))
    ext = str(rng.choice(['png', 'pdf']))
    path = os.path.join(c.dir, deep, 'fig.' + ext)
    number = p.fig.number
    w = p.fig.get_size_inches()
    c.close(w[1] / w[0], (np.sqrt(5) - 1) / 2, 'shape', 1e-6)
    p.save(path)
    c.event('saved_files')
    with open(path, 'rb') as f:
        head = f.read(8)
    c.check(head.startswith(b'\x89PNG' if ext == 'png' else b'%PDF'),
            'saved-format', head)
    c.check(finished == [1], 'finished-once', finished)
    c.check(not plt.fignum_exists(number) and plt.fignum_exists(
        other.number), 'closed')
    # again over an existing file
    p2 = Mine(ax=other.add_subplot(1, 1, 1))
    c.check(p2.fig is other, 'given-axes')
    p2.save(path)
    plt.close('all')
    c.nontrivial(deep, ext, side)
