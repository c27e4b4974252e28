"""C38: camera images show each pixel's value at that pixel's position"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random layouts (scale, gaps, permuted pixels, superpixels, modules),
values (NaN, infinite, constant, integer) and histories of images, limits,
highlights and texts on the real plotting classes; after each step a monitor
reads patches, colours, limits, line widths and texts back from matplotlib.
Distinct by layout and history."""
ASSUMPTIONS = ["the layout has a complete row and a complete column"]
REQUIRE = ['images', 'patches', 'masked', 'limits', 'highlights', 'texts',
           'labels', 'refusals', 'grids']
WORKERS = dict(quick=8, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.plotting.camera  # noqa


def random_layout(c, name=None):
    from checks.c25 import random_layout as draw
    name, m, gap = draw(c, permute=c.rng.random() < 0.4, name=name)
    return name, m


def random_image(rng, n):
    kind = str(rng.choice(['normal', 'nan', 'constant', 'int', 'index',
                           'single', 'big', 'inf', 'digits']))
    if kind == 'constant':
        v = np.full(n, rng.normal())
    elif kind == 'int':
        v = rng.integers(-1000, 1000, n)
    elif kind == 'index':
        v = np.arange(n)
    elif kind == 'digits':  # small differences of large numbers
        v = 1e9 + rng.normal(0, 20, n)
    elif kind == 'single':
        v = rng.normal(0, 10, n).astype(np.float32)
    else:
        v = rng.normal(0, 10.0 ** rng.integers(-3, 6), n)
        if kind == 'big':
            v *= 10.0 ** rng.integers(0, 12)
    if kind in ('nan', 'inf') and n > 1:
        v[rng.integers(0, n, max(n // 10, 1))] = np.nan
        if kind == 'inf':
            v[rng.integers(0, n, 1)] = np.inf
    return kind, v


def random_limits(rng):
    a, b = float(rng.normal()), float(rng.uniform(0.1, 10))
    return [(a, a + b), (0, b), (-b, 0), (0.0, b), (-b, b)][
        int(rng.choice(5, p=[.5, .15, .15, .1, .1]))]


def next_image(rng, n, v):
    """A new array, or the one shown before with other values in it"""
    kind, new = random_image(rng, n)
    if v is not None and rng.random() < 0.4:
        if rng.random() < 0.3:
            v[rng.integers(n)] += 1
        else:
            v[:] = np.nan_to_num(new.astype(float), posinf=1e3).astype(v.dtype)
        return 'in-place', v
    return kind, new


def positions(collection):
    return np.array([[0.5 * (p.vertices[:, i].min() + p.vertices[:, i].max())
                      for i in (0, 1)] for p in collection.get_paths()])


def colours(m, values, limits):
    """What matplotlib gives for these values, one by one"""
    vmin, vmax = limits
    v = np.asarray(values, dtype=float)
    with np.errstate(all='ignore'):
        u = (v - vmin) / (vmax - vmin) if vmax > vmin else v * 0
    return m.get_cmap()(np.ma.masked_invalid(u))


class Scale:
    """Follows the data until limits are set, again after a reset"""

    def __init__(self):
        self.fixed = None

    def limits(self, v):
        if self.fixed:
            return self.fixed
        ok = np.asarray(v, dtype=float)[np.isfinite(np.asarray(v, float))]
        return (ok.min(), ok.max()) if ok.size else None


def check_limits(c, m, want):
    got = m.get_clim()
    c.event('limits')
    return c.check(got[0] is not None and np.allclose(
        np.asarray(got, float), want, 1e-6, 1e-12), 'colour-limits',
        (got, want))


@group(quick=40, thorough=1200)
def patches(c):
    from matplotlib.colors import to_rgba
    from CHECLabPy.plotting.camera import CameraImage
    from CHECLabPy.utils.mapping import get_superpixel_mapping, \
        get_tm_mapping
    rng = c.rng
    name, m = random_layout(c)
    level = str(rng.choice(['pixel', 'superpixel', 'module']))
    if level == 'superpixel':
        m = get_superpixel_mapping(m)
    elif level == 'module':
        m = get_tm_mapping(m)
    ci = CameraImage.from_mapping(m)
    n = len(m)
    base = ci.ax.collections[0]
    pos = m[['xpix', 'ypix']].values
    tol = 1e-6 * np.abs(pos).max() + 1e-12
    size = m.metadata['size']
    if not c.check(len(base.get_paths()) == n, 'number-of-patches'):
        return
    c.event('patches', n)
    c.close(positions(base), pos, 'patch-position', 0, tol)
    if size > 0.003:
        width = np.array([np.ptp(p.vertices[:, 0]) for p in base.get_paths()])
        c.check((width < 1.1 * size).all() and (width > 0.9 * size).all(),
                'patch-size', (width[:2], size))
    scale, history, v = Scale(), '', None
    n_text, drawn = len(ci.ax.texts), []
    for _ in range(int(rng.integers(2, 8))):
        what = str(rng.choice(['image', 'image', 'limits', 'reset',
                               'highlight', 'highlight', 'text', 'wrong']))
        if v is None and (what not in ('limits', 'reset')
                          or rng.random() < 0.5):
            what = 'image'
        history += what[0]
        if what == 'image':
            kind, v = next_image(rng, n, v)
            keep = v.copy()
            ci.image = v
            c.event('images')
            c.equal(v, keep, 'image-changed')
            c.equal(ci.image, v, 'image-kept')
        elif what == 'limits':
            scale.fixed = random_limits(rng)
            ci.set_limits_minmax(*scale.fixed)
        elif what == 'reset':
            scale.fixed = None
            ci.reset_limits()
        elif what == 'wrong':
            other = np.zeros(n + int(rng.choice([-1, 1, 5])))
            c.event('refusals')

            def assign():
                ci.image = other
            c.raises(Exception, assign, 'wrong-size')
        elif what == 'highlight':
            k = int(rng.integers(0, min(n, 20) + 1))
            px = rng.choice(n, k, replace=False)
            form = int(rng.integers(3))
            arg = px if form == 0 else px.tolist()
            if form == 2:
                arg = np.zeros(n, dtype=bool)
                arg[px] = True
            lw = float(rng.uniform(0.3, 3))
            before = np.array(base.get_linewidth())
            colour = str(rng.choice(['r', 'g', 'b', 'orange']))
            h = ci.highlight_pixels(arg, color=colour, linewidth=lw)
            c.event('highlights')
            if not c.check(h in ci.ax.collections and h is not base,
                           'highlight-drawn'):
                continue
            c.close(positions(h), pos, 'highlight-position', 0, tol)
            got = np.broadcast_to(h.get_linewidth(), n)
            want = np.zeros(n)
            want[px] = lw
            c.close(got, want, 'highlighted', 1e-6, 1e-9)
            c.equal(np.array(base.get_linewidth()), before,
                    'highlight-changed-image')
            # Those highlighted before stay as they were
            drawn.append((h, want, to_rgba(colour)[:3]))
            for old, widths, rgb in drawn:
                c.close(np.broadcast_to(old.get_linewidth(), n), widths,
                        'highlighted-before', 1e-6, 1e-9)
                ec = np.asarray(old.get_edgecolor())
                c.check(old in ci.ax.collections and (
                    np.abs(ec[:, :3] - rgb) < 1e-6).all(),
                    'highlight-colour', lambda: (rgb, ec[:2]))
            ci.fig.canvas.draw()
            h.update_scalarmappable()
            fc = h.get_facecolor()
            c.check(len(fc) == 0 or (fc[:, 3] == 0).all(),
                    'highlight-covers')
        elif what == 'text':
            if n <= 512 and rng.random() < 0.5:
                vals = [lambda: rng.integers(0, 100, n),
                        lambda: rng.normal(0, 100, n),
                        lambda: rng.normal(0, 1e6, n).astype(np.float32),
                        lambda: np.array(list(map(str, rng.normal(0, 1, n)))),
                        ][int(rng.integers(4))]()
                ci.add_pixel_text(vals)
                want = {(i, str(vals[i])) for i in range(n)}
            else:
                i = int(rng.integers(n))
                text = ['p{}'.format(i), float(rng.normal()),
                        int(rng.integers(10 ** 9)), 'a %d', True][
                            int(rng.integers(5))]
                ci.add_text_to_pixel(i, text)
                want = {(i, str(text))}
            new = ci.ax.texts[n_text:]
            n_text = len(ci.ax.texts)
            c.event('texts', len(new))
            got = {(int(np.argmin(((pos - t.get_position()) ** 2).sum(1))),
                    t.get_text()) for t in new}
            c.check(got == want, 'text', lambda: (sorted(got - want)[:3],
                                                  sorted(want - got)[:3]))
            c.check(all(np.abs(pos - t.get_position()).max(1).min() <= tol
                        for t in new), 'text-position')
        if v is None:
            continue
        limits = scale.limits(v)
        arr = base.get_array()
        c.check(np.ma.count_masked(np.ma.masked_invalid(arr)) == np.sum(
            ~np.isfinite(np.asarray(v, float))), 'masked-values')
        c.event('masked', np.ma.count_masked(arr))
        if limits is not None and check_limits(c, base, limits):
            base.update_scalarmappable()
            c.close(np.broadcast_to(base.get_facecolor(), (n, 4)),
                    colours(base, v, limits), 'patch-colour', 0, 0.02,
                    history)
    c.note(layout=name, level=level, history=history)
    c.nontrivial(name, level, history)


@group(quick=12, thorough=400)
def logarithmic(c):
    """With a logarithmic scale, before or after images and limits"""
    from matplotlib.colors import LogNorm
    from CHECLabPy.plotting.camera import CameraImage
    rng = c.rng
    name, m = random_layout(c)
    ci = CameraImage.from_mapping(m)
    n = len(m)
    base = ci.ax.collections[0]
    log, v, scale, history = False, None, Scale(), ''
    for _ in range(int(rng.integers(3, 7))):
        what = str(rng.choice(['image', 'log', 'limits', 'reset']))
        if v is None:
            what = 'image'
        history += what[0]
        if what == 'image':
            v = 10 ** rng.uniform(-3, 4, n)
            ci.image = v
            c.event('images')
        elif what == 'log':
            if scale.fixed is not None:
                continue
            ci.set_z_log()
            log = True
        elif what == 'limits':
            a = float(10 ** rng.uniform(-2, 2))
            scale.fixed = a, a * float(10 ** rng.uniform(0.1, 3))
            ci.set_limits_minmax(*scale.fixed)
        else:
            scale.fixed = None
            ci.reset_limits()
        lim = scale.limits(v)
        c.check(isinstance(base.norm, LogNorm) == log, 'log-scale', history)
        if not check_limits(c, base, lim):
            return
        if lim[1] > lim[0]:
            base.update_scalarmappable()
            f = np.log if log else (lambda x: x)
            u = (f(v) - f(lim[0])) / (f(lim[1]) - f(lim[0]))
            c.close(np.broadcast_to(base.get_facecolor(), (n, 4)),
                    base.get_cmap()(u), 'patch-colour', 0, 0.02, history)
    c.nontrivial(name, history)


def edge_modules(m):
    """Topmost and bottommost module of every column of modules"""
    g = m.groupby('slot').agg(r=('row', 'mean'), c=('col', 'mean'))
    top, bottom = set(), set()
    for _, col in g.groupby('c'):
        top.add(int(col['r'].idxmax()))
        bottom.add(int(col['r'].idxmin()))
    return top, bottom


@group(quick=16, thorough=400)
def labels(c):
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    name, m = random_layout(c)
    grid = bool(c.rng.random() < 0.5)
    if grid:
        ci = CameraImageImshow.from_mapping(m)
        x, y, unit = 'col', 'row', 1.0
    else:
        ci = CameraImage.from_mapping(m)
        x, y, unit = 'xpix', 'ypix', m.metadata['size']
    ci.annotate_tm_edge_label()
    top, bottom = edge_modules(m)
    got_top, got_bottom = set(), set()
    c.event('labels', len(ci.ax.texts))
    for t in ci.ax.texts:
        tm = int(t.get_text().replace('TM', ''))
        px, py = t.get_position()
        df = m.loc[m['slot'] == tm]
        if not c.check(len(df) > 0, 'label-unknown', t.get_text()):
            continue
        lo, hi = df[y].min(), df[y].max()
        c.check(df[x].min() - unit / 2 <= px <= df[x].max() + unit / 2,
                'label-column', (tm, px))
        if py > hi:
            got_top.add(tm)
            c.check(py <= hi + 3 * unit, 'label-distance', (tm, py, hi))
        elif py < lo:
            got_bottom.add(tm)
            c.check(py >= lo - 3 * unit, 'label-distance', (tm, py, lo))
        else:
            c.fail('label-inside', (tm, py, lo, hi))
    c.check(got_top == top and got_bottom == bottom, 'labelled-modules',
            (name, sorted(got_top), sorted(top), sorted(got_bottom)))
    c.nontrivial(name, grid)


@group(quick=40, thorough=1500)
def grids(c):
    from CHECLabPy.plotting.camera import CameraImageImshow
    from CHECLabPy.utils.mapping import get_superpixel_mapping, \
        get_tm_mapping
    rng = c.rng
    name, m = random_layout(c, 'checs' if c.index < 6 else None)
    level = str(rng.choice(['pixel', 'superpixel', 'module']))
    if c.index < 6:
        level = ['pixel', 'superpixel', 'module'][c.index % 3]
    if level == 'superpixel':
        m = get_superpixel_mapping(m)
    elif level == 'module':
        m = get_tm_mapping(m)
    ci = CameraImageImshow.from_mapping(m)
    n = len(m)
    row, col = m['row'].values, m['col'].values
    n_rows, n_cols = m.metadata['n_rows'], m.metadata['n_columns']
    im = ci.ax.images[0]
    covered = np.zeros((n_rows, n_cols), dtype=bool)
    covered[row, col] = True
    corners = name == 'checs'
    scale, history, v = Scale(), '', None
    for _ in range(int(rng.integers(2, 6))):
        what = str(rng.choice(['image', 'image', 'limits', 'reset', 'text',
                               'wrong']))
        if v is None and (what not in ('limits', 'reset')
                          or rng.random() < 0.5):
            what = 'image'
        history += what[0]
        if what == 'image':
            kind, v = next_image(rng, n, v)
            keep = v.copy()
            ci.image = v
            c.event('images')
            c.event('grids')
            c.equal(v, keep, 'image-changed')
        elif what == 'limits':
            scale.fixed = random_limits(rng)
            ci.set_limits_minmax(*scale.fixed)
        elif what == 'reset':
            scale.fixed = None
            ci.reset_limits()
        elif what == 'wrong':
            other = np.zeros(n + int(rng.choice([-1, 1])))
            c.event('refusals')

            def assign():
                ci.image = other
            c.raises(Exception, assign, 'wrong-size')
        else:
            i = int(rng.integers(n))
            ci.add_text_to_pixel(i, i)
            t = ci.ax.texts[-1]
            c.event('texts')
            c.check(tuple(t.get_position()) == (col[i], row[i])
                    and t.get_text() == str(i), 'grid-text',
                    (t.get_position(), row[i], col[i]))
        if v is None:
            continue
        arr = im.get_array()
        if not c.check(arr.shape == (n_rows, n_cols), 'grid-shape'):
            return
        got = np.ma.filled(np.ma.asarray(arr).astype(float), np.nan)
        c.event('masked', np.isnan(got).sum())
        fin = np.where(np.isfinite(np.asarray(v, float)), v, np.nan)
        c.close(got[row, col], fin, 'grid-values', 1e-9, 0, history)
        if corners:
            c.check(np.isnan(got[~covered]).all(), 'grid-corners')
        if covered.all() or corners:
            limits = scale.limits(v)
            if limits is not None:
                check_limits(c, im, limits)
    # Rows upwards, as in the camera
    y0, y1 = ci.ax.get_ylim()
    c.check(y0 < y1, 'grid-orientation', (y0, y1))
    c.note(layout=name, level=level, history=history)
    c.nontrivial(name, level, history)


@group(quick=6, thorough=40)
def constructors(c):
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    import target_calib
    from vlib import camera
    version, layout = [('1.1.0', 'checs'), ('9.2.0', 'quad'),
                       ('9.3.0', 'nine')][int(c.rng.integers(3))]
    single = bool(c.rng.random() < 0.3)
    df, _ = camera.layout_info('module' if single else layout)
    tc = target_calib.CameraConfiguration(version).GetMapping(single)
    v = c.rng.normal(0, 1, len(df))
    for ci in (CameraImage.from_tc_mapping(tc),
               CameraImage.from_camera_version(version, single)):
        ci.image = v
        c.event('images')
        base = ci.ax.collections[0]
        c.close(positions(base), df[['xpix', 'ypix']].values,
                'patch-position', 0, 1e-7)
        c.close(base.get_array(), v, 'patch-value', 1e-9)
    first = CameraImage.from_camera_version(version, single)
    first.image = v
    for other in (CameraImage.from_camera_version(version, single),
                  CameraImage.from_camera_version(version, not single),
                  CameraImage.from_tc_mapping(tc)):
        if c.check(other is not first, 'same-display'):
            other.image = np.full(other.n_pixels, 7.)
        c.close(first.ax.collections[0].get_array(), v,
                'shared-by-displays', 1e-9)
        if other is not first:
            c.check((np.asarray(other.ax.collections[0].get_array(), float)
                     == 7).all(), 'patch-value')
    for ci in (CameraImageImshow.from_tc_mapping(tc),
               CameraImageImshow.from_camera_version(version, single)):
        ci.image = v
        arr = np.ma.filled(ci.ax.images[0].get_array(), np.nan)
        c.event('grids')
        c.close(arr[df['row'], df['col']], v, 'grid-values', 1e-6)
    c.nontrivial(version, single)
