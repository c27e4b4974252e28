"""C25: superpixel, module and grid views agree with the pixel mapping"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Camera layouts of every size and shape (single module to full camera,
missing corners, modules missing, more rows than columns and the reverse), with random scales, offsets, gaps and pixel orders,
are given to the real mapping functions; the derived tables are compared with
the generating layout, the pixel mapping is hashed before and after. Distinct
by layout, scale, gap and order."""
ASSUMPTIONS = ["the layout has a complete row and a complete column"]
REQUIRE = ['superpixels', 'modules', 'grids', 'metadata_entries',
           'geometries']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.utils.mapping  # noqa


def random_layout(c, permute=False, name=None):
    from vlib import camera
    name = name or str(c.rng.choice(
        list(camera.LAYOUTS) + ['any'], p=[.07, .18, .2, .13, .12, .3]))
    if name == 'any':
        slots = camera.random_slots(c.rng)
    else:
        slots = camera.LAYOUTS[name]['slots']
    size = float(c.rng.choice([1, 0.006125, 6.125e-6, c.rng.uniform(.1, 9)]))
    gap = float(c.rng.choice([0, 0.2, c.rng.uniform(0, 0.6)])) * size
    df = camera.pixel_table(slots, size, gap)
    df['xpix'] += c.rng.normal(0, 10) * size
    df['ypix'] += c.rng.normal(0, 10) * size
    _, meta = camera.layout_info(name, slots)
    meta['size'] = size
    if permute:
        df = df.iloc[c.rng.permutation(len(df))].reset_index(drop=True)
    if name == 'any':
        name = 'any{}'.format(len(slots))
    c.note(layout=name, slots=slots, size=size, gap=gap, permuted=permute)
    return name, camera.with_metadata(df, meta), gap / size


def fingerprint(df):
    return (df.to_numpy().tobytes(), tuple(df.columns), repr(sorted(
        df.metadata.items())))


@group(quick=60, thorough=2000)
def derived(c):
    from CHECLabPy.utils.mapping import get_superpixel_mapping, \
        get_tm_mapping
    name, m, gap = random_layout(c, permute=c.rng.random() < 0.3)
    before = fingerprint(m)
    scale = np.abs(m[['xpix', 'ypix']].values).max()
    for what, func, key, div, extra in (
            ('superpixels', get_superpixel_mapping, 'superpixel', 2,
             ['slot', 'asic']),
            ('modules', get_tm_mapping, 'slot', 8, [])):
        d = func(m)
        ids = np.unique(m[key].values)
        c.event(what, len(ids))
        if not c.equal(np.asarray(d[key]), ids, what + '-entries'):
            continue
        for i, row in enumerate(d.itertuples()):
            own = m[m[key].values == ids[i]]
            for k in ('xpix', 'ypix'):
                c.close(getattr(row, k), own[k].mean(), what + '-position',
                        1e-9, 1e-9 * scale, (what, ids[i], k))
            for k in ('row', 'col'):
                want = np.unique(own[k].values // div)
                c.check(len(want) == 1 and getattr(row, k) == want[0],
                        what + '-grid', (what, ids[i], k, getattr(row, k),
                                         want))
            for k in extra:
                c.check(getattr(row, k) == own[k].values[0],
                        what + '-membership', (what, ids[i], k))
            if len(c.violations) > 5:
                return
        meta = d.metadata
        c.check(meta['n_rows'] == (m['row'].max() + 1) // div
                and meta['n_columns'] == (m['col'].max() + 1) // div,
                what + '-dimensions', (meta['n_rows'], meta['n_columns']))
        c.close(meta['size'], m.metadata['size'] * div, what + '-size')
        for k, v in m.metadata.items():
            c.event('metadata_entries')
            if k not in ('n_rows', 'n_columns', 'size'):
                c.check(meta.get(k) == v, what + '-metadata', k)
        d['xpix'] += 1  # the derived mapping is the caller's
        d.metadata['size'] = -1
        c.check(fingerprint(m) == before, what + '-input-changed')
    c.nontrivial(name, round(gap, 3))


@group(quick=120, thorough=6000)
def grid(c):
    """Row and column of pixels from their positions alone"""
    from CHECLabPy.utils.mapping import get_row_column
    name, m, gap = random_layout(c, permute=True)
    x, y = m['xpix'].values.copy(), m['ypix'].values.copy()
    if c.rng.random() < 0.3:  # readout rounding
        eps = m.metadata['size'] * 1e-4
        x += c.rng.uniform(-eps, eps, len(x))
        y += c.rng.uniform(-eps, eps, len(y))
    row, col = m['row'].values, m['col'].values
    if c.rng.random() < 0.25:  # pixels that are not square
        f = c.rng.choice([c.rng.uniform(1, 4), 2, 3])
        if c.rng.random() < 0.5:
            x *= f
        else:
            y *= f
    flip = int(c.rng.integers(4))
    if flip & 1:
        x, col = -x, col.max() - col
    if flip & 2:
        y, row = -y, row.max() - row
    keep = x.tobytes() + y.tobytes()
    got_row, got_col = get_row_column(x, y)
    c.event('grids', len(x))
    c.equal(np.asarray(got_row), row, 'row', name)
    c.equal(np.asarray(got_col), col, 'column', name)
    c.check(x.tobytes() + y.tobytes() == keep, 'grid-input-changed')
    c.nontrivial(name, round(gap, 3), flip, x[0])


@group(quick=8, thorough=60)
def definitions(c):
    """From and to the camera definition"""
    from CHECLabPy.utils import mapping as m
    from target_calib import CameraConfiguration
    from vlib import camera
    version = str(c.rng.choice(['1.1.0', '1.0.1', '9.2.0', '9.3.0',
                                '9.4.0']))
    single = bool(c.rng.random() < 0.3)
    tc = CameraConfiguration(version).GetMapping(single)
    # distinct values for every quantity, so that none can be mixed up
    values = {}
    for i, k in enumerate(['fOTUpRow_l', 'fOTUpRow_u', 'fOTUpCol_l',
                           'fOTUpCol_u', 'fOTUpX_l', 'fOTUpX_u', 'fOTUpY_l',
                           'fOTUpY_u']):
        values[k] = round(float(c.rng.uniform(i, i + 0.9)), 4)
        setattr(tc, k, values[k])
    getters = dict(cfgfile='GetCfgPath', is_single_module='IsSingleModule',
                   n_pixels='GetNPixels', n_modules='GetNModules',
                   n_tmpix='GetNTMPix', n_superpixels='GetNSuperPixels',
                   n_rows='GetNRows', n_columns='GetNColumns', size='GetSize')
    for i, (k, g) in enumerate(getters.items()):
        if k in ('cfgfile', 'is_single_module'):
            values[k] = getattr(tc, g)()
            continue
        values[k] = 1000 * (i + 1) + int(c.rng.integers(0, 900))
        setattr(tc, g, lambda v=values[k]: v)
    df = m.get_clp_mapping_from_tc_mapping(tc)
    want = tc.as_dataframe()
    c.check(df.equals(want), 'definition-table')
    for k, v in values.items():
        c.event('metadata_entries')
        c.check(k in df.metadata and df.metadata[k] == v,
                'definition-metadata', (k, df.metadata.get(k), v))
    df = m.get_clp_mapping_from_version(version, single)
    c.check(df.equals(want) and df.metadata['is_single_module'] == single,
            'definition-version')
    back = m.get_tc_mapping_from_clp_mapping(df)
    c.check(back.GetCfgPath() == df.metadata['cfgfile']
            and back.IsSingleModule() == single
            and back.as_dataframe().equals(want), 'definition-back')
    c.check(m.get_ref_path_from_version(version)
            == CameraConfiguration(version).GetReferencePulsePath(),
            'reference-pulse')
    geom = m.get_ctapipe_camera_geometry(df)
    c.event('geometries')
    c.close(geom.pix_x.to_value('m'), df['xpix'].values, 'geometry-x', 1e-9)
    c.close(geom.pix_y.to_value('m'), df['ypix'].values, 'geometry-y', 1e-9)
    c.equal(np.asarray(geom.pix_id), np.arange(len(df)), 'geometry-id')
    nbr = camera.neighbours(df)
    c.equal(geom.neighbor_matrix, nbr, 'geometry-neighbours')
    c.nontrivial(version, single)
