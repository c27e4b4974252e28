"""Camera layouts used by the stand-in TARGET libraries and the checks.

The layouts are stated here independently of /repo: 8x8-pixel modules on a
square grid with gaps between modules, superpixels of 2x2 pixels, missing
corners for the full camera.
"""
import warnings

import numpy as np
import pandas as pd

SIZE = 0.006125  # pixel pitch, m
GAP = 0.00126  # additional gap between modules, m


def module_slots(n_side, corners):
    """(row, col) of each module in slot order"""
    last = n_side - 1
    return [(r, c) for r in range(n_side) for c in range(n_side)
            if corners or not (r in (0, last) and c in (0, last))]


def pixel_table(slots, size=SIZE, gap=GAP):
    recs = []
    pixel = 0
    for slot, (tr, tc) in enumerate(slots):
        for tmpix in range(64):
            isp, ip = divmod(tmpix, 4)
            sr, sc = divmod(isp, 4)
            pr, pc = divmod(ip, 2)
            row = tr * 8 + sr * 2 + pr
            col = tc * 8 + sc * 2 + pc
            recs.append(dict(
                pixel=pixel, slot=slot, asic=isp // 4, channel=tmpix % 16,
                tmpix=tmpix, row=row, col=col, superpixel=pixel // 4,
                xpix=col * size + tc * gap, ypix=row * size + tr * gap,
            ))
            pixel += 1
    df = pd.DataFrame(recs)
    for c in ('xpix', 'ypix'):
        df[c] -= 0.5 * (df[c].max() + df[c].min())
    return df


LAYOUTS = {
    'checs': dict(slots=module_slots(6, False), single=False),
    'module': dict(slots=[(0, 0)], single=True),
    'quad': dict(slots=module_slots(2, True), single=False),
    'nine': dict(slots=module_slots(3, True), single=False),
    'cross': dict(slots=module_slots(4, False), single=False),
}


def random_slots(rng, largest=5):
    """Any arrangement of modules with a complete row and column"""
    n_rows, n_cols = (int(n) for n in rng.integers(1, largest + 1, 2))
    row, col = int(rng.integers(n_rows)), int(rng.integers(n_cols))
    share = rng.choice([0.3, 0.7, 1, 1])
    slots = [(r, c) for r in range(n_rows) for c in range(n_cols)
             if r == row or c == col or rng.random() < share]
    if rng.random() < 0.3:
        slots = [slots[i] for i in rng.permutation(len(slots))]
    return slots


def layout_info(name, slots=None):
    if slots is None:
        slots = LAYOUTS[name]['slots']
    df = pixel_table(slots)
    return df, dict(
        cfgfile='/cfg/{}.cfg'.format(name),
        is_single_module=len(slots) == 1,
        n_pixels=len(df), n_modules=len(slots), n_tmpix=64,
        n_superpixels=len(df) // 4,
        n_rows=int(df['row'].max() + 1), n_columns=int(df['col'].max() + 1),
        size=SIZE,
        fOTUpRow_l=0, fOTUpRow_u=5, fOTUpCol_l=3, fOTUpCol_u=4,
        fOTUpX_l=-0.151, fOTUpX_u=-0.152, fOTUpY_l=0.053, fOTUpY_u=0.064,
    )


def mapping_of(name, slots=None):
    """A CHECLabPy mapping dataframe with its metadata"""
    df, meta = layout_info(name, slots)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df.metadata = meta
    return df


def with_metadata(df, meta):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df.metadata = meta
    return df


def neighbours(df):
    """Boolean matrix of edge neighbours (across module gaps too)"""
    r, c = df['row'].values, df['col'].values
    d = np.abs(r[:, None] - r[None]) + np.abs(c[:, None] - c[None])
    return d == 1
