"""Reads the files written by vlib.files.write_simtel"""
from types import SimpleNamespace as NS

import numpy as np
from astropy import units as u

from ctapipe.instrument import CameraGeometry

MCHEADER = [
    ('corsika_version', 0), ('simtel_version', 0), ('energy_range_min', 1),
    ('energy_range_max', 1), ('prod_site_B_total', 1),
    ('prod_site_B_declination', 1), ('prod_site_B_inclination', 1),
    ('prod_site_alt', 1), ('spectral_index', 0), ('shower_prog_start', 0),
    ('shower_prog_id', 0), ('detector_prog_start', 0),
    ('detector_prog_id', 0), ('num_showers', 0), ('shower_reuse', 0),
    ('max_alt', 1), ('min_alt', 1), ('max_az', 1), ('min_az', 1),
    ('diffuse', 0), ('max_viewcone_radius', 1), ('min_viewcone_radius', 1),
    ('max_scatter_range', 1), ('min_scatter_range', 1), ('core_pos_mode', 0),
    ('injection_height', 1), ('atmosphere', 0), ('corsika_iact_options', 0),
    ('corsika_low_E_model', 0), ('corsika_high_E_model', 0),
    ('corsika_bunchsize', 0), ('corsika_wlen_min', 1),
    ('corsika_wlen_max', 1), ('corsika_low_E_detail', 0),
    ('corsika_high_E_detail', 0),
]
MC = ['energy', 'alt', 'az', 'core_x', 'core_y', 'h_first_int', 'x_max']
POINTING = ['azimuth_raw', 'altitude_raw', 'azimuth_cor', 'altitude_cor']
OPEN = []  # sources opened, in order


class SimTelEventSource:
    def __init__(self, input_url, max_events=None, back_seekable=False):
        from vlib.files import read_simtel
        self.input_url = input_url
        self.max_events = max_events
        self.back_seekable = back_seekable
        self._d = read_simtel(input_url)
        n = self._d['waveforms'].shape[0]
        self.n_events = n if not max_events else min(n, max_events)
        # One container is reused for all events, as in ctapipe
        self._data = NS()
        self.current = -1
        OPEN.append(self)

    def event(self, i):
        d = self._d
        tel = int(d['tel'])
        e = self._data
        self.current = i
        e.count = i
        e.trig = NS(gps_time=NS(value=float(d['gps'][i])))
        e.r0 = NS(
            obs_id=int(d['obs_id']), tels_with_data={tel},
            tel={tel: NS(waveform=d['waveforms'][i][None])},
        )
        e.r1 = NS(tel={tel: NS(waveform=d['waveforms'][i].copy())})
        e.mc = NS(
            shower_primary_id=int(d['primary'][i]),
            tel={tel: NS(
                photo_electron_image=d['mc_true'][i].copy(),
                **{k: float(d[k][i]) for k in POINTING})},
            **{k: u.Quantity(float(d[k][i])) for k in MC},
        )
        header = d['header']
        e.mcheader = NS(**{
            k: (u.Quantity(float(v)) if q else float(v))
            for (k, q), v in zip(MCHEADER, header)})
        x, y = d['cam_x'], d['cam_y']
        geom = CameraGeometry(
            'CHEC', np.arange(x.size), x * u.m, y * u.m, None, 'rectangular')
        e.inst = NS(subarray=NS(tel={tel: NS(camera=geom)}))
        return e


class EventSeeker:
    def __init__(self, source):
        self._source = source

    def __getitem__(self, i):
        if not 0 <= i < self._source.n_events:
            raise IndexError('event {} not found'.format(i))
        return self._source.event(i)

    def __iter__(self):
        for i in range(self._source.n_events):
            yield self._source.event(i)

    def __len__(self):
        return self._source.n_events
