"""spectrum objects and resampling"""
import math

import numpy as np

from mc.core import Check
from mc.util import layout
from resippy.spectral.spectrum import Spectrum
from resippy.utils.units import ureg, unit_constants

CHECK = Check('P23', 'spectra', [
    'spectra of 1 to 40 samples, up to 4 responses; resampling is compared to a response weighted mean by trapezoids written in plain python'])


def values(n, dt, nod, miss):
    v = np.array([((k * 37) % 89) / 8.0 + 1 for k in range(n)])
    v = v.astype(dt)
    if dt == 'int64':
        v = v * 50000017 + 16777217
    if nod is not None and not (isinstance(nod, float) and math.isnan(nod)):
        for k in range(n):
            if (miss == 'first' and k == 0) or (miss == 'some' and k % 3 == 1) or miss == 'all':
                v[k] = nod
            elif miss == 'near' and k % 2 == 1 and v.dtype.kind == 'f':
                # not the no-data value, only close to it
                v[k] = nod * (1 + (2e-6 if dt == 'float32' else 1e-12)) if nod else 1e-12
    return v


@CHECK.scenario(bound=(9, 9))
def access(c):
    """values, wavelengths and widths are what was set; no-data values come out as NaN on a copy"""
    dt = c.choose('dtype', ['float64', 'float32', 'int16', 'uint8', 'int64'])
    nod = c.choose('no-data', [None, 0, -9999.0, -1.23e34, float('nan'), 7])
    miss = c.choose('missing', ['none', 'first', 'some', 'all', 'near'])
    n = c.choose('samples', [6, 1])
    units = c.choose('units', ['none', 'pint'])
    if nod in (-9999.0, -1.23e34) and dt in ('uint8',) or (nod == -1.23e34 and dt != 'float64'):
        return
    v = values(n, dt, nod, miss)
    w = np.linspace(400, 410, n)
    fw = np.linspace(2, 3, n)
    s = Spectrum()
    for step in c.choose('order', [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2)]):
        (lambda: s.set_spectral_data(v), lambda: s.set_wavelengths(w), lambda: s.set_fwhm(fw), lambda: s.set_nodata_val(nod))[step]()
    kw = {}
    if units == 'pint':
        s.set_wavelength_units(ureg.nanometer)
        s.set_spectrum_units(unit_constants.flick)
        kw['with_units'] = True
    keep = v.copy()
    mag = lambda q, u: q if units == 'none' else q.to(u).magnitude
    want = np.array([float('nan') if (nod is not None and x == nod) else float(x) for x in v])
    for _ in range(2):
        got = c.op('values', s.get_spectral_data, **kw)
        c.same(np.asarray(mag(got, unit_constants.flick), dtype=float), want, 'values', rtol=1e-12)
        c.same(np.asarray(mag(s.get_spectral_data(nodata_to_nan=False, **kw), unit_constants.flick)), keep, 'values with no-data', rtol=1e-12)
        c.same(v, keep, 'spectrum changed')
        c.same(mag(s.get_wavelengths(**kw), 'nanometer'), w, 'wavelengths', rtol=1e-12)
        c.same(mag(s.get_fwhm(**kw), 'nanometer'), fw, 'fwhm', rtol=1e-12)
        if units == 'none':
            got[...] = 0
            raw = s.get_spectral_data(nodata_to_nan=False)
            raw[...] = 0
            c.same(s.get_spectral_data(nodata_to_nan=False), keep, 'the spectrum shares memory with values given out')
    if units == 'pint':
        c.same(s.get_wavelengths(with_units=True).to('micrometer').magnitude, w / 1000, 'wavelengths in micrometers', rtol=1e-12)
    c.require(s.get_nodata_val() is nod or s.get_nodata_val() == nod or (nod != nod and s.get_nodata_val() != s.get_nodata_val()), 'no-data value')


def interp(x, xs, ys):
    if x < xs[0] or x > xs[-1]:
        return 0.0
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
    return ys[-1]


def trapz(y, x):
    return math.fsum((y[k] + y[k + 1]) / 2 * (x[k + 1] - x[k]) for k in range(len(x) - 1))


@CHECK.scenario(bound=(2, 3))
def resample(c):
    """spectra sampled with sensor responses against the weighted sum by hand"""
    nw = c.choose('spectrum samples', [9, 40, 3])
    spacing = c.choose('spacing', ['even', 'uneven'])
    sets = c.choose('responses', ['box', 'triangle', 'gauss', 'mixed', 'coarse', 'partly outside', 'finer'])
    data = c.choose('data', ['ramp', 'constant', 'bumpy', 'integers'])
    lay = c.vary('layout', ['C', 'strided', 'reversed'])
    scale = c.vary('response scale', [1.0, 0.25, 100.0])
    units = c.vary('units', [None, 'reflectance', unit_constants.flick])
    w = np.linspace(400, 480, nw)
    if spacing == 'uneven':
        w = 400 + 80 * np.linspace(0, 1, nw) ** 1.7
    v = {'ramp': 0.1 + 0.01 * (w - 400), 'constant': np.full(nw, 0.37), 'bumpy': 0.5 + 0.3 * np.sin(w / 5.0),
         'integers': np.array([(k * 13) % 50 for k in range(nw)])}[data]
    resp = []
    grid = np.linspace(395, 485, 181)
    tri = lambda a, b, d: (np.array([a, b, d]), np.array([0.0, 1.0, 0.0]))
    gauss = lambda m, f: (grid, np.exp(-4 * math.log(2) * ((grid - m) / f) ** 2))
    if sets == 'box':
        resp = [(np.array([400.0, 440.0]), np.array([1.0, 1.0])), (np.array([435.0, 480.0]), np.array([0.5, 0.5]))]
    elif sets == 'triangle':
        resp = [tri(400, 420, 440), tri(420, 445, 480)]
    elif sets == 'gauss':
        resp = [gauss(m, 20.0) for m in (410, 430, 450, 470)]
    elif sets == 'mixed':
        resp = [tri(400, 440, 480), gauss(430, 15.0), (np.array([410, 470]), np.array([1, 3]))]
    elif sets == 'coarse':
        resp = [(np.array([400.0, 480.0]), np.array([0.0, 1.0]))]
    elif sets == 'partly outside':
        resp = [tri(350, 400, 450), tri(430, 480, 530)]
    else:
        resp = [(np.linspace(400, 480, 1601), np.abs(np.cos(np.linspace(400, 480, 1601) / 9.0)))]
    # responses that no sample of the spectrum sees are not claimed
    resp = [(rw, rv * scale) for rw, rv in resp if trapz([interp(x, rw, rv * 1.0) for x in w], w) > 1e-9]
    if not resp:
        return
    s = Spectrum()
    s.set_wavelengths(layout(w, lay))
    s.set_spectral_data(layout(v, lay))
    s.set_spectrum_units(units)
    rs = []
    for rw, rv in resp:
        q = Spectrum()
        q.set_wavelengths(rw)
        q.set_spectral_data(rv)
        rs.append(q)
    centres = np.array([410.0 + 10 * k for k in range(len(rs))])
    got = c.op('resample', s.resample_spectrum_direct, rs, centres)
    want = []
    for rw, rv in resp:
        k = [interp(x, rw, rv) for x in w]
        want.append(trapz([a * float(b) for a, b in zip(k, v)], w) / trapz(k, w))
    c.same(got.get_spectral_data(), np.array(want), 'resampled values', rtol=1e-10, atol=1e-12)
    if data == 'constant':
        c.same(got.get_spectral_data(), np.full(len(rs), 0.37), 'a flat spectrum stays flat', rtol=1e-12)
    c.same(got.get_wavelengths(), centres, 'band centres')
    c.require(got.get_spectrum_units() == units, 'units of the result')
    c.same(s.get_wavelengths(), w, 'spectrum changed')
    c.same(s.get_spectral_data(), v, 'spectrum changed')
    for q, (rw, rv) in zip(rs, resp):
        c.same(q.get_spectral_data(), rv, 'response changed')
    # each band alone gives the same
    for k, q in enumerate(rs):
        one = c.op('resample one', s.resample_spectrum_direct, [q], centres[k:k + 1])
        c.same(one.get_spectral_data(), np.array(want[k:k + 1]), 'band %d alone' % k, rtol=1e-10, atol=1e-12)


@CHECK.scenario(bound=(9, 9))
def resample_unknown(c):
    """samples without data never turn into values: a flat spectrum with gaps resamples to its level or to NaN"""
    nw = c.choose('spectrum samples', [9, 40])
    gap = c.choose('gap', [[0], [4], [2, 3, 5], [-1], [0, -1]])
    form = c.choose('unknown as', ['no-data', 'NaN'])
    nod = c.choose('no-data value', [-9999.0, 0.0])
    w = np.linspace(400, 480, nw)
    v = np.full(nw, 0.37)
    v[gap] = nod if form == 'no-data' else np.nan
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(v)
    s.set_nodata_val(nod)
    rs = []
    for a, b, d in ((400.0, 420.0, 450.0), (395.0, 401.0, 440.0), (420.0, 470.0, 480.0), (390.0, 440.0, 490.0)):
        q = Spectrum()
        q.set_wavelengths(np.array([a, b, d]))
        q.set_spectral_data(np.array([0.0, 1.0, 0.0]))
        rs.append(q)
    got = c.op('resample', s.resample_spectrum_direct, rs, np.array([420.0, 401.0, 470.0, 440.0])).get_spectral_data()
    got = np.asarray(got, dtype=float)
    c.require(got.shape == (4,) and np.all(np.isnan(got) | (abs(got - 0.37) < 1e-9)), 'resampled to %s', got)


@CHECK.scenario(bound=(9, 9))
def long_spectra(c):
    """spectra of thousands of samples and hundreds of bands"""
    nw = c.choose('samples', [1031, 4100, 70001])
    nb = c.choose('bands', [3, 270])
    width = c.choose('width', [5.0, 60.0])
    w = 400 + 2100 * np.linspace(0, 1, nw) ** 1.1
    v = 0.5 + 0.3 * np.sin(w / 50.0) + 0.05 * np.cos(w / 3.0)
    cen = np.linspace(450, 2450, nb)
    grid = np.linspace(-1, 1, 41)
    if nw < 4000 and width < 10:
        return
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(v)
    rs, want = [], []
    for m in cen:
        q = Spectrum()
        rw, rv = m + grid * width, np.exp(-4 * grid ** 2)
        q.set_wavelengths(rw)
        q.set_spectral_data(rv)
        rs.append(q)
        k = np.interp(w, rw, rv, left=0.0, right=0.0)
        h = lambda y: float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(w)))
        want.append(h(k * v) / h(k))
    got = c.op('resample', s.resample_spectrum_direct, rs, cen)
    c.same(got.get_spectral_data(), np.array(want), 'resampled values', rtol=1e-9)
    c.same(got.get_wavelengths(), cen, 'band centres')
    c.same(s.get_spectral_data(), v, 'spectrum changed')
    nod = v.copy()
    nod[::7] = -9999.0
    s = Spectrum()
    s.set_spectral_data(nod)
    s.set_nodata_val(-9999.0)
    c.same(s.get_spectral_data(), np.where(nod == -9999.0, np.nan, nod), 'values')
