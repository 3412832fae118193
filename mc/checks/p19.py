"""spectral statistics"""
import math

import numpy as np

from mc.core import Check
from mc.spec import MASKS, big_cube, big_mask, cube, mask_as, mask_of, ref_cov, ref_mean
from mc.util import layout
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.utils import spectral_utils
from resippy.utils.image_utils import image_utils

CHECK = Check('P19', 'spectral statistics', [
    'cubes up to 7x6 pixels and 5 bands with position coded values; masks leave at least bands + 2 pixels',
    'plain python sums are the oracle (relative error 1e-9, 1e-4 for single precision)'])

SHAPES = [(5, 4, 3), (1, 9, 2), (8, 1, 4), (3, 7, 1), (7, 6, 5)]


@CHECK.scenario(bound=(3, 4))
def statistics(c):
    """mean, covariance and inverse of every mask and layout against sums by hand"""
    shape = c.choose('shape', SHAPES)
    mk = c.choose('mask', MASKS)
    dt = c.vary('dtype', ['float64', 'uint8', 'int16', 'uint16', 'float32', 'int64'])
    form = c.vary('mask form', ['bool', 'int', 'float', 'uint8', 'F'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    bad = c.vary('masked pixels', ['values', 'nan', 'huge'])
    off = c.vary('offset', [0, 1e6])
    ny, nx, nb = shape
    a = cube(shape, dt)
    if off and dt == 'float64':
        a = a + off
    m = mask_of(mk, *shape)
    if a.dtype.kind == 'f' and bad != 'values' and mk != 'none':
        a[m] = np.nan if bad == 'nan' else 1e30
    elif bad != 'values' and mk != 'none':
        a[m] = np.iinfo(a.dtype).max
    src = layout(a, lay)
    flat = a.reshape(-1, nb)
    given = None if mk == 'none' else mask_as(m, form)
    g1 = None if given is None else np.array(given).reshape(-1)
    keep = ~m.ravel() if mk != 'none' else np.ones(ny * nx, bool)
    mean, cov = ref_mean(flat, keep), ref_cov(flat, keep)
    tol = dict(rtol=1e-9, atol=1e-9 * (1 + off)) if dt != 'float32' else dict(rtol=1e-4, atol=1e-3)
    flat_src = c.op('flatten', spectral_utils.flatten_image_cube, src)
    c.same(flat_src, flat, 'flattened cube', dtype=dt)
    c.same(c.op('unflatten', spectral_utils.unflatten_image_cube, flat_src, nx, ny), a, 'cube restored', dtype=dt)
    c.require(spectral_utils.get_2d_cube_nx_ny_nbands(src) == (nx, ny, nb), 'cube size')
    c.require(spectral_utils.is_2d_cube(src) is True and spectral_utils.is_1d_cube(src) is False, 'kind of a cube')
    c.require(spectral_utils.is_2d_cube(flat) is False and spectral_utils.is_1d_cube(flat) is True, 'kind of a flattened cube')
    for what, mod, img, g in (('2d', s2, src, given), ('1d', s1, flat_src, g1)):
        args = () if g is None else (g,)
        c.same(c.op('mean', mod.compute_image_cube_spectral_mean, img, *args), mean, what + ' mean', **tol)
        d = c.op('demean', mod.demean_image_data, img, *args)
        w = flat.astype(float) - mean
        got = np.ma.getdata(d)
        c.same(got[~m] if what == '2d' else got[~m.ravel()], w.reshape(shape)[~m] if what == '2d' else w[~m.ravel()], what + ' demeaned pixels', **tol)
        c.require(got.shape == img.shape, '%s demeaned shape', what)
        if bad == 'values':
            c.same(got, w.reshape(img.shape), what + ' demeaned image', **tol)
        cv = c.op('covariance', mod.compute_image_cube_spectral_covariance, img, *args)
        c.same(cv, cov, what + ' covariance', rtol=max(tol['rtol'], 1e-8), atol=tol['atol'] * (1 + abs(cov).max() * (1e-3 if off else 1)))
    c.same(src, a, 'caller cube changed')
    if given is not None:
        c.same(given, mask_as(m, form), 'caller mask changed')


@CHECK.scenario(bound=(9, 9))
def flattening(c):
    """flattened position y * nx + x is pixel (y, x), for bands and cubes of every small size"""
    ny, nx, nb = [c.choose(k, [1, 2, 3, 5]) for k in ('ny', 'nx', 'nb')]
    lay = c.choose('layout', ['C', 'F', 'strided', 'reversed'])
    a = cube((ny, nx, nb))
    f = c.op('flatten', spectral_utils.flatten_image_cube, layout(a, lay))
    b = c.op('flatten band', image_utils.flatten_image_band, layout(a[:, :, 0], lay))
    c.require(f.shape == (ny * nx, nb) and b.shape == (ny * nx,), 'shapes %s %s', f.shape, b.shape)
    for y in range(ny):
        for x in range(nx):
            c.same(f[y * nx + x], a[y, x], 'sample of pixel %d, %d' % (y, x))
            c.require(b[y * nx + x] == a[y, x, 0], 'band sample of pixel %d, %d', y, x)
    c.same(c.op('unflatten', spectral_utils.unflatten_image_cube, f, nx, ny), a, 'cube')
    c.same(c.op('unflatten band', image_utils.unflatten_image_band, b, nx, ny), a[:, :, 0], 'band')
    c.require(image_utils.get_image_ny_nx_nbands(a) == (ny, nx, nb) and image_utils.get_image_ny_nx_nbands(a[:, :, 0]) == (ny, nx, 1), 'sizes')
    c.require(image_utils.is_grayscale(a[:, :, 0]) and not image_utils.is_grayscale(a), 'grayscale')
    px, py = c.op('grid', image_utils.create_pixel_grid, nx, ny)
    c.same(px, np.tile(np.arange(nx), (ny, 1)), 'pixel grid x')
    c.same(py, np.tile(np.arange(ny)[:, None], (1, nx)), 'pixel grid y')
    for dt in ('uint8', 'float32', 'int16'):
        vals = [7 * k + 1 for k in range(nb)]
        u = c.op('uniform', image_utils.create_uniform_image_data, nx, ny, nb, vals, np.dtype(dt).type)
        c.same(u, np.broadcast_to(np.array(vals), (ny, nx, nb)), 'uniform image of %s' % dt, dtype=dt)
        u = c.op('uniform', image_utils.create_uniform_image_data, nx, ny, nb, 9, np.dtype(dt).type)
        c.same(u, np.full((ny, nx, nb), 9), 'uniform image of %s' % dt, dtype=dt)
    for dt, big in (('int32', 16777217), ('float64', 0.1), ('uint32', 4294967295), ('int32', -2147483647)):
        vals = [big - 2 * k if dt != 'float64' else big / (k + 3) for k in range(nb)] if big > 0 else [big + 2 * k for k in range(nb)]
        u = c.op('uniform', image_utils.create_uniform_image_data, nx, ny, nb, vals, np.dtype(dt).type)
        c.same(u, np.broadcast_to(np.array(vals), (ny, nx, nb)), 'uniform image of %s' % dt, dtype=dt)


@CHECK.scenario(bound=(9, 9))
def every_mask(c):
    """all masks of a six pixel image that leave at least two pixels"""
    bits = [c.choose('pixel %d' % k, [0, 1]) for k in range(6)]
    shape = c.choose('shape', [(2, 3), (3, 2), (1, 6), (6, 1)])
    if sum(bits) > 4:
        return
    m = np.array(bits).reshape(shape)
    a = cube(shape + (2,), c.choose('dtype', ['float64', 'uint8', 'int16']))
    flat = a.reshape(-1, 2)
    keep = np.array(bits) == 0
    c.same(c.op('mean', s2.compute_image_cube_spectral_mean, a, m), ref_mean(flat, keep), 'masked mean', rtol=1e-12, atol=1e-9)
    cov = ref_cov(flat, keep)
    c.same(c.op('covariance', s2.compute_image_cube_spectral_covariance, a, m), cov, 'masked covariance', rtol=1e-9, atol=1e-12 * (1 + abs(cov).max()))
    c.same(c.op('mean', s1.compute_image_cube_spectral_mean, flat, m.ravel()), ref_mean(flat, keep), 'masked mean of samples', rtol=1e-12, atol=1e-9)
    c.same(c.op('demean', s1.demean_image_data, flat, m.ravel()), flat - ref_mean(flat, keep), 'demeaned samples', rtol=1e-12, atol=1e-9)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """statistics of images of tens of thousands of pixels"""
    shape = c.choose('shape', [(300, 257, 3), (1, 70001, 2), (1100, 4, 5), (33, 32, 12)])
    mk = c.choose('mask', ['none', 'scattered', 'half', 'columns'])
    dt = c.choose('dtype', ['float64', 'uint8', 'int16', 'float32'])
    a = big_cube(shape, dt)
    m = big_mask(mk, shape)
    src = a.copy()
    flat = a.reshape(-1, shape[2])
    f = flat.astype(float)[~m.ravel()]
    mean = np.array([math.fsum(f[:, b]) / len(f) for b in range(shape[2])])
    d = f - mean
    cov = np.array([[math.fsum(d[:, i] * d[:, j]) / (len(f) - 1) for j in range(shape[2])] for i in range(shape[2])])
    tol = dict(rtol=1e-8, atol=1e-7) if dt != 'float32' else dict(rtol=2e-3, atol=2e-1)
    for what, mod, img, g in (('2d', s2, src, m), ('1d', s1, src.reshape(-1, shape[2]), m.ravel())):
        args = () if mk == 'none' else (g,)
        c.same(c.op('mean', mod.compute_image_cube_spectral_mean, img, *args), mean, what + ' mean', **tol)
        c.same(c.op('covariance', mod.compute_image_cube_spectral_covariance, img, *args), cov, what + ' covariance', **tol)
        got = np.ma.getdata(c.op('demean', mod.demean_image_data, img, *args))
        c.same(got, (flat.astype(float) - mean).reshape(img.shape), what + ' demeaned', **tol)
    c.same(c.op('flatten', spectral_utils.flatten_image_cube, src), flat, 'flattened cube', dtype=dt)
    c.same(c.op('unflatten', spectral_utils.unflatten_image_cube, flat.copy(), shape[1], shape[0]), a, 'cube restored', dtype=dt)
    c.same(src, a, 'caller cube changed')
