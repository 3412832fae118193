"""rational polynomial camera model"""
import math
import os

import gdal
import numpy as np

from mc import zoo
from mc.core import Check
from mc.util import pattern
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.image_factory import ImageFactory

CHECK = Check('P08', 'RPC model', [
    'every one of the 80 coefficients isolated in turn, plus 4 dense coefficient sets; GDAL 3.8 RPC transformer as second oracle'])

PTS = [(0.0, 0.0, 0.0), (0.6, -0.7, 0.8), (-0.9, 0.4, -0.5), (1.0, 1.0, 1.0), (-0.3, -0.8, 0.2)]
# the polynomials also hold beyond the range they were fitted in
FAR = [(1.4, -1.3, 0.3), (0.2, 0.3, 1.75), (-0.4, 0.1, -2.2), (-1.6, 0.5, 1.2)]


def at(s, pts):
    return [(s['lon_off'] + a * s['lon_scale'], s['lat_off'] + b * s['lat_scale'], s['h_off'] + h * s['h_scale']) for a, b, h in pts]


def compare(c, calc, s, pts, what, tol=1e-7):
    lo, la, al = [np.array([p[k] for p in pts]) for k in range(3)]
    x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al)
    w = np.array([zoo.ref_rpc(s, *p) for p in pts])
    c.same(x, w[:, 0], what + ': sample', atol=tol, rtol=1e-10)
    c.same(y, w[:, 1], what + ': line', atol=tol, rtol=1e-10)
    x0, y0 = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, float(lo[1]), float(la[1]), float(al[1]))
    c.same([x0, y0], w[1], what + ': one point', atol=tol, rtol=1e-10)


@CHECK.scenario(bound=(9, 9))
def each_coefficient(c):
    """one coefficient at a time: each must multiply exactly its monomial in exactly its polynomial"""
    poly = c.choose('polynomial', ['sn', 'sd', 'ln', 'ld'])
    i = c.choose('index', list(range(20)))
    v = c.choose('value', [0.25, -0.1])
    s = zoo.rpc_params()
    s.update(sn=[0.0, 1.0] + [0.0] * 18, sd=[1.0] + [0.0] * 19, ln=[0.0, 0.0, -1.0] + [0.0] * 17, ld=[1.0] + [0.0] * 19)
    s[poly][i] += v
    calc = zoo.rpc_calc(s)
    compare(c, calc, s, at(s, PTS), '%s[%d]' % (poly, i))
    compare(c, calc, s, at(s, FAR), '%s[%d], beyond the fitted range' % (poly, i), tol=1e-5)


@CHECK.scenario(bound=(2, 3))
def dense(c):
    """all coefficients together against a plain evaluation of the polynomials"""
    s = zoo.rpc_params(c.choose('set', [0, 1, 2, 3]))
    for k in ('sn', 'sd', 'ln', 'ld'):
        # coefficients of as many digits as a double has
        s[k] = [v * (1 + 1e-3 * math.sin(i)) for i, v in enumerate(s[k])]
    near = c.vary('denominators', ['independent', 'nearly equal', 'equal', 'nearly equal numerators'])
    if near in ('nearly equal', 'equal'):
        s['ld'] = [v + (2e-5 * (i % 3) if near != 'equal' and i else 0) for i, v in enumerate(s['sd'])]
    elif near == 'nearly equal numerators':
        s['ln'] = [v + 3e-5 * (i % 4) for i, v in enumerate(s['ln'])]
        s['ln'][7] += 1e-4
    s['lat_off'] = c.vary('lat_off', [39.05123456789, -33.2, 0.01])
    s['lon_off'] = c.vary('lon_off', [-77.07123456789, 151.3, 0.02, 179.99, -180.0])
    s['h_off'] = c.vary('h_off', [210.12345678, -12.5, 4000.0])
    s['lat_scale'] = c.vary('lat_scale', [0.08123456789, 0.3])
    s['lon_scale'] = c.vary('lon_scale', [0.11432123456, 0.05])
    s['h_scale'] = c.vary('h_scale', [350.12345678, 500.0, 20.0])
    s['s_scale'] = c.vary('samp_scale', [8192.12345678, 3000.5])
    s['l_scale'] = c.vary('line_scale', [7000.12345678, 12000.25])
    s['s_off'] = c.vary('samp_off', [8190.51234567, 0.0, -17.25])
    s['l_off'] = c.vary('line_off', [6999.25123456, 10.0])
    calc = zoo.rpc_calc(s)
    pts = at(s, PTS)
    compare(c, calc, s, pts, 'dense')
    compare(c, calc, s, at(s, FAR), 'dense, beyond the fitted range', tol=1e-5)
    c.same(calc.get_approximate_lon_lat_center(), (s['lon_off'], s['lat_off']), 'approximate centre')
    # the same coefficients through GDAL's own transformer and through a file
    how = c.choose('source', ['direct', 'file', 'viewready'])
    if how != 'direct':
        f = os.path.join(c.dir(), 'rpc.tif')
        ds = gdal.GetDriverByName('GTiff').Create(f, 9, 5, 2, gdal.GDT_UInt16)
        a = pattern((5, 9, 2), 'uint16')
        for b in range(2):
            ds.GetRasterBand(b + 1).WriteArray(np.ascontiguousarray(a[:, :, b]))
            ds.GetRasterBand(b + 1).SetNoDataValue(3)
        ds.SetMetadata(zoo.rpc_gdal_metadata(s), 'RPC')
        ds = None
        if how == 'file':
            calc = c.op('from file', RPCPointCalc.init_from_file, f)
        else:
            im = c.op('from file', ImageFactory.digital_globe.view_ready_stereo.from_file, f)
            calc = im.get_point_calculator()
            c.same(c.op('read', im.read_all_image_data_from_disk), a, 'pixels', dtype='uint16')
            for b in range(2):
                c.same(c.op('read', im.read_band_from_disk, b), a[:, :, b], 'band %d' % b)
            md = im.get_metadata()
            c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands(), md.get_nodata_val()) == (9, 5, 2, 3.0), 'metadata')
        compare(c, calc, s, pts, how, tol=1e-5)
        c.same(calc.get_approximate_lon_lat_center(), (s['lon_off'], s['lat_off']), 'approximate centre', atol=1e-9)
        tr = gdal.Transformer(gdal.Open(f), None, ['METHOD=RPC'])
        lo, la, al = [np.array([p[k] for p in pts]) for k in range(3)]
        x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al)
        for k, p in enumerate(pts):
            ok, q = tr.TransformPoint(1, *p)
            c.same([x[k], y[k]], q[:2], 'agreement with GDAL', atol=1e-4)
    c.require(calc.get_projection().crs.is_geographic, 'native coordinates are geographic')
    px = np.array([v[0] for v in [zoo.ref_rpc(s, *p) for p in pts[:3]]])
    py = np.array([v[1] for v in [zoo.ref_rpc(s, *p) for p in pts[:3]]])
    lo, la = c.op('to ground', calc.pixel_x_y_alt_to_lon_lat, px, py, np.array([p[2] for p in pts[:3]]), pixel_error_threshold=1e-4)
    back = np.array([zoo.ref_rpc(s, lo[k], la[k], pts[k][2]) for k in range(3)])
    c.same(back[:, 0], px, 'inverse sample', atol=2e-4)
    c.same(back[:, 1], py, 'inverse line', atol=2e-4)
