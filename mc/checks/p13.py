"""content of orthorectified images"""
import math
import os

import numpy as np
from pyproj import Geod, Proj, Transformer
from shapely.geometry import Polygon, box

from mc import zoo
from mc.core import Check
from mc.util import PROJS, layout, pattern, proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
    IdealPinholeFpaLocalUtmPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import \
    EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
import gdal

CHECK = Check('P13', 'orthorectified images', [
    'cameras: geotiff, two pinhole cameras, RPC, IGM, three cameras with one band each; images of 44x52 pixels, ortho grids of up to 23x29',
    'pixels within one pixel of the image border (two on the right and bottom) may be image or no-data; nearest neighbour ties may go either way'])

X0, Y0 = 500321.0, 4423117.0
NX, NY, NB = 52, 44, 3
SENSORS = ['pinhole', 'geotiff', 'rpc', 'model', 'pinhole2', 'igm']


def pin(om, ph, ka, flip, z=300.0):
    s = dict(X=X0, Y=Y0, Z=z, omega=om, phi=ph, kappa=ka, f=0.0123, nx=NX, ny=NY, px=7.5e-5, py=6.25e-5, flip_x=False, flip_y=flip)
    k = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X0, Y0, z, proj('utm18n'), om, ph, ka, NX, NY, 75, 62.5, 12.3,
                                                               flip_x=False, flip_y=flip)
    return k, (lambda lo, la, al, band: zoo.ref_pinhole(s, lo, la, al))


def many_igm(lons, lats, lo, la):
    lo, la = np.asarray(lo, dtype=float), np.asarray(la, dtype=float)
    d = np.hypot(lons.ravel()[None, :] - lo.ravel()[:, None], lats.ravel()[None, :] - la.ravel()[:, None])
    k = np.argpartition(d, 6, axis=1)[:, :6]
    w = 1.0 / np.maximum(np.take_along_axis(d, k, 1), 1e-8)
    ny, nx = lons.shape
    return (((w * (k % nx)).sum(1) / w.sum(1)).reshape(lo.shape), ((w * (k // nx)).sum(1) / w.sum(1)).reshape(lo.shape))


def sensor(name):
    """(point calculator, reference, native projection key, ground footprint centre and half widths in native units)"""
    if name == 'pinhole':
        k, r = pin(0.05, -0.04, 0.3, True)
        return k, r, 'utm18n', (X0 + 11, Y0 - 14, 40.0, 32.0)
    if name == 'pinhole2':
        k, r = pin(0.0, 0.0, -math.pi / 2, True)
        return k, r, 'utm18n', (X0, Y0, 33.0, 47.0)
    if name == 'geotiff':
        g = [X0, 1.5, 0.4, Y0, 0.3, -1.25]
        from resippy.image_objects.earth_overhead.geotiff.geotiff_point_calc import GeotiffPointCalc
        k = GeotiffPointCalc()
        k.set_geot(g)
        k.set_npix_x(NX)
        k.set_npix_y(NY)
        k.set_projection(proj('utm18n'))
        k.set_approximate_lon_lat_center(X0, Y0)
        k._bands_coregistered = True
        return k, (lambda lo, la, al, band: zoo.ref_affine(g, lo, la)), 'utm18n', (X0 + 48, Y0 - 20, 45.0, 33.0)
    if name == 'rpc':
        s = zoo.rpc_params()
        s.update(s_off=NX / 2.0, l_off=NY / 2.0, s_scale=NX / 2.0, l_scale=NY / 2.0)
        return zoo.rpc_calc(s), (lambda lo, la, al, band: zoo.ref_rpc(s, lo, la, al)), 'lonlat', (s['lon_off'], s['lat_off'] - 0.01, 0.1, 0.075)
    if name == 'igm':
        jj, ii = np.mgrid[0:NY, 0:NX].astype(float)
        lons = X0 + 2.0 * ii + 0.3 * jj
        lats = Y0 - 1.7 * jj + 0.21 * ii
        im = IgmImage.from_params(None, lons, lats, 5.0, NB, proj('utm18n'))
        return im.pointcalc, (lambda lo, la, al, band: many_igm(lons, lats, lo, la)), 'utm18n', (X0 + 55, Y0 - 32, 40.0, 28.0)
    if name == 'model':
        cams = [pin(0.05, -0.04, 0.3, True), pin(0.02, 0.03, 0.4, True), pin(-0.03, -0.06, 0.25, False)]
        m = EarthOverheadSensorModel()
        m._bands_coregistered = False      # as the micasense factory does
        for k, _ in cams:
            m.add_point_calc(k)
        m.set_projection(proj('utm18n'))
        m.set_approximate_lon_lat_center(X0, Y0)
        return m, (lambda lo, la, al, band: cams[band][1](lo, la, al, band)), 'utm18n', (X0 + 11, Y0 - 14, 40.0, 32.0)
    raise KeyError(name)


def content(dt):
    a = pattern((NY, NX, NB), 'uint16', 3)
    if np.dtype(dt).kind == 'f':
        return ((a.astype(float) % 2003) / 7.0 + 1.5).astype(dt)
    return (a % {'uint8': 241, 'int16': 30011, 'uint16': 60013}[np.dtype(dt).name] + 9).astype(dt)


def image(c, calc, data, src, nodata=None):
    md = PhysicalCameraMetadata()
    md.set_npix_x(NX)
    md.set_npix_y(NY)
    md.set_n_bands(data.shape[2])
    md.set_nodata_val(nodata)
    if src == 'memory':
        return PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(data, md, calc)
    f = os.path.join(c.dir(), 'raw.tif')
    ImageFactory.geotiff.from_numpy_array(data, [0, 1, 0, 0, 0, -1], proj('utm18n'), nodata).write_to_disk(f)
    im = PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(f, calc)
    if src == 'loaded':
        im.set_image_data(im.read_all_image_data_from_disk())
    if src == 'edited':
        # the pixels in memory count, also when a band of them is blank
        data[:, :, 1] = 0
        im.set_image_data(data.copy())
    return im


def dem_of(c, kind):
    if kind == 'none':
        return None, lambda x, y: 0 * x, 1e-9
    if kind == 'constant':
        return DemFactory.constant_elevation(12.5), lambda x, y: 0 * x + 12.5, 1e-9
    f = os.path.join(c.dir(), 'dem.tif')
    g = [X0 - 400, 20.0, 0, Y0 + 400, 0, -20.0]
    a = 30.0 + 1.0 * np.arange(40)[None, :, None] - 0.5 * np.arange(40)[:, None, None]
    nod = None
    if kind == 'holes':
        a[18:23, 20:22] = -9999
        nod = -9999
    ImageFactory.geotiff.from_numpy_array(a, g, proj('utm18n'), nod).write_to_disk(f)
    d = DemFactory.from_gtiff_file(f)

    def ref(x, y):
        px, py = (x - g[0]) / 20.0, (g[3] - y) / 20.0
        v = 30.0 + px - 0.5 * py
        if kind == 'holes':
            hole = (px > 19) & (px < 22) & (py > 17) & (py < 23)
            v = np.where(hole, np.nan, v)
            edge = (np.abs(px - 19) < 1e-3) | (np.abs(px - 22) < 1e-3) | (np.abs(py - 17) < 1e-3) | (np.abs(py - 23) < 1e-3)
            v = np.where(edge, np.inf, v)      # not judged
        return v
    return d, ref, 1e-4


def judge(c, out, data, bands, refpix, native, world, demref, nodata, order, size, what, masked=False, ptol=2e-3, rim=0.51):
    """every pixel of the ortho against the image at the position its own geotransform gives it"""
    nx, ny = size
    got = out.get_image_data()
    c.require(got.shape == (ny, nx, len(bands) + (1 if masked else 0)), '%s: shape %s', what, got.shape)
    c.require(got.dtype == data.dtype, '%s: data type %s', what, got.dtype)
    g = out.get_point_calculator().get_geot()
    jj, ii = np.mgrid[0:ny, 0:nx] + 0.5
    wx, wy = g[0] + ii * g[1] + jj * g[2], g[3] + ii * g[4] + jj * g[5]
    ux, uy = Transformer.from_proj(world, proj('utm18n'), always_xy=True).transform(wx, wy)
    z = demref(ux, uy)
    nat = proj(native)
    lx, ly = Transformer.from_proj(world, nat, always_xy=True).transform(wx, wy) if nat.srs != world.srs else (wx, wy)
    isnod = (lambda v: np.isnan(v)) if nodata != nodata else (lambda v: v == nodata)
    seen = [0, 0]
    isf = data.dtype.kind == 'f'

    def first(bad, b, band, x, y, text):
        if bad.any():
            j, i = [int(q) for q in np.argwhere(bad)[0]]
            c.require(False, '%s: pixel (%d,%d) of band %d has the value %s: %s', what, i, j, band, got[j, i, b],
                      text % (x[j, i], y[j, i]))
    judged = ~np.isinf(z)
    hole = np.isnan(z)
    for b, band in enumerate(bands):
        plane = data[:, :, band]
        v = got[:, :, b]
        with np.errstate(all='ignore'):
            x, y = refpix(lx, ly, np.where(judged, z, 0.0), band)
        first(hole & ~isnod(v), b, band, x, y, 'there is no elevation (%s %s)')
        x, y = np.where(hole | ~judged, 0.0, x), np.where(hole | ~judged, 0.0, y)
        live = judged & ~hole
        outside = live & ((x < -rim) | (y < -rim) | (x > NX - 1 + rim) | (y > NY - 1 + rim))
        first(outside & ~isnod(v), b, band, x, y, 'it lies outside of the image at (%.3f, %.3f)')
        inside = (x > 0.01) & (x < NX - 2.01) & (y > 0.01) & (y < NY - 2.01)
        near = (x >= 0) & (x <= NX - 1) & (y >= 0) & (y <= NY - 1)
        must = live & ~outside & (inside | (near & ~isnod(v)))
        seen[0] += int(outside.sum())
        seen[1] += int(must.sum())
        if order == 0:
            ok = np.zeros(v.shape, dtype=bool)
            for dx in (-ptol, ptol):
                for dy in (-ptol, ptol):
                    p, q = np.floor(y + dy + 0.5), np.floor(x + dx + 0.5)
                    good = (p >= 0) & (p < NY) & (q >= 0) & (q < NX)
                    ok |= good & (plane[np.clip(p, 0, NY - 1).astype(int), np.clip(q, 0, NX - 1).astype(int)] == v)
            first(must & ~ok, b, band, x, y, 'the image at (%.3f, %.3f) has another')
        else:
            x0, y0 = np.clip(x, 0, NX - 2).astype(int), np.clip(y, 0, NY - 2).astype(int)
            fx, fy = x - x0, y - y0
            pl = plane.astype(float)
            at = lambda dj, di: pl[np.clip(y0 + dj, 0, NY - 1), np.clip(x0 + di, 0, NX - 1)]
            w = (at(0, 0) * (1 - fx) + at(0, 1) * fx) * (1 - fy) + (at(1, 0) * (1 - fx) + at(1, 1) * fx) * fy
            inner = np.array([at(dj, di) for dj in (0, 1) for di in (0, 1)])
            outer = np.array([at(dj, di) for dj in (-1, 0, 1, 2) for di in (-1, 0, 1, 2)])
            edge = (np.minimum(fx, fy) < ptol) | (np.maximum(fx, fy) > 1 - ptol)
            span = np.where(edge, outer.max(0) - outer.min(0), inner.max(0) - inner.min(0))
            tol = span * 2 * ptol + (1e-5 * np.abs(w) if isf else 1.0)
            first(must & ~(np.abs(v.astype(float) - w) <= tol), b, band, x, y, 'the image at (%.3f, %.3f) has another')
    if masked:
        al = got[:, :, -1]
        want = np.where(isnod(got[:, :, 0]), 0, 255)
        c.same(al, want.astype(al.dtype), what + ': transparency')
    nod = out.get_metadata().get_nodata_val()
    c.require(nod == nodata or (nod != nod and nodata != nodata), '%s: no-data value', what)
    c.require(out.get_metadata().get_npix_x() == nx and out.get_metadata().get_npix_y() == ny, '%s: size in the metadata', what)
    return seen


def polygon(kind, foot, world_key, native):
    cx, cy, hw, hh = foot
    sx, sy, k = {'inside': (0, 0, 0.45), 'larger': (0, 0, 1.6), 'shifted': (0.8, -0.6, 0.9), 'away': (6, 7, 0.5), 'triangle': (0, 0, 1.0)}[kind]
    p = box(cx + sx * hw - k * hw, cy + sy * hh - k * hh, cx + sx * hw + k * hw, cy + sy * hh + k * hh)
    if kind == 'triangle':
        p = Polygon([(cx - hw, cy - hh), (cx + hw, cy - 0.2 * hh), (cx + 0.1 * hw, cy + hh)])
    if PROJS[native] != PROJS[world_key]:
        tr = Transformer.from_proj(proj(native), proj(world_key), always_xy=True)
        p = Polygon([tr.transform(x, y) for x, y in p.exterior.coords])
    return p


@CHECK.scenario(bound=(2, 3))
def ortho(c):
    """one ortho per sensor, output polygon, projection, DEM, band list, data type, no-data value, destination"""
    name = c.choose('sensor', SENSORS)
    order = c.choose('spline order', [0, 1])
    pk = c.vary('polygon', ['larger', 'inside', 'shifted', 'away', 'triangle'])
    wk = c.vary('projection', ['native', 'lonlat', 'merc', 'default'])
    dk = c.vary('dem', ['constant', 'none', 'tilted', 'holes'])
    bands = c.vary('bands', [None, [1], [2, 0], [0, 1, 2, 1]])
    dt = c.vary('dtype', ['uint8', 'int16', 'float32', 'uint16', 'float64'])
    nodata = c.vary('nodata', [0, 7, 120] + ([float('nan'), -9999.0, -3.4028234663852886e+38, 'beside a pixel value'] if dt[0] == 'f' else []))
    if nodata == 'beside a pixel value':
        nodata = float((content(dt)[:, :, 0].max() * (1 + 2e-6)).astype(dt))
    src = c.vary('source', ['memory', 'file', 'loaded'] + (['edited'] if name != 'model' else []))
    size = c.vary('size', [(17, 13), (1, 1), (29, 5), (6, 23)])
    outf = c.vary('output', ['none', 'file'])
    mask = c.vary('mask', [False, True])
    variant = c.vary('variant', ['spline', 'warp']) if not (mask is False and name == 'model') else 'spline'
    if dk in ('tilted', 'holes') and name in ('rpc', 'igm', 'geotiff'):
        dk = 'constant' if name == 'rpc' else 'tilted'
    calc, refpix, native, foot = sensor(name)
    data = content(dt)
    im = image(c, calc, data, src)
    keep = data.copy()
    dem, demref, dtol = dem_of(c, dk)
    world_key = {'native': native, 'default': 'lonlat'}.get(wk, wk)
    poly = polygon(pk, foot, world_key, native)
    kw = dict(dem=dem, bands=bands, nodata_val=nodata, mask_no_data_region=mask)
    if wk != 'default':
        kw['world_proj'] = proj(world_key)
    if outf == 'file':
        kw['output_fname'] = os.path.join(c.dir(), 'ortho.tif')
    if variant == 'spline':
        fn = ortho_tools.create_ortho_gtiff_image_world_to_sensor
        kw['spline_order'] = order
    else:
        fn = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup
        kw['interpolation'] = ['nearest', 'bilinear'][order]
        if name == 'igm' or dk == 'holes':
            return
    out = c.op('ortho', fn, im, size[0], size[1], poly, **kw)
    bl = bands if bands is not None else [0, 1, 2]
    g = out.get_point_calculator().get_geot()
    b = poly.bounds
    c.same(g, [b[0], (b[2] - b[0]) / size[0], 0, b[3], 0, -(b[3] - b[1]) / size[1]], 'geotransform spans the polygon', rtol=1e-9, atol=1e-12)
    judge(c, out, data, bl, refpix, native, proj(world_key), demref, nodata, order if variant == 'spline' or order == 0 else 1, size,
          'ortho', mask, ptol=4e-3, rim=0.51 if variant == 'spline' or order == 0 else 1.01)
    c.same(data, keep, 'image after the ortho')
    if outf == 'file':
        rd = c.op('read', GeotiffImageFactory.from_file, kw['output_fname'])
        c.same(rd.read_all_image_data_from_disk(), out.get_image_data(), 'written ortho')
        c.same(rd.get_point_calculator().get_geot(), g, 'geotransform of the written ortho', rtol=1e-12)
        nod = rd.get_metadata().get_nodata_val()
        c.require(nod == nodata or (nod != nod and nodata != nodata), 'no-data value of the written ortho is %r', nod)


@CHECK.scenario(bound=(1, 3))
def full_ortho(c):
    """the whole image, in any output projection, at the asked ground sample distance"""
    name = c.choose('sensor', ['pinhole', 'geotiff', 'rpc', 'pinhole2', 'model', 'igm'])
    wk = c.choose('projection', ['native', 'lonlat', 'utm18n', 'merc'])
    gsd = c.vary('gsd', ['given', 'own', 'coarse'])
    order = c.vary('spline order', [1, 0])
    dk = c.vary('dem', ['none', 'constant'])
    nodata = c.vary('nodata', [0, 5])
    bands = c.vary('bands', [None, [1]])
    src = c.vary('source', ['memory', 'file'])
    calc, refpix, native, foot = sensor(name)
    data = content('int16')
    im = image(c, calc, data, src)
    dem, demref, _ = dem_of(c, dk)
    unit = 400.0 if name == 'rpc' else 2.0
    kw = dict(dem=dem, nodata_val=nodata, spline_order=order, bands=bands)
    if gsd != 'own':
        kw['gsd_meters'] = unit * (1 if gsd == 'given' else 4)
    if wk != 'native':
        kw['output_proj'] = proj(wk)
    world = proj(native if wk == 'native' else wk)
    out = c.op('full ortho', ortho_tools.create_full_ortho_gtiff_image, im, **kw)
    nx, ny = out.get_metadata().get_npix_x(), out.get_metadata().get_npix_y()
    bl = bands if bands is not None else [0, 1, 2]
    seen = judge(c, out, data, bl, refpix, native, world, demref, nodata, order, (nx, ny), 'full ortho', ptol=4e-3)
    c.require(seen[1] >= 0.3 * nx * ny * len(bl) or gsd == 'coarse', 'only %d of %d ortho pixels show the image', seen[1], nx * ny * len(bl))
    # every image pixel lies in the ortho
    g = out.get_point_calculator().get_geot()
    z = 12.5 if dk == 'constant' else 0.0
    co = [(0, 0), (NX - 1, 0), (0, NY - 1), (NX - 1, NY - 1), (NX // 2, 0), (0, NY // 2)]
    if wk in ('native', native):
        for band in bl:
            for x, y in co:
                lo, la = calc.pixel_x_y_alt_to_lon_lat(np.array([x]), np.array([y]), z, band=band)
                qx, qy = zoo.ref_affine(g, float(lo[0]), float(la[0]))
                c.require(-0.05 <= qx <= nx + 0.05 and -0.05 <= qy <= ny + 0.05, 'image pixel (%s, %s) lies at (%.2f, %.2f) of a %dx%d ortho', x, y, qx, qy, nx, ny)
    # ground sample distance
    mx, my = g[0] + g[1] * nx / 2, g[3] + g[5] * ny / 2
    if world.crs.is_geographic:
        geod = Geod(ellps='WGS84')
        sx = geod.inv(mx - g[1] / 2, my, mx + g[1] / 2, my)[2]
        sy = geod.inv(mx, my - g[5] / 2, mx, my + g[5] / 2)[2]
    else:
        sx, sy = abs(g[1]), abs(g[5])
    want = kw.get('gsd_meters')
    slack = 1.06 if world.crs.is_geographic else 1.0001
    if want is None:
        lo, la = calc.pixel_x_y_alt_to_lon_lat(np.array([0, NX - 1, 0]), np.array([0, 0, NY - 1]), z, band=bl[0])
        ux, uy = Transformer.from_proj(proj(native), proj('utm18n'), always_xy=True).transform(lo, la)
        want = (math.hypot(ux[1] - ux[0], uy[1] - uy[0]) / NX + math.hypot(ux[2] - ux[0], uy[2] - uy[0]) / NY) / 2
        slack = 1.06
    for s, n in ((sx, nx), (sy, ny)):
        c.require(want / slack <= s <= want * (1 + 1.5 / n) * slack, 'ground sample distance %.4f instead of %.4f', s, want)


@CHECK.scenario(bound=(9, 9))
def pixel_values(c):
    """window means around ground positions; nothing is taken from the other side of the image"""
    name = c.choose('sensor', ['pinhole', 'geotiff', 'rpc', 'model'])
    dt = c.choose('dtype', ['uint8', 'int16', 'float32', 'float64'])
    nodata = c.choose('nodata', [None, 11, 0] + ([float('nan'), -9999.0, -3.4028234663852886e+38] if dt == 'float32' else []))
    window = c.choose('window', [None, 2, 4])
    src = c.choose('source', ['memory', 'file'])
    far = c.choose('positions', ['around', 'far off']) if name == 'geotiff' else 'around'
    calc, refpix, native, foot = sensor(name)
    data = content(dt)
    if nodata is not None:
        data[10:16, 20:29] = nodata
        data[::5, ::3, 1] = nodata
    im = image(c, calc, data, src, nodata)
    cx, cy, hw, hh = foot
    pts = [(cx + hw * a, cy + hh * b) for a in (-4, -1.8, -1.1, -0.6, -0.1, 0.33, 0.8, 1.3, 2.2) for b in (-3, -1.5, -0.7, 0.05, 0.6, 1.4)]
    if far == 'far off':
        # columns and rows whose low bits are those of a pixel of the image
        far = [(12 + dx, 13 + dy) for dx in (0, 256, -256, 65536, -65536, 2**32) for dy in (0, 256, -65536, 65536, -2**32) if dx or dy]
        pts = [(X0 + 1.5 * x + 0.4 * y, Y0 + 0.3 * x - 1.25 * y) for x, y in far] + pts[:6]
    lo, la = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    kw = {} if window is None else {'window': window}
    w = (window or 8) // 2
    tol = 1e-4 if dt == 'float32' else 1e-9
    absent = None if nodata is None else data.dtype.type(nodata)
    got = c.op('pixel values', ortho_tools.get_pixel_values, im, lo, la, np.zeros(len(lo)), **kw)
    c.require(got.shape == (NB, len(lo)), 'shape %s', got.shape)
    for b in range(NB):
        for k, (p, q) in enumerate(pts):
            x, y = refpix(p, q, 0.0, b)
            if min(abs(x - math.floor(x) - 0.5), abs(y - math.floor(y) - 0.5)) < 1e-3:
                continue
            i, j = int(math.floor(x + 0.5)), int(math.floor(y + 0.5))
            vals = [float(data[r, s, b]) for r in range(max(j - w, 0), min(j + w, NY)) for s in range(max(i - w, 0), min(i + w, NX))
                    if nodata is None or (data[r, s, b] == data[r, s, b] and data[r, s, b] != absent)]
            if vals:
                full = i - w >= 0 and j - w >= 0 and i + w <= NX and j + w <= NY
                v = got[b, k]
                m = sum(vals) / len(vals)
                c.require(abs(v - m) <= tol * max(1.0, abs(m)) or (not full and v != v), 'mean around (%.2f, %.2f) of band %d is %s, not %s', x, y, b, v, m)
            else:
                c.require(got[b, k] != got[b, k], 'a position without image pixels at (%.2f, %.2f) has the value %s', x, y, got[b, k])


@CHECK.scenario(bound=(9, 9))
def large(c):
    """images and ortho grids of tens of thousands of pixels"""
    global NX, NY
    name = c.choose('sensor', ['pinhole', 'geotiff', 'model', 'rpc'])
    order = c.choose('spline order', [0, 1])
    size = c.choose('size', [(300, 263), (7, 4100), (1030, 70)])
    img = c.choose('image', [(52, 44), (330, 290)])
    variant = c.choose('variant', ['spline', 'warp']) if name != 'model' else 'spline'
    old = NX, NY
    NX, NY = img
    try:
        calc, refpix, native, foot = sensor(name)
        if name == 'pinhole' or name == 'model':
            foot = foot[:2] + (foot[2] * NX / 52.0, foot[3] * NY / 44.0)
        elif name == 'geotiff':
            foot = (X0 + NX * 0.9, Y0 - NY * 0.45, 0.9 * NX, 0.75 * NY)
        data = content('float32' if order else 'uint16')
        im = image(c, calc, data, 'memory')
        dem, demref, _ = dem_of(c, 'constant' if name == 'rpc' else 'tilted')
        poly = polygon('larger', foot, native, native)
        kw = dict(dem=dem, nodata_val=0, world_proj=proj(native))
        if variant == 'spline':
            out = c.op('ortho', ortho_tools.create_ortho_gtiff_image_world_to_sensor, im, size[0], size[1], poly, spline_order=order, **kw)
        else:
            out = c.op('ortho', ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup, im, size[0], size[1], poly,
                       interpolation=['nearest', 'bilinear'][order], **kw)
        seen = judge(c, out, data, [0, 1, 2], refpix, native, proj(native), demref, 0, order, size, 'large ortho',
                     ptol=4e-3 if NX < 100 else 2e-2, rim=0.51 if variant == 'spline' or order == 0 else 1.01)
        c.require(seen[1] > 1000, 'too little of the image in the ortho')
    finally:
        NX, NY = old


@CHECK.scenario(bound=(9, 9))
def many_bands(c):
    """images of six bands whose cameras fly at different heights: every band, and band list, against its own camera"""
    global NB
    n = c.choose('bands', [6, 4])
    bands = c.choose('band list', [None, [3], [0, 3], [3, 2, 1, 0], [1, 1, 3, 3, 2, 0], list(range(n - 1, -1, -1))])
    full = c.choose('function', ['grid', 'whole image'])
    order = c.choose('spline order', [0, 1])
    wk = c.choose('projection', ['utm18n', 'lonlat'])
    src = c.choose('source', ['memory', 'file'])
    cams = [pin(0.05, -0.04, 0.3, True), pin(0.02, 0.03, 0.4, True, 240.0), pin(-0.03, -0.06, 0.25, False, 200.0), pin(0.01, 0.02, -1.2, True, 520.0),
            pin(0.04, -0.01, 0.1, False, 350.0), pin(-0.06, 0.05, 0.7, True, 280.0)][:n]
    m = EarthOverheadSensorModel()
    m._bands_coregistered = False
    for k, _ in cams:
        m.add_point_calc(k)
    m.set_projection(proj('utm18n'))
    m.set_approximate_lon_lat_center(X0, Y0)
    old, NB = NB, n
    try:
        data = content('int16')
    finally:
        NB = old
    im = image(c, m, data, src)
    bl = bands if bands is not None else list(range(n))
    world = proj(wk)
    if full == 'grid':
        size = (17, 13)
        poly = polygon('larger', (X0 + 11, Y0 - 14, 40.0, 32.0), wk, 'utm18n')
        out = c.op('ortho', ortho_tools.create_ortho_gtiff_image_world_to_sensor, im, size[0], size[1], poly, world_proj=world, bands=bands, spline_order=order)
    else:
        out = c.op('full ortho', ortho_tools.create_full_ortho_gtiff_image, im, output_proj=world, bands=bands, spline_order=order)
        size = (out.get_metadata().get_npix_x(), out.get_metadata().get_npix_y())
        # without a distance of its own, the ground sample distance is that of the first band asked for
        g = out.get_point_calculator().get_geot()
        lo, la = m.pixel_x_y_alt_to_lon_lat(np.array([0, NX - 1, 0]), np.array([0, 0, NY - 1]), 0.0, band=bl[0])
        want = (math.hypot(lo[1] - lo[0], la[1] - la[0]) / NX + math.hypot(lo[2] - lo[0], la[2] - la[0]) / NY) / 2
        mx, my = g[0] + g[1] * size[0] / 2, g[3] + g[5] * size[1] / 2
        if wk == 'lonlat':
            geod = Geod(ellps='WGS84')
            sx, sy = geod.inv(mx - g[1] / 2, my, mx + g[1] / 2, my)[2], geod.inv(mx, my - g[5] / 2, mx, my + g[5] / 2)[2]
        else:
            sx, sy = abs(g[1]), abs(g[5])
        for s, q in ((sx, size[0]), (sy, size[1])):
            c.require(want / 1.06 <= s <= want * (1 + 1.5 / q) * 1.06, 'ground sample distance %.4f instead of %.4f', s, want)
    judge(c, out, data, bl, lambda lo, la, al, band: cams[band][1](lo, la, al, band), 'utm18n', world, lambda x, y: 0 * x, 0, order, size, 'ortho of many bands', ptol=4e-3)


@CHECK.scenario(bound=(9, 9))
def transparency(c):
    """the added layer is 0 where the first band has no data and 255 elsewhere; the bands stay as they were"""
    dt = c.choose('dtype', ['uint8', 'int16', 'uint16', 'float32', 'float64'])
    nod = c.choose('no data', [0, 7] + ([-9999] if dt == 'int16' else [float('nan'), -9999.0, -3.4028234663852886e+38] if dt[0] == 'f' else [255]))
    nb = c.choose('bands', [1, 3])
    where = c.choose('no data at', ['none', 'some', 'all', 'other band'])
    lay = c.choose('layout', ['C', 'F', 'strided', 'reversed'])
    a = (pattern((7, 9, nb), 'uint16', 3) % 97 + 20).astype(dt)
    # zero and 255 are values like any other unless they stand for no data
    a.ravel()[::5], a.ravel()[1::7] = 0, 255
    if dt[0] != 'u':
        a.ravel()[2::7] *= -1
    a[a == nod] = 33
    miss = np.zeros((7, 9), bool)
    if where == 'some':
        miss[1::3, ::2] = True
    elif where == 'all':
        miss[:] = True
    a[miss, 0] = nod
    if where == 'other band' and nb > 1:
        a[2:4, :, 1] = nod
    keep = a.copy()
    src = layout(a, lay)
    got = c.op('mask', ortho_tools.mask_image, src, nod)
    c.require(got.shape == (7, 9, nb + 1) and got.dtype == a.dtype, 'masked image is %s %s', got.shape, got.dtype)
    c.same(got[:, :, :nb], keep, 'bands of the masked image')
    c.same(got[:, :, nb], np.where(miss, 0, 255).astype(dt), 'transparency')
    c.same(src, keep, 'caller image changed')
