"""images with a stored ground position per pixel"""
import os

import numpy as np
from pyproj import Transformer

from mc import zoo
from mc.core import Check
from mc.checks.p12 import FnDem, TERRAIN, X0, Y0
from mc.util import layout, pattern, proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
    IdealPinholeFpaLocalUtmPointCalc
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory

CHECK = Check('P16', 'ground position images', [
    'grids from 2x3 to 12x9 pixels with pixels of at least 1e-5 units; square, sheared, rotated, mirrored and mildly bent grids',
    'grids with fewer than six pixels are not claimed (the six nearest pixels are blended)'])

GRIDS = {
    'square': (1.0, 0.0, 0.0, -1.0, 0.0),
    'south up': (1.0, 0.0, 0.0, 1.0, 0.0),
    'rotated': (0.8, -0.6, -0.6, -0.8, 0.0),
    'sheared': (1.0, 0.0, 0.25, -1.0, 0.0),
    'mirrored': (-1.0, 0.1, 0.05, 1.0, 0.0),
    'bent': (1.0, 0.0, 0.0, -1.0, 0.01),
}


def grid(kind, shape, unit, x0, y0):
    a, b, d, e, q = GRIDS[kind]
    jj, ii = np.mgrid[0:shape[0], 0:shape[1]].astype(float)
    return (x0 + unit * (a * ii + b * jj + q * ii * jj), y0 + unit * (d * ii + e * jj + q * jj * jj)), ii, jj


def at(kind, unit, x0, y0, i, j):
    a, b, d, e, q = GRIDS[kind]
    return x0 + unit * (a * i + b * j + q * i * j), y0 + unit * (d * i + e * j + q * j * j)


@CHECK.scenario(bound=(3, 4))
def grids(c):
    """nearest pixel of every grid position against the exhaustive search over all pixels"""
    kind = c.choose('grid', list(GRIDS))
    shape = c.choose('shape', [(6, 7), (2, 3), (3, 2), (1, 8), (9, 1), (12, 9)])
    place = c.vary('place', ['utm', 'degrees'])
    unit = c.vary('pixel size', [1.0, 30.0, 0.05] if place == 'utm' else [1e-5, 1e-3])
    altk = c.vary('alts', ['array', 'float', 'int', 'numpy', 'negative'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    form = c.vary('form', ['1d', '2d', 'scalar', 'one'])
    world = c.vary('world', ['none', 'other'])
    ptype = c.vary('pixel type', ['int64', 'float64', 'uint16', 'float32', 'float64 with rounding'])
    bands = c.vary('bands', [2, 1, 5])
    x0, y0 = (X0, Y0) if place == 'utm' else (-77.25, 38.5)
    p = proj('utm18n' if place == 'utm' else 'lonlat')
    (lons, lats), ii, jj = grid(kind, shape, unit, x0, y0)
    alts = {'array': 20.0 + jj * 3 - ii, 'float': 12.5, 'int': 7, 'numpy': np.float32(3.5), 'negative': -30}[altk]
    data = pattern(shape + (bands,), 'int16')
    img = c.op('from_params', IgmImage.from_params, layout(data, lay), layout(lons, lay), layout(lats, lay),
               layout(alts, lay) if altk == 'array' else alts, bands, p)
    md = img.get_metadata()
    c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (shape[1], shape[0], bands), 'size')
    c.same(img.get_image_data(), data, 'image data', dtype='int16')
    for b in range(bands):
        c.same(img.get_image_band(b), data[:, :, b], 'band %d' % b)
    pc = img.get_point_calculator()
    c.same(pc.lon_image, lons, 'lons')
    c.same(pc.lat_image, lats, 'lats')
    c.same(pc.alt_image, alts if altk == 'array' else np.full(shape, float(alts)), 'alts')
    c.require(pc.bands_coregistered() is True, 'bands of one grid')
    c.require(pc.get_projection().crs.is_geographic == (place != 'utm'), 'projection')
    cx, cy = pc.get_approximate_lon_lat_center()
    c.require(lons.min() <= cx <= lons.max() and lats.min() <= cy <= lats.max(), 'approximate centre outside of the image')
    # pixel -> ground is the stored position
    px, py = ii.astype(ptype.split()[0]), jj.astype(ptype.split()[0])
    if ptype.endswith('rounding'):
        px, py = px - 1e-9 * (px > 0), py + 1e-9 - 2e-9 * (py > 1)
    wp = None if world == 'none' else proj('lonlat' if place == 'utm' else 'utm18n')
    if wp is None:
        wlon, wlat = lons, lats
        kw, tol = {}, 0.0
    else:
        wlon, wlat = Transformer.from_proj(p, wp, always_xy=True).transform(lons, lats)
        kw, tol = {'world_proj': wp}, 1e-11
    if form == '2d':
        lo, la = c.op('to ground', pc.pixel_x_y_alt_to_lon_lat, px, py, 0.0, **kw)
        c.same(lo, wlon, 'ground x of the pixels', rtol=tol)
        c.same(la, wlat, 'ground y of the pixels', rtol=tol)
    else:
        lo, la = c.op('to ground', pc.pixel_x_y_alt_to_lon_lat, px.ravel(), py.ravel(), np.zeros(px.size), **kw)
        c.same(lo, wlon.ravel(), 'ground x of the pixels', rtol=tol)
        c.same(la, wlat.ravel(), 'ground y of the pixels', rtol=tol)
    if form == 'scalar':
        for k in range(0, px.size, 5):
            j, i = divmod(k, shape[1])
            t = float if 'float' in ptype else int
            got = c.op('to ground', pc.pixel_x_y_alt_to_lon_lat, t(i), t(j), 0.0, **kw)
            c.same(got, [wlon[j, i], wlat[j, i]], 'ground position of pixel %d, %d' % (i, j), rtol=tol)
    if lons.size < 6:
        return
    # ground -> pixel finds the stored positions back
    t = 0.02 if wp is None else 0.05
    if form in ('scalar', 'one'):
        for k in range(0, px.size, 3):
            j, i = divmod(k, shape[1])
            if form == 'scalar':
                x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, float(wlon[j, i]), float(wlat[j, i]), 0.0, **kw)
                c.same([x, y], [i, j], 'pixel of the ground position of pixel %d, %d' % (i, j), atol=t)
            else:
                x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, wlon[j:j + 1, i], wlat[j:j + 1, i], np.zeros(1), **kw)
                c.same([x, y], [[i], [j]], 'pixel of the ground position of pixel %d, %d' % (i, j), atol=t)
    else:
        f = (lambda v: v) if form == '2d' else np.ravel
        x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, f(wlon), f(wlat), f(np.zeros(shape)), **kw)
        c.same(x, f(ii), 'pixel x of the ground positions', atol=t)
        c.same(y, f(jj), 'pixel y of the ground positions', atol=t)
    # and positions between the pixels come out between them
    if min(shape) >= 3 and wp is None:
        fi = np.array([0.5, 1.25, 0.1, shape[1] - 1.5, 1.5])
        fj = np.array([0.5, 0.75, 1.4, shape[0] - 1.5, 1.5])
        gx, gy = at(kind, unit, x0, y0, fi, fj)
        x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, gx, gy, np.zeros(5))
        c.require(np.all(np.hypot(x - fi, y - fj) < 0.75), 'positions %s, %s between pixels came out at %s, %s', fi, fj, x, y)


CAMS = {'nadir': (0.0, 0.0, 0.0), 'tilted': (0.35, -0.1, 0.6), 'turned': (0.0, 0.2, -2.2)}


@CHECK.scenario(bound=(9, 9))
def from_sensor(c):
    """ground positions of every pixel of a camera over a DEM"""
    cam = c.choose('camera', list(CAMS))
    ter = c.choose('terrain', ['flat', 'default', 'constant', 'tilted', 'hill'])
    shape = c.choose('size', [(5, 7), (8, 3), (2, 3)])
    src = c.choose('source', ['memory', 'file'])
    dist = c.choose('sample distance', [None, 2.0, 10])
    om, ph, ka = CAMS[cam]
    s = dict(X=X0, Y=Y0, Z=700.0, omega=om, phi=ph, kappa=ka, f=0.02, nx=shape[1], ny=shape[0], px=1e-3, py=1e-3, flip_x=False, flip_y=False)
    pc = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X0, Y0, 700.0, proj('utm18n'), om, ph, ka, shape[1], shape[0], 1000.0, 1000.0, 20.0)
    data = pattern(shape + (3,), 'uint16')
    img = ImageFactory.geotiff.from_numpy_array(data, [0, 1, 0, 0, 0, -1], proj('utm18n'))
    if src == 'file':
        f = os.path.join(c.dir(), 'a.tif')
        img.write_to_disk(f)
        img = ImageFactory.geotiff.from_file(f)
    img.set_point_calculator(pc)
    if ter == 'default':
        dem, fn = None, lambda x, y: 0.0 * x
    elif ter == 'constant':
        dem, fn = DemFactory.constant_elevation(33.5), lambda x, y: 0.0 * x + 33.5
    else:
        fn, lo, hi, _ = TERRAIN[ter]
        dem = FnDem(fn, lo, hi)
    igm = c.op('create_igm_image', ortho_tools.create_igm_image, img, dem, dist)
    q = igm.get_point_calculator()
    c.same(igm.get_image_data(), data, 'pixels', dtype='uint16')
    c.require((igm.get_metadata().get_npix_x(), igm.get_metadata().get_npix_y(), igm.get_metadata().get_n_bands()) == (shape[1], shape[0], 3), 'size')
    lons, lats, alts = q.lon_image, q.lat_image, q.alt_image
    c.require(lons.shape == lats.shape == alts.shape == shape, 'shape of the ground positions')
    c.same(alts, fn(lons - X0, lats - Y0), 'altitude of the pixels on the terrain', atol=0.02 if ter != 'hill' else 0.1)
    for j in range(shape[0]):
        for i in range(shape[1]):
            c.same(zoo.ref_pinhole(s, lons[j, i], lats[j, i], alts[j, i]), [i, j], 'ground position of pixel %d, %d seen by the camera' % (i, j), atol=0.02)
    c.require(not q.get_projection().crs.is_geographic, 'projection')
    # what is stored comes back, also for an image made from the image with stored positions
    lo, la = c.op('get_pixel_lon_lats', ortho_tools.get_pixel_lon_lats, igm, dem)
    c.same([lo, la], [lons, lats], 'ground positions of the pixel grid')
    if ter != 'hill':
        q = c.op('create_igm_image', ortho_tools.create_igm_image, igm, dem, dist).get_point_calculator()
        c.same([q.lon_image, q.lat_image], [lons, lats], 'positions of an image made from stored positions', atol=1e-6)
        c.same(q.alt_image, fn(lons - X0, lats - Y0), 'altitudes of an image made from stored positions', atol=0.02)


@CHECK.scenario(bound=(9, 9))
def ortho(c):
    """an ortho of such an image shows on each ground position the pixel found for it"""
    kind = c.choose('grid', list(GRIDS))
    order = c.choose('order', [0, 1])
    n = c.choose('ortho size', [(12, 10), (5, 17)])
    shape = (12, 14)
    (lons, lats), ii, jj = grid(kind, shape, 2.0, X0, Y0)
    data = np.stack([ii * 10 + 1, jj * 10 + 1], axis=2)
    img = IgmImage.from_params(data, lons, lats, 0.0, 2, proj('utm18n'))
    cx, cy = lons[5:7, 6:8].mean(), lats[5:7, 6:8].mean()
    from shapely.geometry import box
    poly = box(cx - 6, cy - 5, cx + 6, cy + 5)
    out = c.op('ortho', ortho_tools.create_ortho_gtiff_image_world_to_sensor, img, n[0], n[1], poly, world_proj=proj('utm18n'),
               nodata_val=-1, spline_order=order)
    g = out.get_point_calculator().get_geot()
    got = out.get_image_data()
    a, b, d, e, q = GRIDS[kind]
    for r in range(n[1]):
        for k in range(n[0]):
            x = g[0] + (k + 0.5) * g[1]
            y = g[3] + (r + 0.5) * g[5]
            # true fractional position by Newton on the analytic grid
            i, j = 6.0, 5.0
            for _ in range(30):
                u, v = at(kind, 2.0, X0, Y0, i, j)
                J = np.array([[2 * (a + q * j), 2 * (b + q * i)], [2 * d, 2 * (e + 2 * q * j)]])
                di = np.linalg.solve(J, [x - u, y - v])
                i, j = i + di[0], j + di[1]
            lim = 10 * (1.3 + (0.5 if order == 0 else 0))
            c.require(abs(got[r, k, 0] - 1 - 10 * i) <= lim and abs(got[r, k, 1] - 1 - 10 * j) <= lim,
                      'ortho pixel %d, %d shows %s, the ground position belongs to image position %s, %s', k, r, got[r, k], i, j)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """grids of tens of thousands of pixels"""
    kind = c.choose('grid', [k for k in GRIDS if k != 'bent'])
    shape = c.choose('shape', [(130, 200), (300, 257), (1100, 7)])
    (lons, lats), ii, jj = grid(kind, shape, 3.0, X0, Y0)
    alts = 20.0 + jj * 3 - ii
    data = pattern(shape + (2,), 'int16')
    img = c.op('from_params', IgmImage.from_params, data, lons, lats, alts, 2, proj('utm18n'))
    pc = img.get_point_calculator()
    c.same(img.get_image_data(), data, 'image data', dtype='int16')
    for n, v, w in (('lons', pc.lon_image, lons), ('lats', pc.lat_image, lats), ('alts', pc.alt_image, alts)):
        c.same(v, w, n)
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lons, lats, np.zeros(shape))
    c.same(x, ii, 'pixel x of the ground positions', atol=0.02)
    c.same(y, jj, 'pixel y of the ground positions', atol=0.02)
    lo, la = c.op('to ground', pc.pixel_x_y_alt_to_lon_lat, ii.astype(int), jj.astype(int), 0.0)
    c.same(lo, lons, 'ground x of the pixels')
    c.same(la, lats, 'ground y of the pixels')
    n = 70001
    k = np.arange(n)
    fi, fj = (shape[1] - 1) * ((k * 0.6180339887498949) % 1.0), (shape[0] - 1) * ((k * 0.7548776662466927) % 1.0)
    gx, gy = at(kind, 3.0, X0, Y0, fi, fj)
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, gx, gy, np.zeros(n))
    edge = (fi < 2) | (fi > shape[1] - 3) | (fj < 2) | (fj > shape[0] - 3)
    far = np.hypot(x - fi, y - fj)
    c.require(np.all(far[~edge] < 0.75) and np.all(far < 1.6), 'positions between pixels come out up to %s pixels away', far.max())


@CHECK.scenario(bound=(9, 9))
def stored_types(c):
    """stored positions of every number type, heights of another, and places inside, between and off the grid"""
    dt = c.choose('position type', ['int64', 'int32', 'float32', 'float64'])
    adt = c.choose('height', ['float', 'int', 'array', 'int array', 'float32 array'])
    where = c.choose('places', ['on', 'between', 'off', 'far'])
    form = c.choose('form', ['1d', '2d', 'scalar', 'int'])
    jj, ii = np.mgrid[0:6, 0:8]
    lons = (3000 + 4 * ii + jj).astype(dt)
    lats = (7000 - 3 * jj + (ii // 3)).astype(dt)
    hs = 12.25 + 0.5 * jj - ii
    alts = {'float': 12.75, 'int': 9, 'array': hs, 'int array': np.floor(hs).astype(int), 'float32 array': hs.astype('float32')}[adt]
    pc = c.op('init', IGMPointCalc, lons.copy(), lats.copy(), alts, proj('utm18n'))
    c.same(pc.lon_image, lons, 'stored x')
    c.same(pc.lat_image, lats, 'stored y')
    c.same(pc.alt_image, np.zeros((6, 8)) + alts, 'stored heights')
    k = np.arange(6)
    qx, qy = {'on': (lons[k, k + 1], lats[k, k + 1]), 'between': (lons[k, k] + 1 + k % 2, lats[k, k] - 1), 'off': (lons[k, 7] + 5 + k, lats[k, 7] - 2 * k),
              'far': (lons[k, 0] - 5000 + 300 * k, lats[k, 0] + 900 * k)}[where]
    qx, qy = np.asarray(qx, dtype=float), np.asarray(qy, dtype=float)
    f = np.asarray(lons, dtype=float), np.asarray(lats, dtype=float)
    want = np.array([zoo.ref_igm(f[0], f[1], a, b) for a, b in zip(qx, qy)])
    # equal sixth and seventh distances leave a choice open
    ok = []
    for a, b in zip(qx, qy):
        d = np.sort(np.hypot(f[0] - a, f[1] - b), axis=None)
        ok.append(d[6] - d[5] > 1e-7 * d[5])
    ok = np.array(ok)
    if form == 'scalar':
        got = np.array([c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, float(a), float(b), 0.0) for a, b in zip(qx, qy)])
    elif form == '2d':
        got = np.array(c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, qx.reshape(2, 3), qy.reshape(2, 3), np.zeros((2, 3)))).reshape(2, 6).T
    else:
        t = int if form == 'int' else float
        got = np.array(c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, qx.astype(t), qy.astype(t), np.zeros(6))).T
    c.same(got[ok], want[ok], 'pixels of the places', atol=1e-5)
