"""pixel rays on digital elevation models"""
import math
import os

import numpy as np
from pyproj import Transformer

from mc import zoo
from mc.core import Check
from mc.util import layout, proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
    IdealPinholeFpaLocalUtmPointCalc
from resippy.photogrammetry.dem.abstract_dem import AbstractDem
from resippy.photogrammetry.dem.dem_factory import DemFactory

CHECK = Check('P12', 'ray intersection with a DEM', [
    'terrain: flat, tilted, hill, wall, two ridges, terraces, geotiff; cameras up to 60 degrees off nadir; sample distances 1 to 40 m',
    'a ridge may be missed when the ray is below it for less than one DEM sample distance'])

X0, Y0 = 500321.0, 4423117.0


class FnDem(AbstractDem):
    def __init__(self, fn, lo, hi):
        super().__init__()
        self.fn, self.lo, self.hi = fn, lo, hi
        self.set_projection(proj('utm18n'))
        self.shapes = []

    def convert_reference(self, *a):
        pass

    def get_elevations(self, world_x, world_y, world_proj=None):
        self.shapes.append(np.shape(world_x))
        x, y = np.asarray(world_x, dtype=float), np.asarray(world_y, dtype=float)
        if world_proj is not None and world_proj.crs.is_geographic:
            x, y = Transformer.from_proj(world_proj, proj('utm18n'), always_xy=True).transform(x, y)
        return self.fn(np.asarray(x) - X0, np.asarray(y) - Y0) + 0.0 * x

    def get_highest_alt(self):
        return self.hi

    def get_lowest_alt(self):
        return self.lo

    def get_mean_alt(self):
        return (self.lo + self.hi) / 2


TERRAIN = {
    'flat': (lambda x, y: 0 * x + 40.0, 40.0, 40.0, 'exact'),
    'tilted': (lambda x, y: 60.0 + 0.05 * x - 0.08 * y, -200.0, 300.0, 'exact'),
    'hill': (lambda x, y: 90.0 * np.exp(-((x - 60) ** 2 + (y - 90) ** 2) / (2 * 90.0 ** 2)), 0.0, 90.0, 'smooth'),
    'wall': (lambda x, y: np.where(np.abs(x - 50) < 45, 70.0, 10.0), 10.0, 70.0, 'rough'),
    'ridges': (lambda x, y: 50.0 * (1 + np.cos(x / 40.0)) * 0.5 + 20 * (1 + np.sin(y / 55.0)), 0.0, 90.0, 'smooth'),
    'thin': (lambda x, y: np.where(np.abs(x * 0.8 + y * 0.6 - 30) < 3.6, 60.0, 0.0), 0.0, 60.0, 'rough'),
    'fences': (lambda x, y: np.where(((x * 0.6 - y * 0.8) % 50.0) < 6.3, 35.0, 5.0), 5.0, 35.0, 'rough'),
    'terraces': (lambda x, y: np.floor((x + y) / 120.0) * 10.0 + 30, -400.0, 400.0, 'rough'),
    'basin': (lambda x, y: -60.0 * np.exp(-((x - 30) ** 2 + (y - 50) ** 2) / (2 * 110.0 ** 2)), -60.0, 0.0, 'smooth'),
}


def camera(om, ph, ka, z=700.0):
    s = dict(X=X0, Y=Y0, Z=z, omega=om, phi=ph, kappa=ka, f=0.0123, nx=640, ny=480, px=7.5e-6, py=6.25e-6, flip_x=False, flip_y=True)
    k = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X0, Y0, z, proj('utm18n'), om, ph, ka, 640, 480, 7.5, 6.25, 12.3,
                                                               flip_x=False, flip_y=True)
    return s, k


PIX = [(0.0, 0.0), (639.0, 0.0), (0.0, 479.0), (639.0, 479.0), (320.0, 240.0), (100.5, 400.25), (501.0, 33.0), (320.0, 241.0)]


def verify(c, who, dem, kind, step, pix, lon, lat, alt, ref, cam, ptol):
    """lon/lat/alt in UTM metres"""
    for k, (x, y) in enumerate(pix):
        p = (float(lon[k]), float(lat[k]), float(alt[k]))
        c.require(all(math.isfinite(v) for v in p), '%s: pixel (%s, %s) has no intersection: %s', who, x, y, p)
        rx, ry = ref(*p)
        c.require(abs(rx - x) <= ptol and abs(ry - y) <= ptol, '%s: the point for pixel (%s, %s) is seen at (%.4f, %.4f)', who, x, y, rx, ry)
        z = float(dem.get_elevations(np.array([p[0]]), np.array([p[1]]))[0])
        run = math.hypot(p[0] - cam[0], p[1] - cam[1])
        drop = cam[2] - p[2]
        slope = drop / max(run, 1e-9)       # descent per horizontal metre
        if kind == 'exact':
            c.require(abs(z - p[2]) < 1e-3, '%s: altitude %s but the terrain there is %s', who, p[2], z)
        elif kind == 'smooth':
            c.require(abs(z - p[2]) < 0.012 * step * step + 1e-3, '%s: altitude %s but the terrain there is %s', who, p[2], z)
        # nothing above the ray further than one sample before the point, except for less than one sample
        n = int(run / step * 16) + 1
        top = dem.get_highest_alt()
        t0 = max(0.0, (cam[2] - (top + 1.0)) / max(drop, 1e-9))
        t = np.linspace(t0, 1.0, max(int(n * (1 - t0)), 2) + 1)
        gx, gy = cam[0] + (p[0] - cam[0]) * t, cam[1] + (p[1] - cam[1]) * t
        above = dem.get_elevations(gx, gy) > cam[2] - drop * t + 1e-6
        above &= (1 - t) * run > step * 1.02 + 0.05
        if above.any():
            best = cur = 0
            for v in above:
                cur = cur + 1 if v else 0
                best = max(best, cur)
            width = best * (t[1] - t[0]) * run
            c.require(width <= step * 1.1 + 0.1, '%s: pixel (%s, %s): the terrain rises above the ray for %.2f m before the returned point', who, x, y, width)
        if kind == 'rough':
            # the terrain crosses the ray within one sample of the returned point
            lo = np.linspace(-1.05, 1.05, 65) * step
            ux, uy = ((p[0] - cam[0]) / run, (p[1] - cam[1]) / run) if run > 1e-6 else (1.0, 0.0)
            d = dem.get_elevations(p[0] + ux * lo, p[1] + uy * lo) - (p[2] - slope * lo)
            if run > 1e-3:
                c.require(d.min() <= 1e-3 and d.max() >= -1e-3, '%s: pixel (%s, %s): no terrain within a sample of the returned point', who, x, y)


@CHECK.scenario(bound=(2, 4))
def pinhole_rays(c):
    """rays over planes and steps against the closed-form intersection"""
    tk = c.choose('terrain', list(TERRAIN))
    om, ph = c.choose('tilt', [(0.0, 0.0), (0.3, 0.0), (-0.5, 0.2), (0.1, -0.6)])
    ka = c.vary('kappa', [0.4, 0.0, math.pi / 2, -2.5])
    step = c.vary('sample', [None, 1.0, 20.0, 40.0, 0.3])
    form = c.vary('form', ['1d', '2d', 'one', 'row', 'column', 'reversed', '2dF', 'both F', 'strided', 'int', 'float32'])
    alts = c.vary('altitude limits', ['default', 'given', 'wider', 'highest only', 'lowest only', 'unknown to the dem'])
    out = c.vary('world', ['none', 'native', 'lonlat'])
    fn, lo, hi, kind = TERRAIN[tk]
    dem = ask = FnDem(fn, lo, hi)
    if alts == 'unknown to the dem':
        lo = 0.0 if lo >= 0 else lo
        ask = FnDem(fn, float('nan'), float('nan'))
    s, k = camera(om, ph, ka)
    pix = [(float(round(x)), float(round(y))) for x, y in PIX] if form == 'int' else PIX[:1] if form == 'one' else (PIX[::-1] if form == 'reversed' else PIX)
    sh = {'1d': (8,), '2d': (2, 4), '2dF': (2, 4), 'both F': (4, 2), 'strided': (4, 2), 'int': (2, 4), 'float32': (8,), 'one': (1,), 'row': (1, 8), 'column': (8, 1), 'reversed': (8,)}[form]
    px = np.array([p[0] for p in pix]).reshape(sh)
    py = np.array([p[1] for p in pix]).reshape(sh)
    if form == '2dF':
        px = np.asfortranarray(px)
    elif form == 'both F':
        px, py = np.asfortranarray(px), np.asfortranarray(py)
    elif form == 'strided':
        px, py = layout(px, 'reversed'), layout(py, 'strided')
    elif form in ('int', 'float32'):
        px, py = px.astype(form), py.astype(form)
    kw = {}
    if step is not None:
        kw['dem_sample_distance'] = step
    if alts in ('given', 'highest only', 'wider', 'unknown to the dem'):
        kw['dem_highest_alt'] = hi + (50 if alts == 'wider' else 0)
    if alts in ('given', 'lowest only', 'wider', 'unknown to the dem'):
        kw['dem_lowest_alt'] = lo - (50 if alts == 'wider' else 0)
    if out != 'none':
        kw['world_proj'] = proj('utm18n' if out == 'native' else 'lonlat')
    keep = px.copy(), py.copy()
    lon, lat, alt = c.op('rays', k.pixel_x_y_to_lon_lat_alt, px, py, ask, **kw)
    c.same(px, keep[0], 'caller pixels')
    c.same(py, keep[1], 'caller pixels')
    for v in (lon, lat, alt):
        c.require(np.shape(v) == sh, 'shape %s for pixels %s', np.shape(v), sh)
    c.observe(tk, lon, lat, alt)
    lon, lat, alt = [np.asarray(v, dtype=float).ravel() for v in (lon, lat, alt)]
    if out == 'lonlat':
        lon, lat = Transformer.from_proj(proj('lonlat'), proj('utm18n'), always_xy=True).transform(lon, lat)
    verify(c, 'pinhole', dem, kind, step or 5.0, pix, lon, lat, alt, lambda *p: zoo.ref_pinhole(s, *p), (X0, Y0, 700.0), 0.05)


@CHECK.scenario(bound=(9, 9))
def constant_and_geotiff(c):
    """terrain from the library itself; flat and planar terrain has a closed form"""
    what = c.choose('dem', ['constant', 'plane file', 'plane file int', 'plane lonlat file'])
    model = c.choose('model', ['pinhole', 'pinhole_flip', 'opencv', 'pix4d', 'pix4d_plain', 'model0', 'model1', 'model2', 'rpc'])
    if model == 'rpc' and what != 'constant':
        what = 'constant'
    m = zoo.build(model)
    form = c.choose('form', ['1d', '2d', 'one'])
    step = c.choose('sample', [None, 2.0])
    e = c.choose('base', [0, 12.5, -30.0])
    if what == 'constant':
        dem = DemFactory.constant_elevation(e)
        plane = lambda x, y: 0 * x + e
        tol = 1e-6
    else:
        f = os.path.join(c.dir(), 'd.tif')
        if what == 'plane lonlat file':
            la0 = Transformer.from_proj(proj('utm18n'), proj('lonlat'), always_xy=True).transform(X0, Y0)
            g = [la0[0] - 0.02, 0.001, 0, la0[1] + 0.02, 0, -0.001]
            a = 40.0 + e + 0.5 * np.arange(40)[None, :, None] + 0.0 * np.arange(40)[:, None, None]
            ImageFactory.geotiff.from_numpy_array(a, g, proj('lonlat')).write_to_disk(f)
            tr = Transformer.from_proj(proj('utm18n'), proj('lonlat'), always_xy=True)
            plane = lambda x, y: 40.0 + e + 0.5 * (tr.transform(x, y)[0] - g[0]) / 0.001
            tol = 1e-2
        else:
            g = [X0 - 2000, 40.0, 0, Y0 + 2000, 0, -40.0]
            a = 50.0 + e + 1.0 * np.arange(100)[None, :, None] - 2.0 * np.arange(100)[:, None, None] + 100
            if what.endswith('int'):
                a = np.floor(a).astype('int16')
            a0 = float(a[0, 0, 0])
            ImageFactory.geotiff.from_numpy_array(a, g, proj('utm18n')).write_to_disk(f)
            plane = lambda x, y: a0 + (x - g[0]) / 40.0 - 2.0 * (g[3] - y) / 40.0
            tol = 1e-3
        dem = c.op('open', DemFactory.from_gtiff_file, f)
    pts = m.pts
    xs, ys = m.refs([(a, b, 30.0 if m.name != 'rpc' else 180.0) for a, b, _ in pts])
    n = 1 if form == 'one' else len(pts)
    sh = {'1d': (n,), '2d': (3, n // 3), 'one': (1,)}[form]
    kw = {} if step is None else {'dem_sample_distance': step}
    if m.band is not None:
        kw['band'] = m.band
    lon, lat, alt = c.op('rays', m.calc.pixel_x_y_to_lon_lat_alt, xs[:n].reshape(sh), ys[:n].reshape(sh), dem, **kw)
    for v in (lon, lat, alt):
        c.require(np.shape(v) == sh, 'shape %s for pixels %s', np.shape(v), sh)
    lon, lat, alt = [np.asarray(v, dtype=float).ravel() for v in (lon, lat, alt)]
    z = plane(lon, lat)
    c.same(alt, z, 'altitude of the intersection', atol=tol)
    rx, ry = m.refs(list(zip(lon, lat, alt)))
    c.same(rx, xs[:n], 'pixel x of the intersection', atol=0.05)
    c.same(ry, ys[:n], 'pixel y of the intersection', atol=0.05)


@CHECK.scenario(bound=(9, 9))
def degrees(c):
    """a sensor model in degrees samples the terrain at the same distance in metres"""
    m = zoo.build('rpc')
    step = c.choose('sample', [None, 20.0, 2.0])
    wave = c.choose('terrain', ['flat', 'ridge', 'steps'])
    lon0, lat0 = m.pts[2][:2]
    mx = 111320.0 * math.cos(math.radians(lat0))
    my = 110990.0

    def fn(lon, lat):
        x, y = (lon - lon0) * mx, (lat - lat0) * my
        return {'flat': 0 * x + 150.0, 'ridge': 100.0 + 80.0 * (1 + np.cos((x + y) / 60.0)) / 2,
                'steps': 100.0 + 30.0 * (np.floor((x - y) / 200.0) % 3)}[wave]

    class D(FnDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            c.require(world_proj is not None and world_proj.crs.is_geographic, 'the DEM is asked in the projection of the sensor model')
            return fn(np.asarray(world_x), np.asarray(world_y))
    dem = D(None, 100.0 if wave != 'flat' else 150.0, {'flat': 150.0, 'ridge': 180.0, 'steps': 160.0}[wave])
    xs, ys = m.refs([(a, b, 140.0) for a, b, _ in m.pts])
    kw = {} if step is None else {'dem_sample_distance': step}
    lon, lat, alt = c.op('rays', m.calc.pixel_x_y_to_lon_lat_alt, xs, ys, dem, **kw)
    d = step or 5.0
    z = fn(lon, lat)
    if wave != 'steps':
        c.same(alt, z, 'altitude of the intersection', atol=0.012 * d * d + 1e-3)
    rx, ry = m.refs(list(zip(lon, lat, alt)))
    c.same(rx, xs, 'pixel x of the intersection', atol=0.05)
    c.same(ry, ys, 'pixel y of the intersection', atol=0.05)


@CHECK.scenario(bound=(9, 9))
def looks(c):
    """a sensor model in degrees that looks along a meridian or a parallel: narrow fences are found there as well"""
    look = c.choose('look', ['ns', 'ew', 'both'])
    step = c.choose('sample', [None, 20.0, 2.0, 0.4])
    wave = c.choose('terrain', ['fences', 'ridges'])
    s = zoo.rpc_look(look)
    calc = zoo.rpc_calc(s)
    d = step or 5.0
    lon0, lat0 = s['lon_off'] + 0.01, s['lat_off'] - 0.02
    mx, my = 111320.0 * math.cos(math.radians(lat0)) * 1.0013, 111020.0

    def fn(x, y):
        u = {'ns': y, 'ew': x, 'both': 0.62 * x + 0.78 * y}[look]
        if wave == 'ridges':
            return 3.0 * d * (1 + np.cos(u / (12 * d))) + 100.0
        return np.where(u % (13 * d) < 1.19 * d, 135.0, 100.0)

    class D(FnDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            c.require(world_proj is not None and world_proj.crs.is_geographic, 'the DEM is asked in the projection of the sensor model')
            return fn((np.asarray(world_x) - lon0) * mx, (np.asarray(world_y) - lat0) * my)
    top = 135.0 if wave == 'fences' else 100.0 + 6 * d
    dem = D(None, 100.0, top)
    metric = FnDem(lambda x, y: fn(x + X0, y + Y0), 100.0, top)
    k = np.arange(40)
    ref = lambda lo, la, al: zoo.ref_rpc(s, lo, la, al)
    xs, ys = ref(lon0 + 37.3 * d * np.sin(k * 1.7) / mx, lat0 + 31.7 * d * np.cos(k * 2.3) / my, 100.0)
    kw = {} if step is None else {'dem_sample_distance': step}
    lon, lat, alt = c.op('rays', calc.pixel_x_y_to_lon_lat_alt, xs, ys, dem, **kw)
    hx, hy = calc.pixel_x_y_alt_to_lon_lat(xs, ys, top + 1.0, pixel_error_threshold=1e-5)
    gx, gy, hx, hy = (lon - lon0) * mx, (lat - lat0) * my, (hx - lon0) * mx, (hy - lat0) * my
    for j in range(len(k)):
        verify(c, look, metric, 'rough' if wave == 'fences' else 'smooth', d, [(xs[j], ys[j])], gx[j:j + 1], gy[j:j + 1], alt[j:j + 1],
               lambda x, y, z: ref(lon0 + x / mx, lat0 + y / my, z), (hx[j], hy[j], top + 1.0), 0.05 if d < 6 else 0.3)


@CHECK.scenario(bound=(9, 9))
def long_rays(c):
    """rays of thousands of samples: the distance between them stays"""
    om, ph = c.choose('tilt', [(0.9, 0.0), (-0.6, 0.8), (0.0, -1.0)])
    step = c.choose('sample', [None, 1.0, 0.3])
    deep = c.choose('lowest altitude', [0.0, -3000.0])
    wave = c.choose('terrain', ['fences', 'tilted', 'ridges'])
    d = step or 5.0
    z = 3000.0 if d > 0.5 else 700.0
    top = 2000.0 if d > 0.5 else 600.0
    s, k = camera(om, ph, 0.4, z)
    fn = {'fences': lambda x, y: np.where(np.hypot(x, y) % (31 * d) < 1.2 * d, 9.0 * d, 2.0),
          'tilted': lambda x, y: 300.0 + 0.01 * x - 0.02 * y, 'ridges': lambda x, y: 3.0 * d * (1 + np.cos(x / (12 * d)))}[wave]
    dem = FnDem(fn, 0.0, top)
    pix = [(320.0, 240.0), (10.0, 470.0), (333.25, 100.5), (600.0, 240.0)]
    lon, lat, alt = c.op('rays', k.pixel_x_y_to_lon_lat_alt, np.array([p[0] for p in pix]), np.array([p[1] for p in pix]), dem,
                         dem_highest_alt=top, dem_lowest_alt=deep, **({} if step is None else {'dem_sample_distance': step}))
    verify(c, 'long ray', dem, {'fences': 'rough', 'tilted': 'exact', 'ridges': 'smooth'}[wave], d, pix, lon, lat, alt,
           lambda *p: zoo.ref_pinhole(s, *p), (X0, Y0, z), 0.05)


@CHECK.scenario(bound=(9, 9))
def many_rays(c):
    """a call with many pixels gives each of them its own intersection"""
    tk = c.choose('terrain', ['flat', 'tilted', 'ridges'])
    om, ph = c.choose('tilt', [(0.0, 0.0), (0.3, -0.2)])
    sh = c.choose('shape', [(1031,), (33, 32), (5003,), (70, 71)])
    fn, lo, hi, kind = TERRAIN[tk]
    dem = FnDem(fn, lo, hi)
    s, k = camera(om, ph, 0.4)
    n = int(np.prod(sh))
    i = np.arange(n)
    px = (640 * ((i * 0.6180339887498949) % 1.0)).reshape(sh)
    py = (480 * ((i * 0.7548776662466927) % 1.0)).reshape(sh)
    keep = px.copy(), py.copy()
    lon, lat, alt = c.op('rays', k.pixel_x_y_to_lon_lat_alt, px, py, dem)
    c.same(px, keep[0], 'caller pixels')
    c.same(py, keep[1], 'caller pixels')
    for v in (lon, lat, alt):
        c.require(np.shape(v) == sh, 'shape %s for pixels %s', np.shape(v), sh)
    z = fn(np.asarray(lon) - X0, np.asarray(lat) - Y0)
    c.same(alt, z, 'altitude of the intersections', atol=1e-3 if kind == 'exact' else 0.012 * 25 + 1e-3)
    r = [zoo.ref_pinhole(s, *p) for p in zip(*[np.ravel(v).tolist() for v in (lon, lat, alt)])]
    c.same(np.array([v[0] for v in r]).reshape(sh), px, 'pixel x of the intersections', atol=0.05)
    c.same(np.array([v[1] for v in r]).reshape(sh), py, 'pixel y of the intersections', atol=0.05)
