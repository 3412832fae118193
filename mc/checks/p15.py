"""which pixels are hidden by terrain"""
import math

import numpy as np
from pyproj import Transformer

from mc import zoo
from mc.core import Check
from mc.checks.p12 import FnDem, X0, Y0, camera
from mc.util import proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import \
    EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.photogrammetry import ortho_tools

CHECK = Check('P15', 'occlusion by terrain', [
    'terrain: flat, tilted, one wall in any of 8 directions, a hill; pinhole cameras and an RPC model, three cameras of one band each; resolutions 1 to 20 m',
    'ground positions whose sight line passes within one resolution step of the edge of the terrain are not judged'])


def picture(calc):
    md = PhysicalCameraMetadata()
    md.set_npix_x(640)
    md.set_npix_y(480)
    md.set_n_bands(1)
    return PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(np.zeros((480, 640, 1), 'uint8'), md, calc)


def judge(c, got, fn, pts, cam, top, step, what):
    """pts: ground (x, y, z) in metres; sight line to cam sampled finely"""
    for (x, y, z), g in zip(pts, np.asarray(got).ravel()):
        d = math.hypot(cam[0] - x, cam[1] - y)
        tmax = min((top + 0.001 - z) / (cam[2] - z), 1.0)
        run = d * tmax
        n = max(int(run / step * 40), 2)
        t = np.linspace(0, tmax, n + 1)[1:]
        h = fn(x + (cam[0] - x) * t, y + (cam[1] - y) * t) - (z + (cam[2] - z) * t)
        above = h > 1e-6
        longest = cur = 0
        for v in above:
            cur = cur + 1 if v else 0
            longest = max(longest, cur)
        width = longest * run / n
        if width > step * 1.05:
            c.require(g == 1, '%s: the ground at (%.1f, %.1f) is hidden for %.1f m of its sight line but reported visible', what, x - X0, y - Y0, width)
        elif not (h > -1e-6).any():
            c.require(g == 0, '%s: the ground at (%.1f, %.1f) sees the camera but is reported hidden', what, x - X0, y - Y0)


def terrain(kind):
    if kind == 'flat':
        return (lambda x, y: 0.0 * x + 20.0), 20.0, 20.0
    if kind == 'tilted':
        return (lambda x, y: 60.0 + 0.05 * (x - X0) - 0.08 * (y - Y0)), -300.0, 400.0
    if kind == 'hill':
        return (lambda x, y: 10 + 220.0 * np.exp(-((x - X0 - 90) ** 2 + (y - Y0 - 60) ** 2) / (2 * 50.0 ** 2))), 10.0, 230.0
    if kind == 'kerbs':
        return (lambda x, y: np.where(((x - X0) * 0.6 + (y - Y0) * 0.8) % 90 < 12, 4.0, 0.0)), 0.0, 4.0
    if kind == 'fence':
        return (lambda x, y: np.where(np.abs((x - X0) * 0.8 - (y - Y0) * 0.6 - 60) < 3.5, 15.0, 2.0)), 2.0, 15.0
    a = math.radians(45 * int(kind[4:]))
    u, v = math.cos(a), math.sin(a)

    def wall(x, y):
        s = (x - X0) * u + (y - Y0) * v
        return np.where((s > 90) & (s < 140), 160.0, 5.0)
    return wall, 5.0, 160.0


@CHECK.scenario(bound=(2, 3))
def hidden(c):
    """walls and steps on the sight line against a walk along it by hand"""
    kind = c.choose('terrain', ['flat', 'tilted', 'hill', 'kerbs', 'fence'] + ['wall%d' % k for k in range(8)])
    om, ph = c.choose('tilt', [(0.0, 0.0), (0.3, -0.2), (-0.4, 0.1)])
    step = c.vary('resolution', [None, 1.0, 2.5, 20.0])
    form = c.vary('form', ['2d', '1d', 'one', 'int pixels', '2dF'])
    alts = c.vary('altitudes', ['dem', 'given'])
    ka = c.vary('kappa', [0.2, math.pi / 2, -2.0])
    z = c.vary('height', [700.0, 90.0, 30.0])
    if z < 100 and (om, ph) != (0.0, 0.0) or z < 100 and kind not in ('kerbs', 'fence', 'flat'):
        return
    s, calc = camera(om, ph, ka, z)
    fn, lo, hi = terrain(kind)
    dem = FnDem(lambda x, y: fn(x + X0, y + Y0), lo, hi)
    gx, gy = np.meshgrid(np.linspace(-280, 280, 15) * (0.45 if z < 100 else 1), np.linspace(-280, 280, 14) * (0.45 if z < 100 else 1))
    gx, gy = gx + X0 + 0.7, gy + Y0 - 1.3
    gz = fn(gx, gy)
    px, py = zoo.ref_pinhole(s, gx, gy, gz)
    if form == 'int pixels':
        px, py = np.round(px).astype(int), np.round(py).astype(int)
        # ground positions of whole pixels
        gx2, gy2 = calc.pixel_x_y_alt_to_lon_lat(px.astype(float), py.astype(float), np.full(px.shape, 20.0), pixel_error_threshold=1e-6)
        if kind != 'flat':
            return
        gx, gy, gz = gx2, gy2, fn(gx2, gy2)
    sh = {'2d': gx.shape, '2dF': gx.shape, '1d': (gx.size,), 'one': (1,), 'int pixels': gx.shape}[form]
    if form == 'one':
        k = 100
        px, py, gx, gy, gz = [v.ravel()[k:k + 1] for v in (px, py, gx, gy, gz)]
    px, py, gx, gy, gz = [v.reshape(sh) for v in (px, py, gx, gy, gz)]
    if form == '2dF':
        px, gx, gz = [np.asfortranarray(v) for v in (px, gx, gz)]
    keep = [v.copy() for v in (px, py, gx, gy, gz)]
    kw = {}
    if step is not None:
        kw['dem_resolution'] = step
    if alts == 'given':
        kw['alts'] = gz
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, picture(calc), px, py, gx, gy, dem, **kw)
    c.require(np.shape(got) == sh, 'shape of the mask %s', np.shape(got))
    c.require(set(np.unique(got)) <= {0, 1}, 'values of the mask')
    for v, w in zip((px, py, gx, gy, gz), keep):
        c.same(v, w, 'caller arrays')
    judge(c, got, fn, list(zip(gx.ravel(), gy.ravel(), gz.ravel())), (X0, Y0, z), hi, step or 5.0, kind)
    if kind == 'flat':
        c.require(not np.any(got), 'flat terrain hides nothing')


@CHECK.scenario(bound=(9, 9))
def degrees(c):
    """a sensor model in degrees: distances along the sight line are still metres"""
    look = c.choose('look', ['slanted', 'ns', 'ew'])
    kind = c.choose('terrain', ['flat', 'walls', 'ramp', 'fences'])
    step = c.choose('resolution', [None, 2.0, 0.5])
    s = zoo.rpc_look(look)
    calc = zoo.rpc_calc(s)
    lon0, lat0 = s['lon_off'], s['lat_off']
    cx, cy = {'slanted': (0.6, 0.8), 'ns': (0.0, 1.0), 'ew': (1.0, 0.0)}[look]
    mx, my = 111320.0 * math.cos(math.radians(lat0)), 110990.0

    def fn(lon, lat):
        x, y = (np.asarray(lon) - lon0) * mx, (np.asarray(lat) - lat0) * my
        s = x * cx + y * cy
        return {'flat': 0 * s + 150.0, 'walls': np.where((s % 400) < 60, 480.0, 100.0), 'fences': np.where((s % 150) < 6.5, 480.0, 100.0), 'ramp': 150.0 + 0.01 * s}[kind]

    class D(FnDem):
        def get_elevations(self, world_x, world_y, world_proj=None):
            c.require(world_proj is None or world_proj.crs.is_geographic, 'projection of the question')
            return fn(world_x, world_y)
    top = {'flat': 150.0, 'walls': 480.0, 'fences': 480.0, 'ramp': 400.0}[kind]
    dem = D(None, 100.0 if kind != 'flat' else 150.0, top)
    dem.set_projection(proj('lonlat'))
    ii = np.linspace(-700, 700, 24)
    lon, lat = lon0 + cx * ii / mx, lat0 + cy * ii / my
    z = fn(lon, lat)
    px, py = zoo.ref_rpc(s, lon, lat, z)
    kw = {} if step is None else {'dem_resolution': step}
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, picture(calc), px, py, lon, lat, dem, **kw)
    hx, hy = calc.pixel_x_y_alt_to_lon_lat(px, py, top + 0.001, pixel_error_threshold=1e-5)
    d = step or 5.0
    for k in range(len(ii)):
        if top + 0.001 - z[k] < 1:
            continue
        run = math.hypot((hx[k] - lon[k]) * mx, (hy[k] - lat[k]) * my)
        n = max(int(run / d * 40), 2)
        t = np.linspace(0, 1, n + 1)[1:]
        h = fn(lon[k] + (hx[k] - lon[k]) * t, lat[k] + (hy[k] - lat[k]) * t) - (z[k] + (top + 0.001 - z[k]) * t)
        longest = cur = 0
        for v in (h > 1e-6):
            cur = cur + 1 if v else 0
            longest = max(longest, cur)
        if longest * run / n > d * 1.1:
            c.require(got[k] == 1, 'the ground at %.0f m is hidden but reported visible', ii[k])
        elif not (h > -1e-6).any():
            c.require(got[k] == 0, 'the ground at %.0f m sees the camera but is reported hidden', ii[k])
    if kind == 'walls':
        c.require(0 < got.sum() < len(got), 'some ground is hidden by walls and some is not: %s', got)


@CHECK.scenario(bound=(9, 9))
def many(c):
    """a call with many ground positions judges each of them"""
    kind = c.choose('terrain', ['flat', 'hill', 'wall1', 'wall6', 'fence', 'kerbs'])
    sh = c.choose('shape', [(1031,), (70, 61), (4111,), (1, 1100)])
    low = kind in ('fence', 'kerbs')
    z = 30.0 if low else 700.0
    s, calc = camera(0.0 if low else 0.3, 0.0 if low else -0.2, 0.2, z)
    fn, lo, hi = terrain(kind)
    dem = FnDem(lambda x, y: fn(x + X0, y + Y0), lo, hi)
    n = int(np.prod(sh))
    k = np.arange(n)
    r = 126 if low else 280
    gx = X0 - r + 2 * r * ((k * 0.6180339887498949) % 1.0)
    gy = Y0 - r + 2 * r * ((k * 0.7548776662466927) % 1.0)
    gz = fn(gx, gy)
    px, py = zoo.ref_pinhole(s, gx, gy, gz)
    px, py, gx, gy, gz = [v.reshape(sh) for v in (px, py, gx, gy, gz)]
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, picture(calc), px, py, gx, gy, dem)
    c.require(np.shape(got) == sh, 'shape of the mask %s', np.shape(got))
    judge(c, got, fn, list(zip(gx.ravel(), gy.ravel(), gz.ravel())), (X0, Y0, z), hi, 5.0, kind)
    if kind.startswith('wall'):
        c.require(0 < np.sum(got) < n, 'some ground is hidden by the wall and some is not')


@CHECK.scenario(bound=(9, 9))
def off_the_ground(c):
    """positions above or below the terrain: the altitudes given decide, also when all of them are zero"""
    kind = c.choose('terrain', ['flat', 'hill', 'wall2', 'wall5', 'tilted', 'fence'])
    level = c.choose('altitudes', ['zero', 'constant', 'above', 'below', 'at the top', 'integers'])
    om, ph = c.choose('tilt', [(0.0, 0.0), (0.3, -0.2)])
    base, lo, hi = terrain(kind)
    down = 40.0 if level == 'zero' else 0.0
    fn, lo, hi = (lambda x, y: base(x, y) - down), lo - down, hi - down
    s, calc = camera(om, ph, 0.2, 700.0)
    dem = FnDem(lambda x, y: fn(x + X0, y + Y0), lo, hi)
    gx, gy = np.meshgrid(np.linspace(-280, 280, 11) + X0 + 0.7, np.linspace(-280, 280, 10) + Y0 - 1.3)
    g = fn(gx, gy)
    gz = {'zero': 0 * g, 'constant': 0 * g + 15.5, 'above': np.minimum(g + 21.0, hi), 'below': g - 2.5, 'at the top': 0 * g + hi, 'integers': np.ceil(g) + 3}[level]
    if (gz > hi).any():
        return
    px, py = zoo.ref_pinhole(s, gx, gy, gz)
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, picture(calc), px, py, gx, gy, dem,
               alts=gz.astype(int) if level == 'integers' else gz)
    judge(c, got, fn, list(zip(gx.ravel(), gy.ravel(), gz.ravel())), (X0, Y0, 700.0), hi, 5.0, kind + ' ' + level)


@CHECK.scenario(bound=(9, 9))
def bands(c):
    """cameras with one band each: the band asked for decides whose sight lines count"""
    kind = c.choose('terrain', ['flat', 'hill', 'wall2', 'wall5', 'tilted'])
    band = c.choose('band', [0, 1, 2])
    cams = [camera(0.0, 0.0, 0.2, 700.0), camera(0.3, -0.2, -1.1, 500.0), camera(-0.2, 0.35, 2.0, 900.0)]
    m = EarthOverheadSensorModel()
    m._bands_coregistered = False
    for _, k in cams:
        m.add_point_calc(k)
    m.set_projection(proj('utm18n'))
    m.set_approximate_lon_lat_center(X0, Y0)
    md = PhysicalCameraMetadata()
    md.set_npix_x(640)
    md.set_npix_y(480)
    md.set_n_bands(3)
    im = PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(np.zeros((480, 640, 3), 'uint8'), md, m)
    fn, lo, hi = terrain(kind)
    dem = FnDem(lambda x, y: fn(x + X0, y + Y0), lo, hi)
    gx, gy = np.meshgrid(np.linspace(-250, 250, 9) + X0 + 0.7, np.linspace(-250, 250, 8) + Y0 - 1.3)
    gz = fn(gx, gy)
    px, py = zoo.ref_pinhole(cams[band][0], gx, gy, gz)
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, im, px, py, gx, gy, dem, band=band)
    judge(c, got, fn, list(zip(gx.ravel(), gy.ravel(), gz.ravel())), (X0, Y0, (700.0, 500.0, 900.0)[band]), hi, 5.0, kind)


@CHECK.scenario(bound=(9, 9))
def rings(c):
    """walls barely wider than one step, at either end of the sight line and along it"""
    where = c.choose('wall', ['none', 'at the ground', 'first', 'middle', 'late', 'at the top'])
    step = c.choose('resolution', [None, 2.0, 9.0, 0.05])
    d = step or 5.0
    company = c.choose('company', ['alone', 'nearer positions', 'farther positions'])
    w = 1.15 * d
    z, lo, hi, r0 = 30.0, 2.0, 15.0, 100.0
    run = r0 * (hi - lo) / (z - lo)
    at = {'none': None, 'at the ground': 0.02 * d, 'first': 0.6 * d, 'middle': run / 2, 'late': run - 2.2 * d, 'at the top': run - w}[where]
    s, calc = camera(0.0, 0.0, 0.2, z)

    def fn(x, y):
        r = np.hypot(np.asarray(x) - X0, np.asarray(y) - Y0)
        return np.where((r < r0 - at) & (r > r0 - at - w - (d if where == 'at the top' else 0)), hi, lo) if at is not None else lo + 0 * r
    dem = FnDem(lambda x, y: fn(x + X0, y + Y0), lo, hi)
    a, k = np.meshgrid(np.linspace(0, 2 * math.pi, 25), np.linspace(0, 0.01 * d, 3))
    gx, gy = X0 + (r0 + k) * np.cos(a), Y0 + (r0 + k) * np.sin(a)
    if company != 'alone':
        # they walk shorter or longer ways than those in front of the ring
        r = np.linspace(1, 30, 45) if company == 'nearer positions' else np.linspace(130, 170, 45)
        gx, gy = np.concatenate((gx.ravel(), X0 + r * np.cos(r * 7), X0 + r * np.cos(r * 5))), \
            np.concatenate((gy.ravel(), Y0 + r * np.sin(r * 7), Y0 + r * np.sin(r * 5)))
    gz = fn(gx, gy)
    px, py = zoo.ref_pinhole(s, gx, gy, gz)
    got = c.op('obstructed', ortho_tools.are_pixels_obstructed_by_dem, picture(calc), px, py, gx, gy, dem, **({} if step is None else {'dem_resolution': step}))
    judge(c, got, fn, list(zip(gx.ravel(), gy.ravel(), gz.ravel())), (X0, Y0, z), hi, d, 'ring ' + where)
    c.require(np.all(np.ravel(got)[:75] == (0 if where == 'none' else 1)), 'every position in front of a ring sees the same: %s', got)
