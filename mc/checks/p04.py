"""pixel + altitude -> ground inverts ground -> pixel for every sensor model"""
import numpy as np
from pyproj import Transformer

from mc import zoo
from mc.core import Check
from mc.checks.p03 import custom, world_of
from mc.util import layout, proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import \
    AbstractEarthOverheadPointCalc

CHECK = Check('P04', 'pixel to ground inversion', [
    'start position within the camera footprint scale; cameras within 45 degrees of nadir; altitudes below the camera',
    'the solver is only required to meet the pixel threshold it was given (plus rounding)'])

NAMES = [n for n in zoo.NAMES if n != 'igm']
SHAPES = {'1d': (12,), '2d': (3, 4), 'col': (12, 1), '1d1': (1,), '2dF': (3, 4), '2dstrided': (4, 3)}


def invert(c, m, form, world, altk, thr, tag=''):
    pts = m.pts
    if altk == 'scalar':
        pts = [(a, b, m.pts[0][2]) for a, b, _ in pts]
    px, py = m.refs(pts)
    lon, lat, alt = [np.array([p[k] for p in pts], dtype=float) for k in range(3)]
    wp = world_of(world, m)
    kw = {} if m.band is None else {'band': m.band}
    if wp is not None:
        kw['world_proj'] = wp
    if thr is not None:
        kw['pixel_error_threshold'] = thr
    lim = (0.01 if thr is None else thr)
    if m.native_inverse:
        lim = 1e-6

    def back(lo, la):
        lo, la = np.atleast_1d(np.asarray(lo, dtype=float)), np.atleast_1d(np.asarray(la, dtype=float))
        if world in ('4326', '3857'):
            lo, la = Transformer.from_proj(wp, m.proj, always_xy=True).transform(lo, la)
        return lo, la

    def verify(lo, la, x, y, al):
        lo, la = back(np.ravel(lo), np.ravel(la))
        rx, ry = m.refs(list(zip(lo, la, np.ravel(al))))
        slack = 1e-4 if world in ('4326', '3857') else 1e-6
        c.same(rx, np.ravel(x), '%s%s: reprojected x within %g pixel' % (tag, m.name, lim), atol=lim + slack)
        c.same(ry, np.ravel(y), '%s%s: reprojected y within %g pixel' % (tag, m.name, lim), atol=lim + slack)

    if form == 'float':
        for k in range(0, 12, 3):
            r = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, float(px[k]), float(py[k]), float(alt[k]), **kw)
            c.require(np.ndim(r[0]) == 0, '%s%s: scalar in, shape %s out', tag, m.name, np.shape(r[0]))
            verify(r[0], r[1], px[k], py[k], alt[k])
        return
    sh = SHAPES[form]
    n = int(np.prod(sh))
    x, y, al = [v[:n].reshape(sh).copy() for v in (px, py, alt)]
    if form == '2dF':
        x, y, al = np.asfortranarray(x), y, np.asfortranarray(al)
    elif form == '2dstrided':
        x, y, al = layout(x, 'reversed'), layout(y, 'strided'), layout(al, 'F')
    keep = [v.copy() for v in (x, y, al)]
    r = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, x, y, float(alt[0]) if altk == 'scalar' else al, **kw)
    c.require(np.shape(r[0]) == sh and np.shape(r[1]) == sh, '%s%s: shape %s for input %s', tag, m.name, np.shape(r[0]), sh)
    verify(r[0], r[1], x, y, al)
    for v, k in zip((x, y, al), keep):
        c.same(v, k, '%s%s: caller array changed' % (tag, m.name))


@CHECK.scenario(bound=(9, 9))
def inversion(c):
    """ground -> pixel -> ground of every model, call form, projection and accuracy"""
    m = zoo.build(c.choose('model', NAMES))
    form = c.choose('form', ['float'] + list(SHAPES))
    world = c.choose('world', ['none', 'same', '4326', '3857'])
    altk = c.choose('alts', ['array', 'scalar'])
    thr = c.choose('threshold', [None, 1e-5, 0.3])
    invert(c, m, form, world, altk, thr)


@CHECK.scenario(bound=(9, 9))
def start_positions(c):
    """convergence does not depend on where the approximate centre lies"""
    m = zoo.build(c.choose('model', [n for n in NAMES if n != 'geotiff']))
    dx = c.choose('dx', [0.0, -60.0, 45.0, 0.3])
    dy = c.choose('dy', [0.0, 80.0, -35.0, 0.7])
    s = 1e-5 if m.proj_key == 'lonlat' else 1.0
    lo, la = m.calc.get_approximate_lon_lat_center()
    m.calc.set_approximate_lon_lat_center(lo + dx * s, la + dy * s)
    c.same(m.calc.get_approximate_lon_lat_center(), (lo + dx * s, la + dy * s), 'approximate centre')
    invert(c, m, c.choose('form', ['1d', '2d', 'float']), 'none', 'array', c.choose('threshold', [None, 1e-4]))


@CHECK.scenario(bound=(9, 9))
def cameras(c):
    """pinhole cameras over a grid of attitudes, flips and altitudes"""
    s = dict(X=500000.0, Y=4000000.0, Z=1000.0, omega=c.choose('omega', [0.0, 0.35, -0.6]), phi=c.choose('phi', [0.0, -0.3, 0.5]),
             kappa=c.choose('kappa', [0.0, 0.5, np.pi / 2, -np.pi / 2, -2.0, np.pi]), f=0.05, nx=1000, ny=800, px=1e-5, py=8e-6,
             flip_x=c.choose('flip_x', [False, True]), flip_y=c.choose('flip_y', [False, True]))
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
        IdealPinholeFpaLocalUtmPointCalc as P
    calc = P.init_from_local_params(s['X'], s['Y'], s['Z'], proj('utm18n'), s['omega'], s['phi'], s['kappa'], 1000, 800, 10, 8, 50,
                                    flip_x=s['flip_x'], flip_y=s['flip_y'])
    px = np.array([0.0, 999.0, 500.0, 123.4, 0.0, 1000.0])
    py = np.array([0.0, 0.0, 400.0, 700.1, 800.0, 800.0])
    alt = c.choose('alt', [0.0, 600.0, -50.0])
    lo, la = c.op('to ground', calc.pixel_x_y_alt_to_lon_lat, px, py, alt, pixel_error_threshold=1e-3)
    # the true position by intersecting the pixel ray with the altitude plane
    m = np.array(zoo.m_matrix(s['omega'], s['phi'], s['kappa']))
    for k in range(len(px)):
        fx = (px[k] - 500.0) * s['px'] * (-1 if s['flip_x'] else 1)
        fy = (py[k] - 400.0) * s['py'] * (-1 if s['flip_y'] else 1)
        ray = m.T @ np.array([-fx, -fy, s['f']])
        t = (alt - s['Z']) / ray[2]
        c.same([lo[k], la[k]], [s['X'] + t * ray[0], s['Y'] + t * ray[1]], 'ground position of pixel %d' % k, atol=0.02)


@CHECK.scenario(bound=(9, 9))
def many_points(c):
    """calls with many pixels give each of them its own position"""
    m = zoo.build(c.choose('model', NAMES))
    sh = c.choose('shape', [(4099,), (64, 65), (1025, 3), (2, 1003), (70001,)])
    thr = c.choose('threshold', [None, 1e-4])
    pts, px, py = zoo.many(m)
    n = int(np.prod(sh))
    kw = {} if m.band is None else {'band': m.band}
    if thr is not None:
        kw['pixel_error_threshold'] = thr
    x, y, al = [np.resize(np.asarray(v, dtype=float), n).reshape(sh) for v in (px, py, [p[2] for p in pts])]
    lo, la = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, x, y, al, **kw)
    c.require(np.shape(lo) == sh and np.shape(la) == sh, '%s: shape %s for input %s', m.name, np.shape(lo), sh)
    lo, la = np.ravel(lo), np.ravel(la)
    lim = 1e-6 if m.native_inverse else 0.01 if thr is None else thr
    k = np.arange(0, n, 1 if n < 10000 else 7)
    rx, ry = m.refs(list(zip(lo[k], la[k], al.ravel()[k])))
    c.same(rx, x.ravel()[k], '%s: reprojected x of many pixels' % m.name, atol=lim + 1e-6)
    c.same(ry, y.ravel()[k], '%s: reprojected y of many pixels' % m.name, atol=lim + 1e-6)


@CHECK.scenario(bound=(9, 9))
def projections(c):
    """worlds without an EPSG code on either side"""
    m, lon, lat, alt, back, kw, acc = custom(c)
    form = c.choose('form', ['1d', '2d', 'scalar'])
    px, py = m.refs(m.pts)
    if m.name == 'igm':
        return
    lim = (1e-6 if m.native_inverse else 0.01) + acc
    if form == 'scalar':
        for k in range(0, 12, 3):
            lo, la = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, float(px[k]), float(py[k]), float(alt[k]), **kw)
            x, y = m.refs([back(float(lo), float(la)) + (alt[k],)])
            c.same([x[0], y[0]], [px[k], py[k]], m.name + ': reprojected pixel', atol=lim)
        return
    sh = (12,) if form == '1d' else (4, 3)
    lo, la = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, px.reshape(sh), py.reshape(sh), alt.reshape(sh), **kw)
    c.require(np.shape(lo) == sh and np.shape(la) == sh, '%s: shape %s for input %s', m.name, np.shape(lo), sh)
    lo, la = back(np.ravel(lo), np.ravel(la))
    x, y = m.refs(list(zip(lo, la, alt)))
    c.same(x, px, m.name + ': reprojected x', atol=lim)
    c.same(y, py, m.name + ': reprojected y', atol=lim)


class Own(AbstractEarthOverheadPointCalc):
    """a sensor model as a user would write one: ground to pixel only"""

    def __init__(self, kind, key):
        super().__init__()
        self.kind, self.calls = kind, 0
        self.x0, self.y0, self.s = (500321.0, 4423117.0, 0.5) if key == 'utm18n' else (-75.0, 40.0, 5e-6)
        self.set_projection(proj(key))
        self.set_approximate_lon_lat_center(self.x0, self.y0)

    def fn(self, x, y, z):
        u, v = (x - self.x0) / self.s, (y - self.y0) / self.s
        if self.kind == 'affine':
            return 300 + 0.8 * u + 0.3 * v + 0.05 * z, 200 - 0.9 * v + 0.2 * u - 0.1 * z
        if self.kind == 'swapped':
            return 300 + 1.1 * v, 200 + 0.7 * u + 0.02 * z
        w = 1 + 2e-4 * u - 3e-4 * v + 1e-4 * z
        if self.kind == 'projective':
            return (300 + u + 0.1 * v) / w, (200 - v) / w
        return 300 + u + 1e-4 * u * v, 200 - v + 5e-5 * u * u + 0.01 * z

    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        self.calls += 1
        return self.fn(lons, lats, alts)

    def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
        return None


OWN = [(300.0, 200.0), (310.25, 190.0), (420.0, 333.5), (150.0, 80.0), (300.0, 0.0), (555.5, 201.0)]


@CHECK.scenario(bound=(9, 9))
def own_models(c):
    """a user's model that only knows ground to pixel, and how long the solver may take"""
    key = c.choose('world', ['utm18n', 'lonlat'])
    k = Own(c.choose('kind', ['affine', 'swapped', 'projective', 'curved']), key)
    thr = c.choose('threshold', [None, 1e-6, 1.0])
    iters = c.choose('iterations', [None, 1, 2, 25])
    form = c.choose('form', ['1d', '2d', 'float', 'one'])
    alt = c.choose('alt', [0.0, 35.0, 'each'])
    off = c.choose('start', [0.0, 60.0])
    k.set_approximate_lon_lat_center(k.x0 + off * k.s, k.y0 - 0.5 * off * k.s)
    kw = {}
    if thr is not None:
        kw['pixel_error_threshold'] = thr
    if iters is not None:
        kw['max_iter'] = iters
    pts = OWN[:1] if form == 'one' else OWN
    x, y = [np.array([p[j] for p in pts]) for j in range(2)]
    al = np.linspace(-20.0, 60.0, len(pts)) if alt == 'each' else np.full(len(pts), alt)
    sh = (2, 3) if form == '2d' else (len(pts),)
    if form == 'float':
        got = [c.op('to ground', k.pixel_x_y_alt_to_lon_lat, float(x[j]), float(y[j]), float(al[j]), **kw) for j in range(len(pts))]
        lo, la = [np.array([float(g[j]) for g in got]) for j in range(2)]
    else:
        lo, la = c.op('to ground', k.pixel_x_y_alt_to_lon_lat, x.reshape(sh), y.reshape(sh), al.reshape(sh) if alt == 'each' else alt, **kw)
        c.require(np.shape(lo) == sh and np.shape(la) == sh, 'shape %s for input %s', np.shape(lo), sh)
    if iters is None or iters == 25 or k.kind in ('affine', 'swapped'):
        # one step is enough for a linear model
        rx, ry = k.fn(np.ravel(lo), np.ravel(la), al)
        lim = (0.01 if thr is None else thr) + 1e-5
        c.same(rx, x, 'reprojected x', atol=lim)
        c.same(ry, y, 'reprojected y', atol=lim)


@CHECK.scenario(bound=(9, 9))
def never_close_enough(c):
    """an accuracy that cannot be met ends after the iterations allowed"""
    key = c.choose('world', ['utm18n', 'lonlat'])
    k = Own(c.choose('kind', ['projective', 'curved']), key)
    iters = c.choose('iterations', [1, 4, 16, 64])
    thr = c.choose('threshold', [-1.0, 'nan'])
    x, y = [np.array([p[j] for p in OWN]) for j in range(2)]
    if thr == 'nan':
        x = x.copy()
        x[2] = np.nan        # a pixel without a position
    c.op('to ground', k.pixel_x_y_alt_to_lon_lat, x, y, 0.0, max_iter=iters, pixel_error_threshold=1e-3 if thr == 'nan' else thr)
    c.require(k.calls <= 8 * iters + 16, 'the model is asked %s times for %s iterations', k.calls, iters)


@CHECK.scenario(bound=(9, 9))
def number_types(c):
    """whole pixels and altitudes given as integers or in single precision are the same pixels and altitudes"""
    m = zoo.build(c.choose('model', NAMES))
    pix = c.choose('pixels', ['float64', 'int64', 'int32', 'uint16', 'float32', 'x int'])
    alt = c.choose('altitudes', ['float64', 'int64', 'int32', 'float32', 'python int', 'numpy int', 'numpy float32'])
    form = c.choose('form', ['1d', '2d', 'F', 'strided', 'one', 'scalar'])
    sh = {'1d': (12,), '2d': (3, 4), 'F': (3, 4), 'strided': (4, 3), 'one': (1,), 'scalar': ()}[form]
    px, py = m.refs(m.pts)
    n = max(int(np.prod(sh)), 1)
    if pix == 'uint16' and (px.min() < 0 or py.min() < 0):
        return
    x, y = np.round(px[:n]).reshape(sh), np.round(py[:n]).reshape(sh)
    z = np.round(np.array([p[2] for p in m.pts[:n]], dtype=float)).reshape(sh)
    if alt.startswith(('python', 'numpy')):
        z = np.full(sh, np.round(m.pts[0][2]))
    gx = x.astype('int64' if pix == 'x int' else pix)
    gy = y.astype('float64' if pix == 'x int' else pix)
    gz = {'python int': int, 'numpy int': np.int64, 'numpy float32': np.float32}[alt](np.ravel(z)[0]) if alt.startswith(('python', 'numpy')) else z.astype(alt)
    if sh == ():
        gx, gy = (v.item() if pix in ('float64', 'int64') else v[()] for v in (gx, gy))
        gz = gz.item() if isinstance(gz, np.ndarray) else gz
    if form in ('F', 'strided'):
        gx, gy, gz = [layout(v, form) if isinstance(v, np.ndarray) else v for v in (gx, gy, gz)]
    kw = {} if m.band is None else {'band': m.band}
    lo, la = c.op('to ground', m.calc.pixel_x_y_alt_to_lon_lat, gx, gy, gz, **kw)
    c.require(np.shape(lo) == sh and np.shape(la) == sh, '%s: shape %s for pixels of shape %s', m.name, np.shape(lo), sh)
    rx, ry = m.refs(list(zip(np.ravel(lo).astype(float), np.ravel(la).astype(float), np.ravel(z))))
    lim = 1e-6 if m.native_inverse else 0.01 + 1e-6
    c.same(rx, np.ravel(x), '%s: reprojected x of %s pixels' % (m.name, pix), atol=lim)
    c.same(ry, np.ravel(y), '%s: reprojected y of %s pixels' % (m.name, pix), atol=lim)
