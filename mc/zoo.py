"""every sensor model of the library next to an independent scalar reference of its forward map"""
import math

import gdal
import numpy as np
from pyproj import Proj

from mc.util import PROJS

from resippy.image_objects.earth_overhead.geotiff.geotiff_point_calc import GeotiffPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
    IdealPinholeFpaLocalUtmPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import \
    EarthOverheadSensorModel


# ------------------------------------------------------------------ tiny linear algebra in plain python
def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(a, v):
    return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]


def rx(t):
    return [[1.0, 0.0, 0.0], [0.0, math.cos(t), math.sin(t)], [0.0, -math.sin(t), math.cos(t)]]


def ry(t):
    return [[math.cos(t), 0.0, -math.sin(t)], [0.0, 1.0, 0.0], [math.sin(t), 0.0, math.cos(t)]]


def rz(t):
    return [[math.cos(t), math.sin(t), 0.0], [-math.sin(t), math.cos(t), 0.0], [0.0, 0.0, 1.0]]


def m_matrix(omega, phi, kappa, order='rpy'):
    """the first letter of the order is the rotation applied first to a world vector"""
    m = {'r': rx(omega), 'p': ry(phi), 'y': rz(kappa)}
    out = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    for letter in order:
        out = mul(m[letter], out)
    return out


# ------------------------------------------------------------------ references
def ref_affine(geot, lon, lat):
    a, b, c, d, e, f = [float(v) for v in geot]
    det = b * f - c * e
    dx, dy = lon - a, lat - d
    return (f * dx - c * dy) / det, (b * dy - e * dx) / det


def ref_pinhole(s, lon, lat, alt):
    """s: X Y Z omega phi kappa f(m) nx ny pitchx pitchy(m) flipx flipy"""
    m = m_matrix(s['omega'], s['phi'], s['kappa'])
    u = apply(m, [lon - s['X'], lat - s['Y'], alt - s['Z']])
    x = -s['f'] * u[0] / u[2]
    y = -s['f'] * u[1] / u[2]
    if s['flip_x']:
        x = -x
    if s['flip_y']:
        y = -y
    return x / s['px'] + s['nx'] / 2.0, y / s['py'] + s['ny'] / 2.0


def ref_opencv(s, lon, lat, alt):
    fm = m_matrix(s['omega'], s['phi'], s['kappa'])
    bm = m_matrix(s['d_omega'], s['d_phi'], s['d_kappa'])
    off = s['offset']
    cam = [s['X'] + sum(off[k] * fm[k][0] for k in range(3)), s['Y'] + sum(off[k] * fm[k][1] for k in range(3)),
           s['Z'] + sum(off[k] * fm[k][2] for k in range(3))]
    u = apply(mul(bm, fm), [lon - cam[0], lat - cam[1], alt - cam[2]])
    x, y = u[0] / u[2], u[1] / u[2]
    r2 = x * x + y * y
    rad = 1 + s['k1'] * r2 + s['k2'] * r2 ** 2 + s['k3'] * r2 ** 3
    xd = x * rad + 2 * s['p1'] * x * y + s['p2'] * (r2 + 2 * x * x)
    yd = y * rad + s['p1'] * (r2 + 2 * y * y) + 2 * s['p2'] * x * y
    return s['fx'] * xd + s['cx'], -s['fy'] * yd + s['cy']


def ref_pix4d(s, lon, lat, alt):
    t = s['t']
    u = apply(s['R'], [lon - t[0], lat - t[1], alt - t[2]])
    x, y = u[0] / u[2], u[1] / u[2]
    px, py = s['cx'], s['cy']
    if s['rev_x']:
        px = s['nx'] - px
    if s['rev_y']:
        py = s['ny'] - py
    if s['model'] == 'regular':
        r2 = x * x + y * y
        rad = 1 + s['k'][0] * r2 + s['k'][1] * r2 ** 2 + s['k'][2] * r2 ** 3
        x, y = (rad * x + 2 * s['p'][0] * x * y + s['p'][1] * (r2 + 2 * x * x),
                rad * y + 2 * s['p'][1] * x * y + s['p'][0] * (r2 + 2 * y * y))
    xd, yd = -s['f'] * x + px, -s['f'] * y + py
    if s['rev_y']:
        yd = s['ny'] - yd
    if s['rev_x']:
        xd = s['nx'] - xd
    return xd, yd


def rpc_terms(L, P, H):
    """RPC00B monomials in their published order (longitude, latitude, height)"""
    return [1.0, L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L ** 3, L * P * P, L * H * H, L * L * P,
            P ** 3, P * H * H, L * L * H, P * P * H, H ** 3]


def ref_rpc(s, lon, lat, alt):
    t = rpc_terms((lon - s['lon_off']) / s['lon_scale'], (lat - s['lat_off']) / s['lat_scale'],
                  (alt - s['h_off']) / s['h_scale'])
    dot = lambda co: sum(a * b for a, b in zip(co, t))
    return (dot(s['sn']) / dot(s['sd']) * s['s_scale'] + s['s_off'] + 0.5,
            dot(s['ln']) / dot(s['ld']) * s['l_scale'] + s['l_off'] + 0.5)


def ref_igm(lons, lats, lon, lat):
    ny, nx = lons.shape
    cand = sorted((math.hypot(lons[j, i] - lon, lats[j, i] - lat), j, i) for j in range(ny) for i in range(nx))
    best = cand[:6]
    w = [1.0 / (1e-8 if d <= 1e-8 else d) for d, j, i in best]
    return (sum(a * i for a, (d, j, i) in zip(w, best)) / sum(w), sum(a * j for a, (d, j, i) in zip(w, best)) / sum(w))


# ------------------------------------------------------------------ builders
class Model(object):
    def __init__(self, name, calc, ref, proj_key, pts, tol, native_inverse, band=None):
        self.name, self.calc, self.ref, self.proj_key = name, calc, ref, proj_key
        self.pts = pts              # [(lon, lat, alt)] in the native projection, all well inside the model
        self.tol = tol              # pixel tolerance of the comparison
        self.native_inverse = native_inverse
        self.band = band
        self.proj = Proj(PROJS[proj_key], preserve_units=True)

    def refs(self, pts):
        r = [self.ref(*p) for p in pts]
        return np.array([a for a, b in r]), np.array([b for a, b in r])


def many(m, n=997):
    """n positions between those of the model, no two alike, and their pixels"""
    pts = []
    for k in range(n):
        u, v = (k * 0.6180339887498949) % 1.0, (k * 0.7548776662466927) % 1.0
        p, q, r = m.pts[k % len(m.pts)], m.pts[(5 * k + 3) % len(m.pts)], m.pts[(k // 12 + 7) % len(m.pts)]
        w = (1 - u, u * (1 - v), u * v)
        pts.append(tuple(w[0] * p[j] + w[1] * q[j] + w[2] * r[j] for j in range(3)))
    x, y = m.refs(pts)
    return pts, np.asarray(x, dtype=float), np.asarray(y, dtype=float)


def ground(x0, y0, z, d, k):
    """k x k-1 well spread points around a centre with varying altitude"""
    out = []
    for j in range(k - 1):
        for i in range(k):
            out.append((x0 + d * (i - (k - 1) / 2.0) * 1.3 + 0.37 * d, y0 + d * (j - (k - 2) / 2.0) - 0.21 * d,
                        z + ((3 * i + 5 * j) % 4) * d * 0.05))
    return out


def build(name):
    x0, y0 = 500321.0, 4423117.0
    if name == 'geotiff':
        g = [x0, 1.5, 0.4, y0, 0.3, -1.25]
        c = GeotiffPointCalc()
        c.set_geot(g)
        c.set_npix_x(40)
        c.set_npix_y(30)
        c.set_projection(Proj(PROJS['utm18n'], preserve_units=True))
        return Model(name, c, lambda lo, la, al: ref_affine(g, lo, la), 'utm18n', ground(x0 + 20, y0 - 10, 0.0, 10, 4), 1e-6, True)
    if name in ('pinhole', 'pinhole_flip'):
        fl = name.endswith('flip')
        s = dict(X=x0, Y=y0, Z=812.5, omega=0.11, phi=-0.07, kappa=1.3 if fl else 0.4, f=0.0123, nx=640, ny=480, px=7.5e-6,
                 py=6.25e-6, flip_x=fl, flip_y=not fl)
        c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(
            s['X'], s['Y'], s['Z'], Proj(PROJS['utm18n'], preserve_units=True), s['omega'], s['phi'], s['kappa'],
            s['nx'], s['ny'], 7.5, 6.25, 12.3, flip_x=s['flip_x'], flip_y=s['flip_y'])
        return Model(name, c, lambda lo, la, al: ref_pinhole(s, lo, la, al), 'utm18n', ground(x0 + 40, y0 + 60, 12.0, 25, 4), 1e-5, False)
    if name == 'opencv':
        s = dict(X=x0, Y=y0, Z=400.0, omega=0.05, phi=0.03, kappa=-0.6, d_omega=0.011, d_phi=-0.017, d_kappa=0.02,
                 offset=(0.3, -0.7, 1.1), fx=1500.0, fy=1420.0, cx=655.5, cy=470.25, k1=-0.11, k2=0.07, k3=0.03, p1=0.002, p2=-0.003)
        c = OpenCVPointCalc.init_from_params(dict(
            fx_pixels=s['fx'], fy_pixels=s['fy'], cx_pixels=s['cx'], cy_pixels=s['cy'], k1=s['k1'], k2=s['k2'], k3=s['k3'],
            p1=s['p1'], p2=s['p2'], pixel_pitch_microns=3.75, x_offset_meters=0.3, y_offset_meters=-0.7, z_offset_meters=1.1,
            omega_offset_radians=0.011, phi_offset_radians=-0.017, kappa_offset_radians=0.02))
        c.init_extrinsic(s['X'], s['Y'], s['Z'], s['omega'], s['phi'], s['kappa'])
        c.set_projection(Proj(PROJS['utm18n'], preserve_units=True))
        c.set_approximate_lon_lat_center(x0, y0)
        return Model(name, c, lambda lo, la, al: ref_opencv(s, lo, la, al), 'utm18n', ground(x0 + 10, y0 + 20, 5.0, 15, 4), 1e-5, False)
    if name in ('pix4d', 'pix4d_plain'):
        model = 'regular' if name == 'pix4d' else None
        om, ph, ka = 3.0, -2.0, 75.0
        R = mul(rz(math.radians(20)), mul(ry(math.radians(ph)), rx(math.radians(om))))
        s = dict(t=(x0, y0, 300.0), R=R, nx=1280, ny=960, cx=2.4 * 1280 / 4.8, cy=1.9 * 1280 / 4.8, f=5.5 * 1280 / 4.8,
                 k=(-0.1, 0.12, 0.05), p=(0.001, -0.0007), model=model, rev_x=True, rev_y=True)
        allp = {'IMG_0001_1.tif': dict(camera_rotation_r=np.array(R), external_params=[x0, y0, 300.0, om, ph, ka],
                                       n_x_pixels=1280, n_y_pixels=960,
                                       internal_params=dict(F=5.5, Px=2.4, Py=1.9, fpa_width_mm=4.8, fpa_height_mm=3.6),
                                       tangential_distortion=np.array(s['p']), radial_distortion=np.array(s['k'])),
                'projection': Proj(PROJS['utm18n'], preserve_units=True)}
        c = Pix4dPointCalc.init_from_params('/data/IMG_0001_1.tif', allp, distortion_model=model)
        return Model(name, c, lambda lo, la, al: ref_pix4d(s, lo, la, al), 'utm18n', ground(x0 + 5, y0 + 8, 3.0, 12, 4), 1e-5, False)
    if name == 'rpc':
        s = rpc_params()
        c = rpc_calc(s)
        pts = [(s['lon_off'] + 0.2 * a * s['lon_scale'], s['lat_off'] + 0.15 * b * s['lat_scale'], 180.0 + 40 * d)
               for a, b, d in [(-2, 1, 0), (-1, -2, 1), (0, 0, 2), (1, 2, 3), (2, -1, 1), (1.5, 0.5, 0), (-0.5, 2, 2), (0.7, -1.6, 3),
                               (-1.2, 0.1, 1), (0.1, 1.1, 0), (1.9, 1.9, 2), (-2, -2, 1)]]
        return Model(name, c, lambda lo, la, al: ref_rpc(s, lo, la, al), 'lonlat', pts, 1e-5, False)
    if name == 'igm':
        jj, ii = np.mgrid[0:7, 0:9].astype(float)
        lons = x0 + 2.0 * ii + 0.3 * jj + 0.05 * ii * jj
        lats = y0 - 1.7 * jj + 0.21 * ii + 0.03 * ii * ii
        alts = 10.0 + jj - ii
        c = IGMPointCalc(lons, lats, alts, Proj(PROJS['utm18n'], preserve_units=True))
        pts = [(lons[j, i] + dx, lats[j, i] + dy, 0.0) for j, i, dx, dy in
               [(1, 1, .31, .17), (2, 5, -.4, .23), (3, 3, 0, 0), (5, 7, .11, -.37), (4, 2, .5, .5), (0, 0, -.2, .1), (6, 8, .3, -.3),
                (2, 2, .7, -.2), (3, 6, -.15, -.45), (1, 4, .05, .33), (5, 1, -.61, .07), (4, 4, 0, 0)]]
        return Model(name, c, lambda lo, la, al: ref_igm(lons, lats, lo, la), 'utm18n', pts, 1e-5, True)
    if name.startswith('model'):
        b = int(name[5:])
        c = EarthOverheadSensorModel()
        subs = [build('pinhole'), build('opencv'), build('pix4d')]
        for q in subs:
            c.add_point_calc(q.calc)
        c.set_projection(Proj(PROJS['utm18n'], preserve_units=True))
        c.set_approximate_lon_lat_center(x0, y0)
        return Model(name, c, subs[b].ref, 'utm18n', subs[b].pts, 1e-5, False, band=b)
    raise KeyError(name)


NAMES = ['geotiff', 'pinhole', 'pinhole_flip', 'opencv', 'pix4d', 'pix4d_plain', 'rpc', 'igm', 'model0', 'model1', 'model2']


def rpc_params(k=0):
    """all twenty terms of all four polynomials are present, none of them degenerate"""
    w = lambda seed, i: (((i * 37 + seed * 101 + 13) % 41) - 20) / 20.0
    sn = [0.01, 1.0, -0.13, 0.07] + [4e-4 * w(1 + k, i) for i in range(4, 20)]
    sd = [1.0, 0.004, -0.003, 0.002] + [3e-5 * w(2 + k, i) for i in range(4, 20)]
    ln = [-0.02, 0.11, -1.0, -0.05] + [4e-4 * w(3 + k, i) for i in range(4, 20)]
    ld = [1.0, -0.002, 0.005, 0.001] + [3e-5 * w(4 + k, i) for i in range(4, 20)]
    return dict(sn=sn, sd=sd, ln=ln, ld=ld, s_scale=8192.0, s_off=8190.5, l_scale=7000.0, l_off=6999.25, lat_scale=0.081,
                lat_off=39.0521, lon_scale=0.1143, lon_off=-77.0712, h_scale=350.0, h_off=210.0)


def rpc_look(look):
    """a scene seen from due north or south ('ns'), or due east or west ('ew')"""
    s = rpc_params()
    if look == 'ns':
        s['sn'][3], s['ln'][3] = -0.0065, -0.05
    elif look == 'ew':
        s['sn'][3], s['ln'][3] = 0.045, 0.00495
    return s


def rpc_calc(s):
    return RPCPointCalc.init_from_coeffs(np.array(s['sn']), np.array(s['sd']), s['s_scale'], s['s_off'], np.array(s['ln']),
                                         np.array(s['ld']), s['l_scale'], s['l_off'], s['lat_scale'], s['lat_off'],
                                         s['lon_scale'], s['lon_off'], s['h_scale'], s['h_off'])


def rpc_gdal_metadata(s):
    j = lambda co: ' '.join('%.17g' % v for v in co)
    return {'SAMP_NUM_COEFF': j(s['sn']), 'SAMP_DEN_COEFF': j(s['sd']), 'LINE_NUM_COEFF': j(s['ln']), 'LINE_DEN_COEFF': j(s['ld']),
            'SAMP_SCALE': repr(s['s_scale']), 'SAMP_OFF': repr(s['s_off']), 'LINE_SCALE': repr(s['l_scale']), 'LINE_OFF': repr(s['l_off']),
            'LAT_SCALE': repr(s['lat_scale']), 'LAT_OFF': repr(s['lat_off']), 'LONG_SCALE': repr(s['lon_scale']),
            'LONG_OFF': repr(s['lon_off']), 'HEIGHT_SCALE': repr(s['h_scale']), 'HEIGHT_OFF': repr(s['h_off'])}
