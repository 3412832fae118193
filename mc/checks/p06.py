"""frame camera geometry: pinhole camera and the camera on a focal plane array"""
import math

import numpy as np
from pyproj import Proj, Transformer

from mc import zoo
from mc.core import Check
from mc.util import proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
    IdealPinholeFpaLocalUtmPointCalc as Fpa
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.utils import proj_utils

CHECK = Check('P06', 'frame camera projection', [
    'attitudes, units, detector shapes and flips from fixed lists; at most the stated number of non-default choices at a time',
    'points in front of the camera'])

LEN = {'meters': 1.0, 'feet': 0.3048, 'kilometers': 1000.0, 'mm': 1e-3, 'millimeters': 1e-3, 'micrometer': 1e-6, 'micron': 1e-6,
       'cm': 1e-2, 'inch': 0.0254, 'nanometer': 1e-9}
ANG = {'radians': 1.0, 'degrees': math.pi / 180, 'milliradian': 1e-3}
PTS = [(0, 0, 0), (100, 0, 0), (0, 100, 0), (-37, 55, 20), (250, -130, -30), (13, -9, 300)]


@CHECK.scenario(bound=(3, 4))
def pinhole(c):
    """pinhole camera against the collinearity equations in every unit and axis flip"""
    X = c.vary('X', [500000.0, 0.0, -1200.0])
    Y = c.vary('Y', [4e6, 0.0, -77.5])
    Z = c.vary('Z', [1000.0, 650.5])
    om = c.vary('omega', [0.0, 0.2, -0.5, 3.0, 3e-4])
    ph = c.vary('phi', [0.0, -0.15, 0.4, -2e-4, 4e-7])
    ka = c.vary('kappa', [0.0, 0.7, -1.4, math.pi / 2, 3.0, 1e-4])
    f = c.vary('focal', [0.05, 0.0001, 1.2, 0.0035712348])
    xu = c.vary('x_units', ['meters', 'feet', 'kilometers'])
    yu = c.vary('y_units', ['meters', 'feet', 'kilometers'])
    zu = c.vary('z_units', ['meters', 'feet', 'kilometers'])
    ou = c.vary('omega_units', list(ANG))
    pu_ = c.vary('phi_units', list(ANG))
    ku = c.vary('kappa_units', list(ANG))
    fu = c.vary('focal_units', ['default', 'mm', 'meters', 'micrometer', 'cm', 'inch'])
    kw = {}
    if fu != 'default':
        kw['focal_length_units'] = fu
    if (xu, yu, zu) != ('meters',) * 3:
        kw.update(x_units=xu, y_units=yu, z_units=zu)
    if (ou, pu_, ku) != ('radians',) * 3:
        kw.update(omega_units=ou, phi_units=pu_, kappa_units=ku)
    cam = PinholeCamera()
    c.op('init', cam.init_pinhole_from_coeffs, X / LEN[xu], Y / LEN[yu], Z / LEN[zu], om / ANG[ou], ph / ANG[pu_], ka / ANG[ku],
         f / LEN['mm' if fu == 'default' else fu], **kw)
    s = dict(X=X, Y=Y, Z=Z, omega=om, phi=ph, kappa=ka, f=f, px=1.0, py=1.0, nx=0, ny=0, flip_x=False, flip_y=False)
    lo, la, al = [np.array([p[k] for p in PTS], dtype=float) + (X, Y, 0)[k] for k in range(3)]
    x, y = c.op('project', cam.world_to_image_plane, lo, la, al)
    want = np.array([zoo.ref_pinhole(s, *p) for p in zip(lo, la, al)])
    c.same(x, want[:, 0], 'image plane x', rtol=1e-8, atol=1e-12)
    c.same(y, want[:, 1], 'image plane y', rtol=1e-8, atol=1e-12)
    for k in range(3):
        xs, ys = c.op('project', cam.world_to_image_plane, lo[k], la[k], al[k])
        c.same([xs, ys], want[k], 'image plane position of one point', rtol=1e-8, atol=1e-12)
    c.same([cam.X, cam.Y, cam.Z, cam.f], [X, Y, Z, f], 'camera state in metres', rtol=1e-12, atol=1e-9)
    # every point of a ray through the perspective centre lands on the same spot, on the far side of the axis
    for t in (0.5, 2.0):
        xs, ys = cam.world_to_image_plane(X + t * (lo - X), Y + t * (la - Y), Z + t * (al - Z))
        c.same(xs, x, 'collinearity x', rtol=1e-6, atol=1e-9)
        c.same(ys, y, 'collinearity y', rtol=1e-6, atol=1e-9)


@CHECK.scenario(bound=(2, 3))
def fpa(c):
    """focal plane camera against the collinearity equations in every unit and axis flip"""
    how = c.choose('init', ['local', 'wgs84'])
    site = c.choose('site', [(-77.3, 38.9), (-68.2, -16.5), (18.4, -33.9), (139.7, 35.7), (-179.5, 52.0), (5.0, 60.3), (10.0, -0.5), (8.9, 79.0)] if how == 'wgs84'
                    else [(500000.0, 4e6), (233456.0, 9e6)])
    om = c.vary('omega', [0.05, -0.4, 0.0, 2e-4])
    ph = c.vary('phi', [0.1, -0.3, 0.0, -1e-4])
    ka = c.vary('kappa', [0.3, 2.5, -1.1, 0.0, 3e-4])
    nx, ny = c.vary('npix', [(640, 480), (100, 700), (33, 57)])
    ppx, ppy = c.vary('pitch', [(7.5, 6.0), (5.0, 5.0), (3.1, 9.9)])
    f = c.vary('focal', [12.0, 50.0, 5.4712345])
    fx = c.vary('flip_x', [False, True])
    fy = c.vary('flip_y', [False, True])
    au = c.vary('alt_units', ['meters', 'feet', 'kilometers'])
    ou = c.vary('omega_units', list(ANG))
    pu_ = c.vary('phi_units', list(ANG))
    ku = c.vary('kappa_units', list(ANG))
    pxu = c.vary('pitch_x_units', ['micrometer', 'mm', 'micron', 'nanometer'])
    pyu = c.vary('pitch_y_units', ['micrometer', 'mm', 'micron', 'nanometer'])
    fu = c.vary('focal_units', ['mm', 'meters', 'inch'])
    kw = dict(alt_units=au, omega_units=ou, phi_units=pu_, kappa_units=ku, pixel_pitch_x_units=pxu, pixel_pitch_y_units=pyu,
              focal_length_units=fu, flip_x=fx, flip_y=fy)
    if c.vary('kwargs', ['given', 'defaults']) == 'defaults':
        defaults = dict(alt_units='meters', omega_units='radians', phi_units='radians', kappa_units='radians',
                        pixel_pitch_x_units='micrometer', pixel_pitch_y_units='micrometer', focal_length_units='mm', flip_x=False, flip_y=False)
        kw = {k: v for k, v in kw.items() if v != defaults[k]}
    Z = 1500.0
    tail = (om / ANG[ou], ph / ANG[pu_], ka / ANG[ku], nx, ny, ppx * 1e-6 / LEN[pxu], ppy * 1e-6 / LEN[pyu], f * 1e-3 / LEN[fu])
    if how == 'local':
        p = proj('utm18n')
        calc = c.op('init', Fpa.init_from_local_params, site[0], site[1], Z / LEN[au], p, *tail, **kw)
        X, Y = site
    else:
        calc = c.op('init', Fpa.init_from_wgs84_params, site[0], site[1], Z / LEN[au], *tail, **kw)
        p = calc.get_projection()
        zone = int((site[0] + 180) // 6) + 1
        if site == (5.0, 60.3):
            zone = 32          # south west Norway
        if site == (8.9, 79.0):
            zone = 31          # Svalbard
        want = Proj('+proj=utm +zone=%d %s +ellps=WGS84 +units=m' % (zone, '+south' if site[1] < 0 else ''))
        X, Y = want(site[0], site[1])
        c.same(p(site[0], site[1]), (X, Y), 'local UTM coordinates of the sensor', atol=1e-4)
        q = c.op('local utm', proj_utils.decimal_degrees_to_local_utm_proj, site[0], site[1])
        c.same(q(site[0], site[1]), (X, Y), 'local UTM projection', atol=1e-4)
    c.same(calc.get_approximate_lon_lat_center(), (X, Y), 'approximate centre', atol=1e-3)
    s = dict(X=X, Y=Y, Z=Z, omega=om, phi=ph, kappa=ka, f=f * 1e-3, px=ppx * 1e-6, py=ppy * 1e-6, nx=nx, ny=ny, flip_x=fx, flip_y=fy)
    lo, la, al = [np.array([q[k] for q in PTS], dtype=float) + (X, Y, 0)[k] for k in range(3)]
    want = np.array([zoo.ref_pinhole(s, *q) for q in zip(lo, la, al)])
    x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al)
    tol = 1e-4 if how == 'local' else 0.05
    c.same(x, want[:, 0], 'pixel x', atol=tol)
    c.same(y, want[:, 1], 'pixel y', atol=tol)
    # the principal ray meets the middle of the detector whatever the flips
    m = np.array(zoo.m_matrix(om, ph, ka))
    axis = -m[2] * (1000.0 / abs(m[2, 2]))
    x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, X + axis[0], Y + axis[1], Z + axis[2])
    c.same([x, y], [nx / 2.0, ny / 2.0], 'principal point', atol=tol)
    ifx, ify = math.atan(ppx * 1e-6 / (f * 1e-3)), math.atan(ppy * 1e-6 / (f * 1e-3))
    c.same(c.op('ifov x', calc.compute_ifov_x), ifx * 1e6, 'ifov x', rtol=1e-9)
    c.same(c.op('ifov y', calc.compute_ifov_y), ify * 1e6, 'ifov y', rtol=1e-9)
    c.same(c.op('ifov x', calc.compute_ifov_x, output_units='degrees'), math.degrees(ifx), 'ifov x in degrees', rtol=1e-9)
    c.same(c.op('ifov y', calc.compute_ifov_y, output_units='degrees'), math.degrees(ify), 'ifov y in degrees', rtol=1e-9)
