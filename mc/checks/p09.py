"""distortion camera models: Pix4D and OpenCV"""
import math

import numpy as np

from mc import zoo
from mc.core import Check
from mc.util import proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.utils import pix4d_utils

CHECK = Check('P09', 'distortion models', [
    'each interior, exterior and offset parameter varied on its own and in combinations of up to 2 (3 thorough) departures from a generic camera',
    'points in front of the camera, radial distances up to twice the focal length'])

OFFS = [(0, 0, 0), (60, 0, 0), (0, -45, 0), (-80, 70, 12), (33, 21, -8), (-15, -110, 3)]
X0, Y0 = 500321.0, 4423117.0


def arrays():
    return [np.array([o[k] for o in OFFS], dtype=float) + (X0, Y0, 0.0)[k] for k in range(3)]


@CHECK.scenario(bound=(2, 3))
def pix4d(c):
    """Pix4D camera and distortion polynomial against a plain evaluation, each coefficient alone and together"""
    model = c.choose('distortion', ['regular', None])
    rev = c.choose('reverse', ['as built', 'x only', 'y only', 'none'])
    nx, ny = c.vary('npix', [(1280, 960), (640, 700), (1281, 961)])
    F = c.vary('F', [5.5, 3.1])
    Px = c.vary('Px', [2.4, 2.0])
    Py = c.vary('Py', [1.9, 1.5])
    fw = c.vary('fpa_width', [4.8, 6.1])
    fh = c.vary('fpa_height', [3.6, 9.9])
    k = [c.vary('k1', [-0.1, 0.0]), c.vary('k2', [0.12, 0.0]), c.vary('k3', [0.05, 0.0, -0.3])]
    t = [c.vary('t1', [0.001, 0.0, 0.02]), c.vary('t2', [-0.0007, 0.0, 0.03])]
    att = c.vary('attitude', [(2.0, -3.0, 75.0), (0.0, 0.0, 0.0), (-8.0, 6.0, -170.0)])
    Z = c.vary('Z', [300.0, 150.0, 45.0])
    key = c.vary('key', ['/data/set 1/IMG_1.tif', 'IMG_1.tif'])
    R = np.array(zoo.m_matrix(*[math.radians(a) for a in att]))
    params = {'IMG_1.tif': dict(camera_rotation_r=R.copy(), external_params=[X0, Y0, Z] + list(att), n_x_pixels=nx, n_y_pixels=ny,
                                internal_params=dict(F=F, Px=Px, Py=Py, fpa_width_mm=fw, fpa_height_mm=fh),
                                tangential_distortion=np.array(t), radial_distortion=np.array(k)),
              'IMG_2.tif': dict(camera_rotation_r=np.eye(3), external_params=[0.0] * 6, n_x_pixels=1, n_y_pixels=1,
                                internal_params=dict(F=1.0, Px=1.0, Py=1.0, fpa_width_mm=1.0, fpa_height_mm=1.0),
                                tangential_distortion=np.zeros(2), radial_distortion=np.zeros(3)),
              'projection': proj('utm18n')}
    kw = {} if model == 'regular' and key == 'IMG_1.tif' else {'distortion_model': model}
    calc = c.op('init', Pix4dPointCalc.init_from_params, key, params, **kw)
    other = c.op('init', Pix4dPointCalc.init_from_params, 'IMG_2.tif', params)
    ppm = nx / fw
    s = dict(t=(X0, Y0, Z), R=R.tolist(), nx=nx, ny=ny, cx=Px * ppm, cy=Py * ppm, f=F * ppm, k=k, p=t, model=model, rev_x=True, rev_y=True)
    if rev == 'x only':
        calc.reverse_y_pixels = s['rev_y'] = False
    elif rev == 'y only':
        calc.reverse_x_pixels = s['rev_x'] = False
    elif rev == 'none':
        calc.reverse_x_pixels = calc.reverse_y_pixels = s['rev_x'] = s['rev_y'] = False
    lo, la, al = arrays()
    x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al)
    w = np.array([zoo.ref_pix4d(s, *p) for p in zip(lo, la, al)])
    c.same(x, w[:, 0], 'pixel x', atol=1e-5)
    c.same(y, w[:, 1], 'pixel y', atol=1e-5)
    c.same(calc.get_approximate_lon_lat_center(), (X0, Y0), 'approximate centre')
    c.require(calc.get_projection().srs == proj('utm18n').srs, 'projection')
    # the two halves of the model compose, world coordinates reach the image through the camera frame
    cam = c.op('camera frame', calc.world_to_camera_coordinates, np.array([lo, la, al]))
    c.same(cam, R @ np.array([lo - X0, la - Y0, al - Z]), 'camera coordinates', atol=1e-6)
    full = c.op('explicit', calc.world_xyzs_to_pixel_locations, lo, la, al, distortion_model=model,
                reverse_y_pixels=s['rev_y'], reverse_x_pixels=s['rev_x'])
    c.same(np.array(full), w.T, 'explicit call', atol=1e-5)
    und = dict(s, model=None)
    plain = c.op('undistorted', calc.world_xyzs_to_pixel_locations, lo, la, al, distortion_model=None,
                 reverse_y_pixels=s['rev_y'], reverse_x_pixels=s['rev_x'])
    c.same(np.array(plain), np.array([zoo.ref_pix4d(und, *p) for p in zip(lo, la, al)]).T, 'without distortion', atol=1e-5)
    c.same(params['IMG_1.tif']['camera_rotation_r'], R, 'parameters changed')


@CHECK.scenario(bound=(2, 3))
def opencv(c):
    """OpenCV camera and distortion polynomial against a plain evaluation, each coefficient alone and together"""
    P = dict(fx_pixels=c.vary('fx', [1500.0, 900.0]), fy_pixels=c.vary('fy', [1420.0, 2000.0]), cx_pixels=c.vary('cx', [655.5, 0.0]),
             cy_pixels=c.vary('cy', [470.25, 512.0]), k1=c.vary('k1', [-0.11, 0.0, 0.4]), k2=c.vary('k2', [0.07, 0.0]),
             k3=c.vary('k3', [0.03, 0.0]), p1=c.vary('p1', [0.002, 0.0, 0.03]), p2=c.vary('p2', [-0.003, 0.0, 0.02]),
             pixel_pitch_microns=c.vary('pitch', [3.75, 9.0]),
             x_offset_meters=c.vary('dx', [0.3, 0.0, -20.0]), y_offset_meters=c.vary('dy', [-0.7, 0.0, 20.0]),
             z_offset_meters=c.vary('dz', [1.1, 0.0, -20.0]), omega_offset_radians=c.vary('do', [0.011, 0.0, 0.3]),
             phi_offset_radians=c.vary('dp', [-0.017, 0.0, 0.2]), kappa_offset_radians=c.vary('dk', [0.02, 0.0, 1.5]))
    given = c.vary('offsets', ['own', 'all zero', 'angles zero', 'positions zero'])
    if given in ('all zero', 'positions zero'):
        P.update(x_offset_meters=0.0, y_offset_meters=0.0, z_offset_meters=0.0)
    if given in ('all zero', 'angles zero'):
        P.update(omega_offset_radians=0.0, phi_offset_radians=0.0, kappa_offset_radians=0.0)
    ext = (X0, Y0, c.vary('Z', [400.0, 250.0, 55.0]), c.vary('omega', [0.05, -0.2]), c.vary('phi', [0.03, 0.25]), c.vary('kappa', [-0.6, 2.9]))
    order = c.choose('order', ['params then pose', 'pose twice', 'pieces', 'everything twice'])
    if order in ('pieces', 'everything twice'):
        calc = OpenCVPointCalc()
        if order == 'everything twice':
            calc = c.op('init', OpenCVPointCalc.init_from_params, dict(dict.fromkeys(P, 0.01), fx_pixels=300.0, fy_pixels=410.0, x_offset_meters=2.0))
            c.op('extrinsic', calc.init_extrinsic, 1.0, 2.0, 3.0, 0.4, 0.5, 0.6)
        c.op('extrinsic', calc.init_extrinsic, *ext)
        c.op('offsets', calc.init_offsets, P['x_offset_meters'], P['y_offset_meters'], P['z_offset_meters'], P['omega_offset_radians'],
             P['phi_offset_radians'], P['kappa_offset_radians'])
        c.op('intrinsic', calc.init_intrinsic, P['fx_pixels'], P['fy_pixels'], P['cx_pixels'], P['cy_pixels'], P['k1'], P['k2'], P['k3'],
             P['p1'], P['p2'], P['pixel_pitch_microns'])
        calc.set_projection(proj('utm18n'))
    else:
        calc = c.op('init', OpenCVPointCalc.init_from_params, dict(P))
        if order == 'pose twice':
            c.op('extrinsic', calc.init_extrinsic, 1.0, 2.0, 3.0, 0.4, 0.5, 0.6)
        c.op('extrinsic', calc.init_extrinsic, *ext)
    s = dict(X=X0, Y=Y0, Z=ext[2], omega=ext[3], phi=ext[4], kappa=ext[5], d_omega=P['omega_offset_radians'],
             d_phi=P['phi_offset_radians'], d_kappa=P['kappa_offset_radians'],
             offset=(P['x_offset_meters'], P['y_offset_meters'], P['z_offset_meters']), fx=P['fx_pixels'], fy=P['fy_pixels'],
             cx=P['cx_pixels'], cy=P['cy_pixels'], k1=P['k1'], k2=P['k2'], k3=P['k3'], p1=P['p1'], p2=P['p2'])
    lo, la, al = arrays()
    x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al)
    w = np.array([zoo.ref_opencv(s, *p) for p in zip(lo, la, al)])
    c.same(x, w[:, 0], 'pixel x', atol=1e-5)
    c.same(y, w[:, 1], 'pixel y', atol=1e-5)
    x1, y1 = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, float(lo[3]), float(la[3]), float(al[3]))
    c.same([x1, y1], w[3], 'one point', atol=1e-5)
