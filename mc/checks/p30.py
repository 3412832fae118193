"""simulated images of a camera over a geotiff"""
import math
import os

import gdal
import numpy as np
import osr
from pyproj import Proj, Transformer
from scipy.ndimage import map_coordinates, maximum_filter

from mc import zoo
from mc.core import Check
from mc.util import PROJS, proj
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator

CHECK = Check('P30', 'camera simulator', [
    'cameras of up to 96x70 pixels over geotiffs of 60x50 to 90x70 pixels, ground at altitude zero; projections in metres for the camera',
    'spline interpolation of scipy is trusted; pixels less than two source pixels from the border of the geotiff are not judged'])

X0, Y0 = 500321.0, 4423117.0
LEN = {'meters': 1.0, 'feet': 0.3048, 'kilometers': 1000.0, 'mm': 1e-3, 'micrometer': 1e-6, 'cm': 1e-2, 'inch': 0.0254}
ANG = {'radians': 1.0, 'degrees': math.pi / 180, 'milliradian': 1e-3}


def content(kind, ny, nx, dt, salt=0):
    y, x = np.mgrid[0:ny, 0:nx].astype(float)
    if kind == 'ramp':
        v = 20 + 1.25 * x + 0.9 * y + salt * 13
    elif kind == 'waves':
        v = 120 + 50 * np.sin(x / 5.0 + salt) + 40 * np.cos(y / 4.0)
    else:
        v = np.where(((x // 9) + (y // 8) + salt) % 2 == 0, 255.0, 0.0)
    return np.round(v).astype(dt) if np.dtype(dt).kind in 'iu' else v.astype(dt)


GEOTS = {'north up': (0.0, 2.0, 0.0, 0.0, 0.0, -2.0), 'rotated': (-20.0, 1.7, 0.4, 10.0, 0.5, -1.9), 'shifted': (31.5, 2.0, 0.0, 17.25, 0.0, -2.0), 'fine': (33.0, 0.9, 0.0, -27.0, 0.0, -1.1)}


def write(path, bands, geot, p):
    ny, nx = bands[0].shape
    typ = {'u1': gdal.GDT_Byte, 'u2': gdal.GDT_UInt16, 'i2': gdal.GDT_Int16, 'f4': gdal.GDT_Float32, 'f8': gdal.GDT_Float64}[bands[0].dtype.str[1:]]
    d = gdal.GetDriverByName('GTiff').Create(path, nx, ny, len(bands), typ)
    d.SetGeoTransform(geot)
    s = osr.SpatialReference()
    s.ImportFromProj4(PROJS[p])
    d.SetProjection(s.ExportToWkt())
    for k, b in enumerate(bands):
        d.GetRasterBand(k + 1).WriteArray(b)
    d = None


def ground(s, x, y):
    """position on the plane of altitude zero seen by a pixel"""
    xi, yi = (x - s['nx'] / 2.0) * s['px'], (y - s['ny'] / 2.0) * s['py']
    M = s['M']
    u = [-xi / s['f'], yi / s['f'], 1.0]    # the y axis of the detector is flipped
    d = [sum(M[k][j] * u[k] for k in range(3)) for j in range(3)]
    t = -s['Z'] / d[2]
    return s['X'] + t * d[0], s['Y'] + t * d[1]


def expected(s, data, geot, gp, wp):
    """value per pixel and whether it is judged; outside is nan"""
    tr = None if gp == wp else Transformer.from_crs(PROJS[wp], PROJS[gp], always_xy=True)
    gx, gy = np.zeros((s['ny'], s['nx'])), np.zeros((s['ny'], s['nx']))
    for y in range(s['ny']):
        for x in range(s['nx']):
            w = ground(s, x, y)
            if tr:
                w = tr.transform(*w)
            gx[y, x], gy[y, x] = zoo.ref_affine(geot, *w)
    ny, nx = data.shape
    inside = (gx > 2) & (gx < nx - 3) & (gy > 2) & (gy < ny - 3)
    outside = (gx < -2) | (gx > nx + 1) | (gy < -2) | (gy > ny + 1)
    f = data.astype(float)
    v = map_coordinates(f, [gy, gx])
    if data.dtype.kind in 'iu':
        v = np.clip(v, np.iinfo(data.dtype).min, np.iinfo(data.dtype).max)
    gy_, gx_ = np.gradient(f)
    # splines ring around steps
    ring = 1e-3 * maximum_filter(np.hypot(gx_, gy_), 9)[np.clip(np.round(np.nan_to_num(gy)), 0, ny - 1).astype(int), np.clip(np.round(np.nan_to_num(gx)), 0, nx - 1).astype(int)]
    slope = ring + 0.03 * (np.abs(map_coordinates(gy_, [gy, gx], order=1)) + np.abs(map_coordinates(gx_, [gy, gx], order=1))) + (1.01 if data.dtype.kind in 'iu' else 1e-3)
    return v, inside, outside, slope


def compare(c, im, s, want, dt, what):
    v, inside, outside, slope = want
    a = im.get_image_data()
    c.require(isinstance(a, np.ndarray) and a.shape == (s['ny'], s['nx'], 1), '%s: shape %r', what, getattr(a, 'shape', None))
    a = a[:, :, 0].astype(float)
    bad = np.argwhere(inside & (np.abs(a - v) > slope))
    if len(bad):
        y, x = bad[0]
        c.require(False, '%s: %d pixels differ, pixel (%d, %d) is %r, expected %r', what, len(bad), x, y, a[y, x], v[y, x])
    bad = np.argwhere(outside & (a != 0))
    c.require(len(bad) == 0, '%s: %d pixels off the geotiff are not zero', what, len(bad))
    c.observe('judged', int(inside.sum()), int(outside.sum()))


@CHECK.scenario(bound=(2, 3))
def simulate(c):
    """each pixel shows the geotiff where its ray meets the ground"""
    nx, ny = c.vary('camera', [(12, 9), (7, 7), (5, 11), (10, 1), (96, 70)])
    kind = c.vary('content', ['ramp', 'waves', 'blocks'])
    geo = c.choose('geotiff', list(GEOTS))
    dt = c.vary('dtype', ['f4', 'u1', 'f8', 'i2', 'u2'])
    bands = c.vary('bands', [1, 3])
    size = c.vary('size', [(60, 60), (50, 90)])
    gp = c.vary('projection of the geotiff', ['utm18n', 'lonlat', 'merc'])
    wp = c.vary('world projection', ['default', 'given', 'set'])
    att = c.vary('roll pitch yaw', [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (0.0, -5.0, 0.0), (0.0, 0.0, 90.0), (3.0, -2.0, 215.0), (0.3, -0.2, 0.4)])
    au = c.vary('angle units', ['degrees', 'radians', 'milliradian'])
    bore = c.vary('boresight', [(0, 0, 0), (3.0, 0, 0), (0, -4.0, 0), (2.0, 1.0, 30.0), (0, 0, 180.0), (0.45, 0, 0), (0, -0.45, 0), (0.01, -0.008, 0.5)])
    bu = c.vary('boresight units', ['degrees', 'radians'])
    order = c.vary('boresight order', ['default', 'rpy', 'ypr'])
    pitch = c.vary('pitch', [(50.0, 50.0), (50.0, 80.0), (70.0, 50.0)])
    pu = c.vary('pitch units', ['default', 'mm', 'micrometer'])
    f = c.vary('focal length', [20.0, 12.0])
    fu = c.vary('focal units', ['default', 'cm', 'meters'])
    alt = c.vary('altitude', [1000.0, 600.0])
    zu = c.vary('altitude units', ['default', 'feet', 'kilometers'])
    off = c.vary('position', [(0.0, 0.0), (25.0, -30.0), (-50.0, 40.0)])
    if gp == 'lonlat' and wp == 'default':
        wp = 'given'
    d = c.dir()
    fn = os.path.join(d, 'ground.tif')
    g = GEOTS[geo]
    h, w = size
    sy, sx = size
    data = [content(kind, sy, sx, dt, k) for k in range(bands)]
    cx, cy = sx / 2.0, sy / 2.0
    # the middle of the geotiff lies near the nadir point
    x_ul, y_ul = X0 - g[1] * cx - g[2] * cy + g[0] / 4, Y0 - g[4] * cx - g[5] * cy + g[3] / 4
    world = 'utm18n'
    if gp == 'utm18n':
        geot = (x_ul, g[1], g[2], y_ul, g[4], g[5])
    else:
        if wp == 'default':
            world = gp
        tr = Transformer.from_crs(PROJS['utm18n'], PROJS[gp], always_xy=True)
        o, a, b = tr.transform(x_ul, y_ul), tr.transform(x_ul + g[1], y_ul + g[4]), tr.transform(x_ul + g[2], y_ul + g[5])
        geot = (o[0], a[0] - o[0], b[0] - o[0], o[1], a[1] - o[1], b[1] - o[1])
    write(fn, data, geot, gp)
    camx, camy = X0 + off[0], Y0 + off[1]
    if world != 'utm18n':
        camx, camy = Transformer.from_crs(PROJS['utm18n'], PROJS[world], always_xy=True).transform(camx, camy)
    kw = {}
    if wp == 'given':
        kw['world_projection'] = Proj(PROJS['utm18n'], preserve_units=True)
    deg = math.pi / 180
    if bore != (0, 0, 0):
        for k, n in enumerate(('boresight_roll', 'boresight_pitch', 'boresight_yaw')):
            kw[n] = bore[k] * (deg if bu == 'radians' else 1)
    if bu != 'degrees':
        kw['boresight_units'] = bu
    if order != 'default':
        kw['boresight_rpy_order'] = order
    unit = 'micrometer' if pu == 'default' else pu
    kw['pixel_pitch_x'], kw['pixel_pitch_y'] = [p * 1e-6 / LEN[unit] for p in pitch]
    if pu != 'default':
        kw['pixel_pitch_units'] = pu
    if fu != 'default':
        kw['focal_length_units'] = fu
    if zu != 'default':
        kw['external_orientation_spatial_units'] = zu
    if au != 'degrees':
        kw['external_orientation_rpy_units'] = au
    sim = c.op('build', PhysicalCameraSimulator, fn, f * 1e-3 / LEN['mm' if fu == 'default' else fu], nx, ny, **kw)
    if wp == 'set':
        sim.world_projection = Proj(PROJS['utm18n'], preserve_units=True)
    want_world = Proj(PROJS[world], preserve_units=True)
    a = [v * deg / ANG[au] for v in att]
    M = zoo.mul(zoo.m_matrix(*[v * deg for v in bore], 'rpy' if order == 'default' else order), zoo.m_matrix(*[v * deg for v in att]))
    s = dict(X=camx, Y=camy, Z=alt, M=M, f=f * 1e-3, nx=nx, ny=ny, px=pitch[0] * 1e-6, py=pitch[1] * 1e-6)
    im = c.op('simulate', sim.create_overhead_image_object, camx, camy, alt / LEN['meters' if zu == 'default' else zu], *a)
    compare(c, im, s, expected(s, data[0], geot, gp, world), dt, 'image')
    md = im.get_metadata()
    c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (nx, ny, 1), 'metadata')
    # the sensor model of the image agrees with the image
    pc = im.get_point_calculator()
    for x, y in ((0, 0), (nx - 1, ny - 1), (nx // 2, ny // 2)):
        lo, la = ground(s, x, y)
        px, py = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lo, la, 0.0)
        c.same([px, py], [x, y], 'sensor model of the image', atol=1e-4)
    first = im.get_image_data().copy()
    im2 = c.op('simulate again', sim.create_overhead_image_object, camx + 11.0, camy - 7.0, alt / LEN['meters' if zu == 'default' else zu], *a[::-1])
    M2 = zoo.mul(zoo.m_matrix(*[v * deg for v in bore], 'rpy' if order == 'default' else order), zoo.m_matrix(*[v * deg for v in att[::-1]]))
    s2 = dict(s, X=camx + 11.0, Y=camy - 7.0, M=M2)
    compare(c, im2, s2, expected(s2, data[0], geot, gp, world), dt, 'second image')
    c.same(im.get_image_data(), first, 'first image after the second')
    with open(fn, 'rb') as q:
        c.require(len(q.read()) > 0, 'geotiff kept')


@CHECK.scenario(bound=(9, 9))
def flight(c):
    """images of one simulator along a flight of small and large steps, each as if it were the only one"""
    deg = math.pi / 180
    d = c.dir()
    fn = os.path.join(d, 'ground.tif')
    ny, nx = 70, 80
    data = content('waves', ny, nx, 'f8')
    geot = (X0 - nx, 2.0, 0.0, Y0 + ny, 0.0, -2.0)
    write(fn, [data], geot, 'utm18n')
    bore = c.choose('boresight', [(0, 0, 0), (0, 0, 25.0)])
    sim = c.op('build', PhysicalCameraSimulator, fn, 20.0, 9, 8, pixel_pitch_x=50.0, pixel_pitch_y=60.0,
               boresight_roll=bore[0], boresight_pitch=bore[1], boresight_yaw=bore[2])
    st = [0.0, 0.0, 900.0, 1.0, -0.5, 20.0]
    made = []
    for k in range(3):
        step = c.choose('step %d' % k, ['none', 'angle', 'small angle', 'tiny angle', 'metre', 'centimetre', 'climb', 'jump']) if k else 'start'
        move = {'none': (), 'start': (), 'angle': ((3, 0.5), (5, 40.0)), 'small angle': ((3, 0.04), (4, 0.05)), 'tiny angle': ((4, 0.004),), 'metre': ((0, 1.0),),
                'centimetre': ((0, 0.01), (1, -0.02)), 'climb': ((2, 0.5),), 'jump': ((0, 20.0), (1, -15.0), (5, -30.0))}[step]
        for i, v in move:
            st[i] += v
        im = c.op('simulate', sim.create_overhead_image_object, X0 + st[0], Y0 + st[1], *st[2:])
        b = [v + 1e-8 if v == 0 else v for v in bore]
        M = zoo.mul(zoo.m_matrix(*[v * deg for v in b], 'rpy'), zoo.m_matrix(*[v * deg for v in st[3:]]))
        s = dict(X=X0 + st[0], Y=Y0 + st[1], Z=st[2], M=M, f=0.02, nx=9, ny=8, px=50e-6, py=60e-6)
        made.append((im, s, im.get_image_data().copy()))
        compare(c, im, s, expected(s, data, geot, 'utm18n', 'utm18n'), 'f8', 'image %d' % k)
        for im_, s_, a_ in made:
            c.same(im_.get_image_data(), a_, 'images made before')
            pc = im_.get_point_calculator()
            for x, y in ((0, 0), (8, 7)):
                lo, la = ground(s_, x, y)
                px, py = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lo, la, 0.0)
                c.same([px, py], [x, y], 'sensor model of an image', atol=1e-4)
