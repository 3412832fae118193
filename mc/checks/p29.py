"""MicaSense images: bands, cameras per band, time and place of the exposure"""
import math
import os
import struct
import time
from datetime import datetime, timedelta

import numpy as np
from imageio import imread

from mc import zoo
from mc.core import Check
from mc.util import layout, proj
from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
from resippy.image_objects.earth_overhead.micasense.micasense_metadata import MicasenseMetadata
from mc.checks.p24 import gps_of, posix

CHECK = Check('P29', 'MicaSense images', [
    'band files are TIFF images with Exif and GPS entries written byte by byte in both byte orders; images of 5 bands (1 to 6 from arrays)'])


def ifd(entries, at, e):
    """entries: (tag, type, count, bytes); returns the directory and the data behind it"""
    body, extra = b'', b''
    start = at + 2 + 12 * len(entries) + 4
    for tag, typ, count, raw in sorted(entries):
        if len(raw) <= 4:
            val = raw.ljust(4, b'\0')
        else:
            val = struct.pack(e + 'I', start + len(extra))
            extra += raw + b'\0' * (len(raw) % 2)
        body += struct.pack(e + 'HHI', tag, typ, count) + val
    return struct.pack(e + 'H', len(entries)) + body + struct.pack(e + 'I', 0) + extra


def tiff(path, data, e='<', exif=None, gps=None):
    ny, nx = data.shape
    raw = data.astype(data.dtype.newbyteorder(e)).tobytes()
    short = lambda t, v: (t, 3, 1, struct.pack(e + 'H', v))
    out = {'<': b'II', '>': b'MM'}[e] + struct.pack(e + 'H', 42)
    pos = 8 + len(raw) + len(raw) % 2
    main = [short(256, nx), short(257, ny), short(258, 8 * data.dtype.itemsize), short(259, 1), short(262, 1), (273, 4, 1, struct.pack(e + 'I', 8)),
            short(277, 1), short(278, ny), (279, 4, 1, struct.pack(e + 'I', len(raw)))]
    subs = [(t, s) for t, s in ((0x8769, exif), (0x8825, gps)) if s]
    size = len(ifd(main + [(t, 4, 1, struct.pack(e + 'I', 0)) for t, s in subs], pos, e))
    nxt = pos + size + size % 2
    tail = b''
    for t, s in subs:
        main.append((t, 4, 1, struct.pack(e + 'I', nxt + len(tail))))
        d = ifd(s, nxt + len(tail), e)
        tail += d + b'\0' * (len(d) % 2)
    d = ifd(main, pos, e)
    with open(path, 'wb') as f:
        f.write(out + struct.pack(e + 'I', pos) + raw + b'\0' * (len(raw) % 2) + d + b'\0' * (len(d) % 2) + tail)


def text(tag, s):
    b = s.encode() + b'\0'
    return (tag, 2, len(b), b)


def ratio(tag, vals, e):
    return (tag, 5, len(vals), b''.join(struct.pack(e + 'II', n, d) for n, d in vals))


DMS = {
    'whole': [(44, 1), (58, 1), (30, 1)], 'fraction': [(77, 1), (5, 1), (592345, 10000)], 'zero': [(0, 1), (0, 1), (0, 1)], 'small': [(0, 1), (0, 1), (1, 1000)],
    'minutes': [(12, 1), (345678, 10000), (0, 1)], 'degrees': [(435678901, 10000000), (0, 1), (0, 1)], 'all over ten': [(510, 10), (70, 10), (599999, 10000)],
    'edge': [(89, 1), (59, 1), (59999, 1000)]}


def degrees(v):
    return math.fsum([v[0][0] / v[0][1], v[1][0] / v[1][1] / 60.0, v[2][0] / v[2][1] / 3600.0])


def names(d, style):
    return {'band%d' % (k + 1): os.path.join(d, style % (k + 1)) for k in range(5)}


TIMES = ['2019:05:03 14:25:36', '2016:12:31 23:59:59', '2017:01:01 00:00:00', '2017:01:01 00:00:01', '2018:01:06 23:59:42', '2018:01:06 23:59:41', '2018:01:07 00:00:00',
         '2020:02:29 12:00:00', '2018:03:11 02:30:00', '2018:11:04 01:30:00', '2015:06:30 23:59:59']



@CHECK.scenario(bound=(2, 3))
def exposure(c):
    """time and place of the exposure of each band"""
    e = c.choose('byte order', ['<', '>'])
    lat = c.choose('latitude', list(DMS))
    lon = c.choose('longitude', list(DMS))
    t = c.vary('time', TIMES)
    sub = c.vary('sub second', ['5', '123456', '0', '05', '00123', '999999', '000001', '50', '10', '123456789', '0000007'])
    ns, ew = c.vary('north south', ['N', 'S']), c.vary('east west', ['W', 'E'])
    band = c.vary('band', [0, 4, 2])
    zone = c.vary('zone', ['UTC', 'America/New_York', 'Pacific/Kiritimati'])
    d = c.dir()
    fn = names(d, 'IMG_0042_%d.tif')
    for k in range(5):
        right = k == band
        gps = [text(1, ns if right else 'N'), ratio(2, DMS[lat] if right else [(1, 1), (2, 1), (3, 1)], e), text(3, ew if right else 'E'),
               ratio(4, DMS[lon] if right else [(4, 1), (5, 1), (6, 1)], e)]
        tiff(fn['band%d' % (k + 1)], np.full((4, 6), k, 'u2'), e, [text(0x9003, t if right else '2011:01:01 00:00:00'), text(0x9290, sub if right else '25')], gps)
    os.environ['TZ'] = zone
    time.tzset()
    try:
        im = c.op('build', MicasenseImageFactory.from_image_number_and_opencv, fn, [cam_cv(k)[0] for k in range(5)])
        got = c.op('read', im.get_gps_timestamp_and_center, band)
        again = c.op('read again', im.get_gps_timestamp_and_center, band)
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
    utc = posix(datetime.strptime(t, '%Y:%m:%d %H:%M:%S'))
    want = gps_of(utc) % 604800 + float('0.' + sub)
    c.require(abs(got['gps_timestamp'] - want) < 1e-6, 'time of %s + 0.%s: %r, expected %r', t, sub, got['gps_timestamp'], want)
    for key, v, neg in (('lat', DMS[lat], ns == 'S'), ('lon', DMS[lon], ew == 'W')):
        w = -degrees(v) if neg else degrees(v)
        c.require(abs(got['center'][key] - w) < 1e-10, '%s of %r: %r, expected %r', key, v, got['center'][key], w)
    c.require(got == again, 'second read %r, %r', again, got)


X0, Y0 = 500321.0, 4423117.0
PTS = [(X0 + a, Y0 + b, z) for a, b, z in [(0, 0, 0), (30, 0, 4), (0, -25, 0), (-40, 35, 6), (21, 11, -5)]]


def cam_cv(k):
    P = dict(band_number=k + 1, fx_pixels=1500.0 + 7 * k, fy_pixels=1490.0 - 3 * k, cx_pixels=640.0 + k, cy_pixels=480.5 - k, k1=-0.1 + 0.01 * k, k2=0.05, k3=0.01 * k,
             p1=0.001, p2=-0.002 * k, pixel_pitch_microns=3.75, x_offset_meters=0.1 * k, y_offset_meters=-0.2 * k, z_offset_meters=0.05,
             omega_offset_radians=0.002 * k, phi_offset_radians=-0.001 * k, kappa_offset_radians=0.003)
    s = dict(X=X0 + 3, Y=Y0 - 2, Z=400.0, omega=0.03, phi=-0.02, kappa=0.5, d_omega=P['omega_offset_radians'], d_phi=P['phi_offset_radians'],
             d_kappa=P['kappa_offset_radians'], offset=(P['x_offset_meters'], P['y_offset_meters'], P['z_offset_meters']), fx=P['fx_pixels'], fy=P['fy_pixels'],
             cx=P['cx_pixels'], cy=P['cy_pixels'], k1=P['k1'], k2=P['k2'], k3=P['k3'], p1=P['p1'], p2=P['p2'])
    return P, s


def cam_px(k):
    att = (2.0 - k, -1.5 + k, 70.0 + 3 * k)
    R = zoo.m_matrix(*[math.radians(a) for a in att])
    ppm = 1280 / 4.8
    ip = dict(F=5.4 + 0.01 * k, Px=2.4 + 0.02 * k, Py=1.8 - 0.01 * k, fpa_width_mm=4.8, fpa_height_mm=3.6)
    kk, t = [-0.1 + 0.01 * k, 0.1, 0.02 * k], [0.001 * k, -0.0007]
    P = dict(camera_rotation_r=np.array(R), external_params=[X0 + k, Y0 - k, 300.0 + k] + list(att), n_x_pixels=1280, n_y_pixels=960, internal_params=ip,
             tangential_distortion=np.array(t), radial_distortion=np.array(kk))
    s = dict(t=(X0 + k, Y0 - k, 300.0 + k), R=R, nx=1280, ny=960, cx=ip['Px'] * ppm, cy=ip['Py'] * ppm, f=ip['F'] * ppm, k=kk, p=t, model='regular', rev_x=True, rev_y=True)
    return P, s


def pixels(k, dt, shape):
    n = shape[0] * shape[1]
    return ((np.arange(n).reshape(shape) * (7 + 2 * k) + 31 * k) % (250 if np.dtype(dt).itemsize == 1 else 60013)).astype(dt)


ORDERS = {'1 to 5': [1, 2, 3, 4, 5], '5 to 1': [5, 4, 3, 2, 1], 'mixed': [3, 1, 5, 2, 4]}


@CHECK.scenario(bound=(2, 3))
def bands(c):
    """pixels and camera of each band belong to the file of the band"""
    kind = c.choose('cameras', ['opencv', 'pix4d'])
    style = c.choose('names', ['IMG_0042_%d.tif', 'IMG_2_1_%d.tif', 'IMG_0042_%d.TIF', 'a.b_%d.tif', 'nir5_0001_%d.tif'])
    given = c.choose('parameters', list(ORDERS))
    dct = c.choose('file names', list(ORDERS))
    dt = c.vary('dtype', ['u2', 'u1'])
    e = c.vary('byte order', ['<', '>'])
    shape = c.vary('shape', [(4, 6), (1, 7), (9, 2)])
    folder = c.vary('folder', ['', 'x_7.d', 'with space'])
    first = c.vary('first', ['all', 'band'])
    extra = c.vary('others', [False, True])
    d = os.path.join(c.dir(), folder)
    os.makedirs(d, exist_ok=True)
    fn = {k: names(d, style)[k] for k in ['band%d' % i for i in ORDERS[dct]]}
    data = [pixels(k, dt, shape) for k in range(5)]
    for k in range(5):
        tiff(fn['band%d' % (k + 1)], data[k], e)
    keep = dict(fn)
    if kind == 'opencv':
        par = [cam_cv(i - 1)[0] for i in ORDERS[given]]
        im = c.op('build', MicasenseImageFactory.from_image_number_and_opencv, fn, par)
    else:
        par = {os.path.basename(fn['band%d' % i]): cam_px(i - 1)[0] for i in ORDERS[given]}
        if extra:
            par['IMG_9999_1.tif'] = cam_px(9)[0]
        par['projection'] = proj('utm18n')
        im = c.op('build', MicasenseImageFactory.from_image_number_and_pix4d, fn, par)
    if extra:  # a second image does not disturb the first
        fn2 = names(d, 'IMG_7777_%d.tif')
        p2 = [dict(cam_cv(k)[0], cx_pixels=1.0) for k in range(5)]
        c.op('build', MicasenseImageFactory.from_image_number_and_opencv, fn2, p2)
    c.require(fn == keep, 'file names changed')
    sm = im.get_point_calculator()
    if kind == 'opencv':
        for q in sm.get_point_calcs():
            q.init_extrinsic(X0 + 3, Y0 - 2, 400.0, 0.03, -0.02, 0.5)
        sm.set_projection(proj('utm18n'))
    c.require(not sm.bands_coregistered(), 'bands of separate cameras are not coregistered')
    md = im.get_metadata()
    c.require((md.get_n_bands(), md.get_npix_x(), md.get_npix_y(), md.get_nodata_val()) == (5, 1280, 960, 0), 'metadata %r', md.metadata_dict)

    def whole():
        got = c.op('read all', im.read_all_image_data_from_disk)
        c.same(got, np.dstack(data), 'all bands', dtype=np.dtype(dt))

    def single():
        for k in (4, 0, 2, 1, 3):
            c.same(c.op('read band', im.read_band_from_disk, k), data[k], 'band %d' % k, dtype=np.dtype(dt))
    for f in ([whole, single, whole] if first == 'all' else [single, whole]):
        f()
    lo, la, al = [np.array([p[k] for p in PTS]) for k in range(3)]
    for k in (3, 0, 4, 1, 2):
        ref, s = (zoo.ref_opencv, cam_cv(k)[1]) if kind == 'opencv' else (zoo.ref_pix4d, cam_px(k)[1])
        w = np.array([ref(s, *p) for p in PTS])
        x, y = c.op('to pixel', sm.lon_lat_alt_to_pixel_x_y, lo, la, al, band=k)
        c.same(np.array([x, y]).T, w, 'pixels of band %d' % k, atol=1e-5)
    if kind == 'pix4d':
        c.same(sm.get_approximate_lon_lat_center(), (X0, Y0), 'approximate centre')
        lons, lats = c.op('to ground', sm.pixel_x_y_alt_to_lon_lat, np.array([500.0, 800.0]), np.array([400.0, 300.0]), np.array([0.0, 5.0]), band=2)
        back = np.array([zoo.ref_pix4d(cam_px(2)[1], *p) for p in zip(lons, lats, [0.0, 5.0])])
        c.same(back, [[500.0, 400.0], [800.0, 300.0]], 'ground position', atol=0.02)


@CHECK.scenario(bound=(2, 3))
def from_arrays(c):
    """the image of an array reads back as the array"""
    dt = c.choose('dtype', ['uint8', 'uint16', 'int32', 'float32'])
    nb = c.choose('bands', [5, 1, 2, 6])
    shape = c.choose('shape', [(5, 4), (2, 9), (1, 6), (6, 1)])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    nm = c.vary('names', ['given', 'none', 'reverse'])
    twice = c.vary('second image', [False, True])
    d = c.dir()
    os.environ['HOME'] = d
    v = np.dstack([pixels(k, 'u2', shape) for k in range(nb)])
    v = (v % 251).astype(dt) if dt == 'uint8' else (v - 17).astype(dt) * np.dtype(dt).type(3 if dt == 'int32' else 1)
    if dt == 'float32':
        v = v * np.float32(0.37) - np.float32(1000)
    a = layout(v, lay)
    keep = a.copy()
    base = ['b%d.tif' % k for k in range(nb)]
    base = {'given': base, 'none': None, 'reverse': base[::-1]}[nm]
    md, pc = MicasenseMetadata(), object()
    im = c.op('build', MicasenseImageFactory.from_numpy_and_pix4d, a, md, pc, working_dir=d, band_basenames=base)
    if twice:
        d2 = os.path.join(d, 'two')
        os.makedirs(d2)
        c.op('build', MicasenseImageFactory.from_numpy_and_pix4d, a[::-1, ::-1] // 2, md, pc, working_dir=d if nm == 'none' else d2, band_basenames=base)
    c.same(a, keep, 'array changed')
    c.same(c.op('read all', im.read_all_image_data_from_disk), v, 'all bands', dtype=np.dtype(dt))
    for k in range(nb):
        c.same(c.op('read band', im.read_band_from_disk, k), v[:, :, k], 'band %d' % k, dtype=np.dtype(dt))
        c.require(os.path.dirname(im.band_fnames[k]) == d, 'band file %r outside of the working folder', im.band_fnames[k])
        if base:
            c.require(os.path.basename(im.band_fnames[k]) == base[k], 'band file %r', im.band_fnames[k])
    c.require(im.get_metadata() is md and im.get_point_calculator() is pc, 'metadata and point calculator')
