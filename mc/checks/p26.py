"""colour maps, stretches and other raster helpers"""
import math

import numpy as np
import seaborn

from mc.core import Check
from mc.util import layout, pattern
from resippy.utils.image_utils import image_utils

CHECK = Check('P26', 'display helpers', [
    'images up to 9x8 pixels without NaN values (but for no-data), palettes of 2 to 300 colours; values within 1e-9 of a colour step boundary are free to fall on either side'])

SHAPES = [(4, 5), (1, 7), (9, 1), (9, 8)]


def image(kind, shape, dt):
    n = shape[0] * shape[1]
    d = np.dtype(dt)
    if kind == 'constant':
        return np.full(shape, 5).astype(dt)
    if kind == 'below zero':
        v = np.array([-3.0 - (k * 29) % 113 for k in range(n)])
    elif kind == 'large':
        v = np.array([2.0 ** 27 + (k * 29) % 113 for k in range(n)])
    elif kind == 'bool':
        v = np.array([k % 3 == 0 for k in range(n)])
    elif d.kind == 'f':
        v = np.array([math.sin(1.7 * k + 0.3) * 40 + k for k in range(n)]) * (2.0 ** -40 if kind == 'tiny' else 1.0)
    elif kind == 'full range':
        lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
        v = np.array([lo + (hi - lo) * ((k * 13) % n) // max(1, n - 1) for k in range(n)], dtype=d)
    else:
        v = np.array([(k * 29) % 113 - (0 if d.kind in 'ub' else 50) for k in range(n)])
    return v.reshape(shape).astype(dt)


def palettes(name):
    if name == 'default':
        return None, np.array(seaborn.color_palette('GnBu_r'))
    if name.startswith('viridis'):
        p = seaborn.color_palette('viridis', int(name.split()[1]))
        return p, np.array(p)
    p = {'two': [[0, 0, 0], [1, 1, 1]], 'three': [[1, 0, 0], [0, 1, 0.5], [0.25, 0, 1]]}[name]
    return (np.array(p, float) if name == 'two' else p), np.array(p, float)


def ramp(p, t):
    """colour at position t of a palette of equally spaced colours"""
    x = t * (len(p) - 1)
    k = min(int(math.floor(x)), len(p) - 2)
    return p[k] + (p[k + 1] - p[k]) * (x - k)


@CHECK.scenario(bound=(2, 3))
def colormap(c):
    """colour of each value against the table lookup by hand"""
    kind = c.choose('image', ['usual', 'full range', 'constant', 'below zero', 'large', 'tiny'])
    mode = c.choose('mode', ['continuous', 'steps'])
    pal = c.choose('palette', ['default', 'two', 'three', 'viridis 17', 'viridis 130', 'viridis 300'])
    bins = c.vary('bins', [None, 2, 5, 100, 200])
    clip = c.vary('clips', ['none', 'min', 'max', 'both', 'beyond', 'from zero', 'up to zero', 'zero to one'])
    nod = c.vary('no-data', ['none', 'low', 'high', 'nan'])
    dt = c.vary('dtype', ['uint8', 'float64', 'int16', 'float32', 'int8', 'uint16', 'int32'])
    out = c.vary('output', ['uint8', 'float64', 'uint16', 'float32'])
    shape = c.vary('shape', SHAPES)
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    if kind in ('below zero', 'large'):
        dt = {'uint8': 'int16', 'uint16': 'int32'}.get(dt, dt) if kind == 'below zero' else {'float64': 'float64'}.get(dt, 'int32')
    if kind == 'tiny' and dt[0] != 'f':
        dt = 'float64'
    a = image(kind, shape, dt)
    if kind == 'constant' and clip in ('beyond', 'min', 'both'):
        return
    kw = {}
    good = np.ones(shape, bool)
    if nod != 'none':
        bad = {'low': -3e4 if a.dtype.kind != 'u' else 0, 'high': 3e4, 'nan': np.nan}[nod]
        if (nod == 'nan' and a.dtype.kind != 'f') or (dt in ('int8', 'uint8') and nod == 'high') or (dt == 'int8' and nod == 'low'):
            return
        if a.dtype.kind == 'u' and nod == 'low':
            a[a == 0] = 1
        good[::2, ::3] = False
        if not good.any():
            return
        a[~good] = bad
        kw['nodata'] = bad
    lo, hi = float(a[good].min()), float(a[good].max())
    span = hi - lo
    if clip in ('min', 'both'):
        lo = lo + 0.21 * span
        kw['min_clip'] = lo
    if clip in ('max', 'both'):
        hi = hi - 0.17 * span
        kw['max_clip'] = hi
    if clip == 'beyond':
        lo, hi = lo - 0.3 * span, hi + 0.4 * span
        kw.update(min_clip=lo, max_clip=hi)
    if 'zero' in clip:
        if clip != 'up to zero':
            lo = 0.0
            kw['min_clip'] = 0
        if clip != 'from zero':
            hi = 0.0 if clip == 'up to zero' else 1.0
            kw['max_clip'] = int(hi)
        if not lo < hi:
            return
    given, p = palettes(pal)
    p0 = p
    if given is not None:
        kw['color_palette'] = given
    if bins is not None:
        kw['n_bins'] = bins
        p = np.array([ramp(p, k / (bins - 1.0)) for k in range(bins)])
    if mode == 'steps':
        kw['continuous'] = False
    if out != 'uint8':
        kw['output_dtype'] = np.dtype(out).type
    src = layout(a, lay)
    got = c.op('colormap', image_utils.apply_colormap_to_grayscale_image, src, **kw)
    c.require(got.shape == shape + (3,), 'shape %s', got.shape)
    c.require(got.dtype == np.dtype(out), 'data type %s', got.dtype)
    c.same(src, a, 'caller image changed')
    n = len(p)
    eps = 1e-9 if dt != 'float32' else 1e-5
    tol = 1.001 if out in ('uint8', 'uint16') else 255 * n * (1e-5 if 'float32' in (dt, out) else 1e-9)
    for y in range(shape[0]):
        for x in range(shape[1]):
            if not good[y, x]:
                continue
            v = float(a[y, x])
            g = got[y, x].astype(float)
            if hi == lo:
                # one value: some colour of the palette
                c.require(any(np.all(np.abs(g - 255 * q) <= 1.001) for q in list(p) + list(p0)), 'a constant image shows %s, which is not in the palette', g)
                continue
            t = min(max((v - lo) / (hi - lo), 0.0), 1.0)
            if mode == 'continuous':
                want = [ramp(p, t)]
            else:
                want = [p[min(int(math.floor(u * n)), n - 1)] for u in {t, max(t - eps, 0.0), min(t + eps, 1.0)}]
            c.require(any(np.all(np.abs(g - 255 * q) <= tol) for q in want), 'pixel %d, %d of value %r shows %s, expected %s', y, x, v, g, 255 * want[0])
            if out in ('uint8', 'uint16'):
                c.require(any(np.all(g <= 255 * q + 1e-6 * n) for q in want), 'pixel %d, %d of value %r shows %s above %s', y, x, v, g, 255 * want[0])


@CHECK.scenario(bound=(9, 9))
def large_images(c):
    """colours of images of more rows, columns or values than any table"""
    shape = c.choose('shape', [(1203, 3), (2, 2100), (260, 270)])
    mode = c.choose('mode', ['continuous', 'steps'])
    dt = c.choose('dtype', ['uint16', 'float64'])
    n = shape[0] * shape[1]
    v = np.array([(k * 7919) % n for k in range(n)]).reshape(shape)
    a = v.astype(dt) if dt == 'float64' or n < 65536 else (v % 65521).astype(dt)
    kw = {} if mode == 'continuous' else {'continuous': False}
    p = seaborn.color_palette('viridis', 12)
    got = c.op('colormap', image_utils.apply_colormap_to_grayscale_image, a, color_palette=p, output_dtype=np.float64, **kw)
    p = np.array(p)
    t = (a - float(a.min())) / (float(a.max()) - float(a.min()))
    if mode == 'continuous':
        k = np.minimum((t * 11).astype(int), 10)
        c.same(got, 255 * (p[k] + (p[k + 1] - p[k]) * (t * 11 - k)[..., None]), 'colours', atol=1e-6)
    else:
        lo, hi = [np.minimum((np.clip(t + e, 0, 1) * 12).astype(int), 11) for e in (-1e-9, 1e-9)]
        ok = (np.abs(got - 255 * p[lo]).max(axis=2) < 1e-6) | (np.abs(got - 255 * p[hi]).max(axis=2) < 1e-6)
        c.require(ok.all(), '%d pixels of %d have a wrong colour', int((~ok).sum()), n)


@CHECK.scenario(bound=(3, 4))
def normalize(c):
    """normalized images against the formula, every type and no-data value"""
    kind = c.choose('image', ['usual', 'full range', 'constant', 'bool', 'below zero', 'large', 'tiny'])
    dt = c.choose('dtype', ['uint8', 'int8', 'int16', 'uint16', 'float32', 'float64', 'int32'])
    lo, hi = c.choose('range', [(0, 1), (0, 255), (-1.5, 2.5), (255, 0), (10, 200), (0, 2 ** 31 - 1), (1e9, 1e9 + 100)])
    out = c.choose('output', [None, np.uint8, np.float32, np.int16, np.int32, np.float64])
    shape = c.vary('shape', SHAPES + [(1203, 2), (3, 1100)])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    if out is np.uint8 and lo < 0 or hi > 300 and out in (np.uint8, np.int16):
        return
    if kind in ('below zero', 'large'):
        dt = {'uint8': 'int16', 'uint16': 'int32'}.get(dt, dt) if kind == 'below zero' else {'float64': 'float64'}.get(dt, 'int32')
    if kind == 'bool':
        dt = 'bool'
    a = image(kind, shape, dt)
    src = layout(a, lay)
    got = c.op('normalize', image_utils.normalize_grayscale_image, src, lo, hi, *([] if out is None else [out]))
    c.same(src, a, 'caller image changed')
    v = a.astype(float)
    z = (v - v.min()) / (v.max() - v.min()) if v.max() > v.min() else None
    tol = (1e-9 if dt != 'float32' and out is not np.float32 else 2e-4) * 300
    if hi > 300:
        tol = 1e-6 * hi if dt == 'float32' or out is np.float32 else 1e-12 * hi
    if out in (np.uint8, np.int16, np.int32):
        tol += 1.0
    c.require(got.shape == shape and (out is None or got.dtype == out), 'shape or type')
    if z is None:
        g = got.astype(float)
        c.require(np.all(np.isfinite(g)) and np.all(g == g.flat[0]) and min(lo, hi) - tol <= g.flat[0] <= max(lo, hi) + tol, 'a constant image became %s', g.flat[0])
        return
    c.same(got.astype(float), lo + z * (hi - lo), 'stretched image', atol=tol)


@CHECK.scenario(bound=(9, 9))
def pixel_grids(c):
    """grids of positions: every 1 / scale pixels, all on the image"""
    nx = c.choose('nx', list(range(1, 13)))
    ny = c.choose('ny', [1, 2, 5, 7])
    s = c.choose('scale', [1, 2, 3, 5, 6, 7, 9, 10, 0.5, 0.25, 1.5, 0.3, 3.0, 49, 100])
    x, y = c.op('grid', image_utils.create_pixel_grid, nx, ny, s)
    kx, ky = int(math.ceil(nx * s - 1e-6)), int(math.ceil(ny * s - 1e-6))
    c.require(x.shape == y.shape == (ky, kx), '%s positions for %d x %d pixels at scale %s, expected %s', x.shape, nx, ny, s, (ky, kx))
    c.same(x * 1.0, np.broadcast_to(np.arange(kx) / float(s), (ky, kx)), 'x positions', atol=1e-9)
    c.same(y * 1.0, np.broadcast_to((np.arange(ky) / float(s))[:, None], (ky, kx)), 'y positions', atol=1e-9)


@CHECK.scenario(bound=(2, 3))
def detections(c):
    """each position of a detection image shows the highest score of the chips covering it"""
    cy, cx = c.choose('chip', [(3, 4), (1, 1), (5, 2)])
    pts = c.choose('chips', ['overlapping', 'apart', 'same', 'single'])
    sc = c.choose('scores', ['rising', 'falling', 'mixed', 'negative', 'ties', 'integers'])
    form = c.choose('form', ['array', 'list'])
    uls = {'overlapping': [(0, 0), (0, 2), (2, 1), (1, 1), (3, 0)], 'apart': [(0, 0), (6, 0), (0, 9), (6, 9), (12, 4)], 'same': [(1, 1)] * 5, 'single': [(2, 3)]}[pts]
    n = len(uls)
    s = {'rising': [0.1 * (k + 1) for k in range(n)], 'falling': [0.9 - 0.1 * k for k in range(n)], 'mixed': [0.3, 0.9, 0.1, 0.7, 0.5][:n],
         'negative': [-0.3, -0.9, -0.1, -0.7, -0.5][:n], 'ties': [0.5, 0.5, 0.2, 0.2, 0.5][:n], 'integers': [3, 1, 2, 5, 4][:n]}[sc]
    got = c.op('detections', image_utils.create_detection_image_from_scores, np.array(s) if form == 'array' else list(s), np.array(uls), cx, cy)
    ny, nx = max(u[0] for u in uls) + cy, max(u[1] for u in uls) + cx
    want = np.zeros((ny, nx))
    for y in range(ny):
        for x in range(nx):
            v = [s[k] for k, u in enumerate(uls) if u[0] <= y < u[0] + cy and u[1] <= x < u[1] + cx]
            want[y, x] = max(v) if v else 0.0
    c.same(got, want, 'detection image')


@CHECK.scenario(bound=(9, 9))
def blend_resize(c):
    """blended and resized images against the formula"""
    kind = c.choose('image', ['gray', 'rgb', 'rgba', 'float'])
    shape = c.choose('shape', [(4, 6), (7, 3), (1, 5)])
    new = c.choose('new size', ['same', (8, 12), (3, 5), (14, 2), (1, 1)])
    pct = c.choose('percent', [0.5, 0, 1, 0.25, 1.0])
    sh = shape + {'gray': (), 'rgb': (3,), 'rgba': (4,), 'float': ()}[kind]
    dt = 'float32' if kind == 'float' else 'uint8'
    a = pattern(sh, dt)
    b = pattern(sh, dt)[::-1, ::-1]
    c.same(np.asarray(c.op('blend', image_utils.blend_images, a, b, pct), float), a.astype(float) * pct + b.astype(float) * (1 - pct), 'blended', rtol=1e-6, atol=1e-9)
    if pct == 0.5:
        c.same(np.asarray(c.op('blend', image_utils.blend_images, a, b), float), (a.astype(float) + b.astype(float)) / 2, 'blended evenly', rtol=1e-6)
    ny, nx = shape if new == 'same' else new
    got = c.op('resize', image_utils.resize_image, a, ny, nx)
    c.require(got.shape == (ny, nx) + sh[2:] and got.dtype == a.dtype, 'resized to %s %s', got.shape, got.dtype)
    if new == 'same':
        c.same(got, a, 'image of the same size')
    flat = np.full(sh, 77, dtype=dt)
    want = np.full((ny, nx) + sh[2:], 77)
    if kind == 'rgba':
        flat[:, :, 3] = 255
        want[:, :, 3] = 255
    c.same(c.op('resize', image_utils.resize_image, flat, ny, nx), want, 'resized flat image', atol=1e-4, dtype=dt)
    # left stays left and top stays top
    if nx > 1 and kind != 'rgba':
        e = np.zeros(sh, dt)
        e[:, :(sh[1] + 1) // 2] = 200
        r = c.op('resize', image_utils.resize_image, e, ny, nx).astype(float)
        c.require(np.all(r[:, 0] > r[:, -1]), 'left half of an image came out on the right')
    if ny > 1 and sh[0] > 1 and kind != 'rgba':
        e = np.zeros(sh, dt)
        e[:(sh[0] + 1) // 2] = 200
        r = c.op('resize', image_utils.resize_image, e, ny, nx).astype(float)
        c.require(np.all(r[0] > r[-1]), 'upper half of an image came out below')


@CHECK.scenario(bound=(2, 3))
def grid_warp(c):
    """warped band: the value of the image at each position, no-data outside"""
    inter = c.choose('interpolation', ['nearest', 'bilinear', 'default', 'biquadratic', 'bicubic', 'biquartic', 'biquintic'])
    dt = c.choose('dtype', ['float64', 'uint8', 'int16', 'float32', 'uint16'])
    shape = c.choose('shape', [(5, 6), (9, 4)])
    nod = c.choose('no-data', ['default', 7, -5 if np.dtype(dt).kind != 'u' else 250])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    move = c.choose('positions', ['same', 'shift', 'swap', 'fraction', 'outside', 'finer'])
    ny, nx = shape
    a = np.array([((k * 37) % 200) for k in range(ny * nx)]).reshape(shape).astype(dt)
    y, x = np.mgrid[0:ny, 0:nx].astype(float)
    if move == 'shift':
        x, y = x - 2, y + 1
    elif move == 'swap':
        x, y = nx - 1 - x, ny - 1 - y
    elif move == 'fraction':
        x, y = x * 0.8 + 0.3, y * 0.7 + 0.15
    elif move == 'outside':
        x, y = x * 3 - 4, y * 2 - 3
    elif move == 'finer':
        y, x = np.mgrid[0:2 * ny - 1, 0:2 * nx - 1] / 2.0
        x, y = x * 0.99, y * 0.99
    kw = {} if inter == 'default' else {'interpolation': inter}
    if nod != 'default':
        kw['nodata_val'] = nod
    x0, y0 = x.copy(), y.copy()
    src = layout(a, lay)
    got = c.op('warp', image_utils.grid_warp_image_band, src, x, y, **kw)
    c.same(src, a, 'caller image changed')
    c.same(x, x0, 'caller positions changed')
    c.same(y, y0, 'caller positions changed')
    c.require(got.shape == x.shape, 'shape %s', got.shape)
    nv = 0 if nod == 'default' else nod
    for j in range(x.shape[0]):
        for i in range(x.shape[1]):
            px, py = x[j, i], y[j, i]
            if px < -1 or py < -1 or px > nx or py > ny:
                c.require(got[j, i] == nv, 'position %s, %s off the image shows %s', px, py, got[j, i])
            elif 0 <= px <= nx - 1 and 0 <= py <= ny - 1:
                if inter == 'bilinear':
                    k, m = min(int(px), nx - 2), min(int(py), ny - 2)
                    u, v = px - k, py - m
                    q = a.astype(float)
                    want = (q[m, k] * (1 - u) + q[m, k + 1] * u) * (1 - v) + (q[m + 1, k] * (1 - u) + q[m + 1, k + 1] * u) * v
                    c.same(float(got[j, i]), float(want), 'position %s, %s' % (px, py), atol=1e-3)
                elif inter.startswith('bi'):
                    if px == int(px) and py == int(py):
                        c.same(float(got[j, i]), float(a[int(py), int(px)]), 'position %s, %s' % (px, py), atol=2e-3)
                    else:
                        c.require(min(float(a.min()), nv) - 1e-3 <= got[j, i] <= max(float(a.max()), nv) + 1e-3, 'position %s, %s shows %s', px, py, got[j, i])
                elif abs(px % 1 - 0.5) > 1e-6 and abs(py % 1 - 0.5) > 1e-6:
                    c.require(got[j, i] == a[int(round(py)), int(round(px))], 'position %s, %s shows %s', px, py, got[j, i])
    ok, _ = c.attempt('unknown', image_utils.grid_warp_image_band, a, x, y, interpolation='cubic spline')
    c.require(not ok, 'unknown interpolation accepted')


@CHECK.scenario(bound=(9, 9))
def large(c):
    """large images show the same as their parts"""
    what = c.choose('operation', ['colormap', 'colormap steps', 'normalize', 'warp nearest', 'warp bilinear', 'blend', 'grid', 'detections'])
    ny, nx = c.choose('shape', [(300, 257), (1, 70001), (1100, 7)])
    dt = c.choose('dtype', ['uint8', 'float64', 'int16'])
    j, i = np.mgrid[0:ny, 0:nx]
    a = ((i * 37 + j * 11 + (i * j) % 89) % 251 - (100 if dt == 'int16' else 0)).astype(dt)
    keep = a.copy()
    lo, hi = int(a.min()), int(a.max())
    if what.startswith('colormap'):
        p = np.array(seaborn.color_palette('viridis', 17))
        got = c.op('colormap', image_utils.apply_colormap_to_grayscale_image, a, color_palette=seaborn.color_palette('viridis', 17),
                   continuous=not what.endswith('steps'), output_dtype=np.float64)
        t = (np.arange(lo, hi + 1) - lo) / float(hi - lo)
        x = t * 16
        k = np.minimum(np.floor(x).astype(int), 15)
        tab = [255 * (p[k] + (p[k + 1] - p[k]) * (x - k)[:, None])]
        if what.endswith('steps'):
            tab = [255 * p[np.clip(np.floor((t + e) * 17).astype(int), 0, 16)] for e in (-1e-9, 0, 1e-9)]
        c.require(got.shape == (ny, nx, 3), 'shape %s', got.shape)
        ok = np.zeros((ny, nx), bool)
        for q in tab:
            ok |= np.all(np.abs(got - q[(a.astype(int) - lo)]) < 1e-5, axis=2)
        c.require(ok.all(), '%d pixels show another colour, the first is %s', int((~ok).sum()), np.argwhere(~ok)[:1].tolist())
    elif what == 'normalize':
        got = c.op('normalize', image_utils.normalize_grayscale_image, a, -1.5, 2.5)
        c.same(got, -1.5 + 4.0 * (a.astype(float) - lo) / (hi - lo), 'stretched image', atol=1e-9)
    elif what.startswith('warp'):
        if min(ny, nx) < 2:
            return
        x, y = i * 0.8 + 3.3, j * 0.7 + 2.2
        got = c.op('warp', image_utils.grid_warp_image_band, a, x, y, nodata_val=7, interpolation=what.split()[1])
        out = (x > nx) | (y > ny)
        ins = (x <= nx - 1) & (y <= ny - 1)
        if what.endswith('nearest'):
            want = a[np.clip(np.round(y).astype(int), 0, ny - 1), np.clip(np.round(x).astype(int), 0, nx - 1)].astype(float)
            ins &= (np.abs(x % 1 - 0.5) > 1e-6) & (np.abs(y % 1 - 0.5) > 1e-6)
        else:
            k, m = np.clip(x.astype(int), 0, nx - 2), np.clip(y.astype(int), 0, ny - 2)
            u, v, q = x - k, y - m, a.astype(float)
            want = (q[m, k] * (1 - u) + q[m, k + 1] * u) * (1 - v) + (q[m + 1, k] * (1 - u) + q[m + 1, k + 1] * u) * v
        c.same(got[out].astype(float), np.full(int(out.sum()), 7.0), 'positions off the image', atol=1e-9)
        c.same(got[ins].astype(float), want[ins], 'warped image', atol=1e-3)
    elif what == 'blend':
        b = a[::-1, ::-1].copy()
        c.same(np.asarray(c.op('blend', image_utils.blend_images, a, b, 0.25), float), a.astype(float) * 0.25 + b.astype(float) * 0.75, 'blended', atol=1e-9)
        got = c.op('resize', image_utils.resize_image, a.astype('uint8'), ny, nx)
        c.same(got, a.astype('uint8'), 'image of the same size')
    elif what == 'grid':
        x, y = c.op('grid', image_utils.create_pixel_grid, nx, ny)
        c.same(x, i, 'x positions')
        c.same(y, j, 'y positions')
    else:
        k = np.arange(1100)
        # a detection image may have more rows or columns than fit 16 bits
        fy, fx = {(1, 70001): (0, 270), (1100, 7): (230, 0)}.get((ny, nx), (1, 1))
        uls = np.stack([(k * 37) % 290 * fy, (k * 53) % 251 * fx], axis=1)
        s = ((k * 29) % 1000) / 1000.0
        want = np.full((uls[:, 0].max() + 9, uls[:, 1].max() + 6), -1.0)
        for q in k:
            y, x = uls[q]
            want[y:y + 9, x:x + 6] = np.maximum(want[y:y + 9, x:x + 6], s[q])
        c.same(c.op('detections', image_utils.create_detection_image_from_scores, s, uls, 6, 9), np.where(want < 0, 0, want), 'detection image')
    c.same(a, keep, 'caller image changed')
