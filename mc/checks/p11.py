"""DEM elevation lookup"""
import math
import os

import numpy as np
from pyproj import Transformer

from mc.core import Check
from mc.util import layout, proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem

CHECK = Check('P11', 'DEM elevation lookup', [
    'DEMs of up to 5x7 posts in 5 data types, 4 grids, positions on a quarter-post lattice that reaches past every edge',
    'posts lie at whole pixel coordinates of the geotransform; positions within rounding of a post next to a no-data post are not judged'])

GEOTS = {'northup': [500000.0, 4.0, 0.0, 4400000.0, 0.0, -2.0], 'southup': [500000.0, 8.0, 0.0, 4400000.0, 0.0, 8.0],
         'rotated': [500123.0, 0.75, -1.25, 4500321.0, -1.5, -0.5], 'fine': [499000.0, 0.1, 0.0, 4300000.0, 0.0, -0.3]}
GEOTS_ALL = dict(GEOTS, degrees=[-77.5, 0.25, 0.0, 39.0, 0.0, -0.5])
SIZES = [(5, 7), (1, 6), (6, 1), (1, 1), (2, 2)]
NOD = {'int16': -32768, 'uint8': 255, 'int32': -9999, 'float32': -9999.0, 'float64': -3.4028234663852886e+38}


def posts(ny, nx, salt=0):
    return [[float((i * 37 + j * 11 + i * j * 5 + salt * 17) % 101 + 20) for i in range(nx)] for j in range(ny)]


def clamp(v, n):
    return min(max(v, 0.0), n - 1.0)


def ref(post, method, x, y):
    """value, or None where the answer is not judged; nan where no-data must show"""
    ny, nx = len(post), len(post[0])
    if method == 'nearest':
        if abs(x - round(x)) < 1e-6 or abs(y - round(y)) < 1e-6:
            return None
        return post[min(max(int(math.floor(y)), 0), ny - 1)][min(max(int(math.floor(x)), 0), nx - 1)]
    cx, cy = clamp(x, nx), clamp(y, ny)
    edge = x < -1e-6 or x > nx - 1 + 1e-6
    edgey = y < -1e-6 or y > ny - 1 + 1e-6
    x0, y0 = min(int(cx), max(nx - 2, 0)), min(int(cy), max(ny - 2, 0))
    x1, y1 = min(x0 + 1, nx - 1), min(y0 + 1, ny - 1)
    fx, fy = cx - x0, cy - y0
    v, bad, near = 0.0, False, False
    for (j, wy) in ((y0, 1 - fy), (y1, fy)):
        for (i, wx) in ((x0, 1 - fx), (x1, fx)):
            w = wx * wy
            if math.isnan(post[j][i]):
                if w > 1e-5:
                    bad = True
            else:
                v += w * post[j][i]
    if bad:
        return float('nan')
    # next to a no-data post rounding of the position decides
    for j in range(max(y0 - 1, 0), min(y1 + 2, ny)):
        for i in range(max(x0 - 1, 0), min(x1 + 2, nx)):
            if math.isnan(post[j][i]) and ((not edge and abs(cx - round(cx)) < 1e-5) or (not edgey and abs(cy - round(cy)) < 1e-5)):
                near = True
    return None if near else v


def make(c, fname, ny, nx, dt, gk, nod, salt=0, bad=()):
    p = posts(ny, nx, salt)
    a = np.array(p).astype(dt)
    for j, i in bad:
        if j < ny and i < nx:
            a[j, i] = nod
    im = ImageFactory.geotiff.from_numpy_array(a[:, :, None], list(GEOTS[gk]), proj('utm18n'), nod)
    im.write_to_disk(fname)
    return p


def lattice(ny, nx, step):
    out = []
    n = int(round(1 / step))
    for j in range(-2 * n, (ny + 1) * n + 1):
        for i in range(-2 * n, (nx + 1) * n + 1):
            out.append((i * step, j * step))
    return out


def world(g, pts):
    x = np.array([p[0] for p in pts])
    y = np.array([p[1] for p in pts])
    return g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5]


def judge(c, dem, post, method, pts, got, what):
    got = np.asarray(got, dtype=float).ravel()
    c.require(len(got) == len(pts), '%s: %d answers for %d positions', what, len(got), len(pts))
    for (x, y), g in zip(pts, got):
        w = ref(post, method, x, y)
        if w is None:
            continue
        ok = (math.isnan(g) and math.isnan(w)) or abs(g - w) <= 2e-5 * max(1.0, abs(w))
        c.require(ok, '%s: elevation at pixel (%s, %s) is %s, not %s', what, x, y, g, w)


@CHECK.scenario(bound=(3, 4))
def lookup(c):
    """every interpolation and place on, between and off the posts against bilinear / nearest by hand"""
    method = c.choose('method', ['bilinear', 'nearest'])
    dt = c.choose('dtype', list(NOD))
    ny, nx = c.vary('size', SIZES)
    gk = c.vary('grid', list(GEOTS))
    form = c.vary('form', ['2d', '1d', 'scalar', 'npscalar', 'single', 'row', 'column', '2dF', '2dmixed'])
    wp = c.vary('world', ['none', 'native', 'lonlat'])
    nodk = c.vary('nodata', ['none', 'file', 'argument', 'argument over file', 'absent value'])
    how = c.vary('build', ['factory', 'object'])
    bad = {'none': (), 'absent value': ()}.get(nodk, ((1, 2), (0, 0), (4, 6), (3, 4)))
    if nodk in ('none', 'absent value') or (ny, nx) in ((1, 1),):
        bad = ()
    f = os.path.join(c.dir(), 'dem.tif')
    nod = NOD[dt]
    p = posts(ny, nx)
    a = np.array(p).astype(dt)
    for j, i in bad:
        if j < ny and i < nx:
            a[j, i] = nod
            p[j][i] = float('nan')
    filenod = {'none': None, 'file': nod, 'argument': None, 'argument over file': 7, 'absent value': nod}[nodk]
    ImageFactory.geotiff.from_numpy_array(a[:, :, None], list(GEOTS[gk]), proj('utm18n'), filenod).write_to_disk(f)
    argnod = nod if nodk.startswith('argument') else None
    if how == 'factory':
        dem = c.op('open', DemFactory.from_gtiff_file, f, nodata_value=argnod, interpolation_method=method)
    else:
        dem = GeotiffDem()
        if method == 'nearest':
            dem.set_interpolation_to_nearest()
        dem.remove_nodata_values(argnod if argnod is not None else filenod)
        c.op('set image', dem.set_geotiff_image, GeotiffImageFactory.from_file(f))
    c.require(dem.get_interpolation_method() == method, 'interpolation method')
    g = GEOTS[gk]
    pts = [q for q in lattice(ny, nx, 0.25)]
    pts += [(x + 1e-9, y - 1e-9) for x in range(nx) for y in range(ny)] + [(-1e4, 1.3), (0.4, 1e5)]
    if form in ('scalar', 'npscalar', 'single'):
        pts = pts[::7]
    wx, wy = world(g, pts)
    wpj = None if wp == 'none' else proj('utm18n' if wp == 'native' else 'lonlat')
    if wp == 'lonlat':
        pts = [q for q in pts if abs(q[0]) < 1000 and abs(q[1]) < 1000]
        wx, wy = world(g, pts)
        qx, qy = Transformer.from_proj(proj('utm18n'), wpj, always_xy=True).transform(wx, wy)
    else:
        qx, qy = wx, wy
    if wp == 'lonlat' and (method == 'nearest' or bad):
        pass
    if form in ('scalar', 'npscalar'):
        got = []
        for a_, b_ in zip(qx, qy):
            v = c.op('elevation', dem.get_elevations, float(a_) if form == 'scalar' else a_, float(b_) if form == 'scalar' else b_, wpj)
            c.require(np.size(v) == 1, 'one elevation for one position')
            got.append(float(v))
    elif form == 'single':
        got = []
        for a_, b_ in zip(qx, qy):
            v = c.op('elevation', dem.get_elevations, np.array([a_]), np.array([b_]), wpj)
            c.require(np.shape(v) == (1,), 'shape of the elevation of one position: %s', np.shape(v))
            got.append(v[0])
    else:
        n = len(qx)
        if form.startswith('2d'):
            k = n - n % 3
            pts, qx, qy = pts[:k], qx[:k], qy[:k]
            sh = (k // 3, 3)
        else:
            sh = {'1d': (n,), 'row': (1, n), 'column': (n, 1)}[form]
        ax, ay = np.array(qx).reshape(sh), np.array(qy).reshape(sh)
        if form in ('2dF', '2dmixed'):
            ax = np.asfortranarray(ax)
            ay = np.asfortranarray(ay) if form == '2dF' else layout(ay, 'reversed')
        keep = (np.array(ax), np.array(ay))
        got = c.op('elevations', dem.get_elevations, ax, ay, wpj)
        c.require(np.shape(got) == sh, 'shape of elevations %s for positions %s', np.shape(got), sh)
        c.same(np.array(ax), keep[0], 'caller positions')
        c.same(np.array(ay), keep[1], 'caller positions')
    judge(c, dem, p, method, pts, got, 'lookup')
    flat = [v for r in p for v in r if not math.isnan(v)]
    c.same([c.op('highest', dem.get_highest_alt), c.op('lowest', dem.get_lowest_alt), c.op('mean', dem.get_mean_alt)],
           [max(flat), min(flat), sum(flat) / len(flat)], 'highest, lowest and mean elevation', rtol=1e-6)
    gv = np.asarray(got, dtype=float)
    gv = gv[~np.isnan(gv)]
    c.require(gv.size == 0 or (gv.max() <= dem.get_highest_alt() + 1e-4 and gv.min() >= dem.get_lowest_alt() - 1e-4),
              'elevation outside of the lowest and highest')
    c.require(dem.get_projection() is not None and dem.get_projection().crs.is_projected, 'projection of the DEM')


OPS = ['nearest', 'bilinear', 'nodata 40', 'nodata 31', 'nodata none', 'image A', 'image B', 'image C', 'reference', 'query']


@CHECK.scenario(bound=(9, 9))
def histories(c):
    """settings of one DEM in any order against a dictionary model"""
    d = c.dir()
    fs, ps = {}, {}
    for k, (ny, nx, salt, gk, pk) in {'A': (3, 4, 0, 'northup', 'utm18n'), 'B': (4, 2, 1, 'southup', 'utm18n'), 'C': (2, 3, 2, 'degrees', 'lonlat')}.items():
        fs[k] = os.path.join(d, k + '.tif')
        ps[k] = [[v - (10950 if k == 'C' else 0) for v in r] for r in posts(ny, nx, salt)]
        ImageFactory.geotiff.from_numpy_array(np.array(ps[k]).astype('int16')[:, :, None], list(GEOTS_ALL[gk]), proj(pk)).write_to_disk(fs[k])
    dem, other = GeotiffDem(), c.op('open', DemFactory.from_gtiff_file, fs['B'])
    m = dict(method='bilinear', nod=None, data=None, key=None, ref=None)
    hist = ['image A']
    for i in range(4 if c.name.startswith('deep') else 3):
        hist.append(c.choose('op%d' % i, OPS))
    for o in hist + ['query']:
        k = o.split()
        if k[0] in ('nearest', 'bilinear'):
            c.op(o, getattr(dem, 'set_interpolation_to_' + k[0]))
            m['method'] = k[0]
        elif k[0] == 'nodata':
            v = None if k[1] == 'none' else int(k[1])
            c.op(o, dem.remove_nodata_values, v)
            m['nod'] = v
        elif k[0] == 'image':
            c.op(o, dem.set_geotiff_image, GeotiffImageFactory.from_file(fs[k[1]]))
            m['key'] = k[1]
            m['data'] = [list(r) for r in ps[k[1]]]
        elif o == 'reference':
            m['ref'] = 5773
            dem.set_reference(5773)
        if k[0] in ('nodata', 'image') and m['nod'] is not None:
            m['data'] = [[float('nan') if x == m['nod'] else x for x in r] for r in m['data']]
        if o == 'query':
            g = GEOTS_ALL[{'A': 'northup', 'B': 'southup', 'C': 'degrees'}[m['key']]]
            c.require(dem.get_projection().crs.is_geographic == (m['key'] == 'C'), 'projection of the DEM')
            post = m['data']
            pts = lattice(len(post), len(post[0]), 0.5) + [(0.3, 0.8), (1.9, 1.1)]
            wx, wy = world(g, pts)
            judge(c, dem, post, m['method'], pts, c.op('elevations', dem.get_elevations, wx, wy), 'after ' + ', '.join(hist))
            c.require(dem.get_reference() == m['ref'], 'vertical reference')
            flat = [v for r in post for v in r if not math.isnan(v)]
            c.same([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [max(flat), min(flat), sum(flat) / len(flat)],
                   'statistics', rtol=1e-9)
    pts = lattice(4, 2, 0.5)
    wx, wy = world(GEOTS['southup'], pts)
    judge(c, other, ps['B'], 'bilinear', pts, c.op('elevations', other.get_elevations, wx, wy), 'another DEM')
    for k in 'ABC':
        c.same(GeotiffImageFactory.from_file(fs[k]).read_all_image_data_from_disk()[:, :, 0], np.array(ps[k]).astype('int16'), 'file of the DEM')


@CHECK.scenario(bound=(9, 9))
def constant(c):
    """a DEM of one height answers it everywhere"""
    e = c.choose('elevation', [None, 0, 12, -3.5, 1e4])
    how = c.choose('build', ['factory', 'class'])
    shape = c.choose('shape', [(), (1,), (5,), (2, 3), (1, 4), (0,)])
    world_ = c.choose('world', ['default', 'lonlat', 'utm18n', 'none'])
    args = () if e is None else (e,)
    dem = c.op('build', DemFactory.constant_elevation if how == 'factory' else ConstantElevationDem, *args)
    x = np.zeros(shape) + 3
    kw = {} if world_ == 'default' else {'world_proj': None if world_ == 'none' else proj(world_)}
    v = c.op('elevations', dem.get_elevations, x if shape else 3.0, x if shape else 4.0, **kw)
    c.require(np.shape(v) == shape, 'shape')
    c.same(np.asarray(v, dtype=float), np.full(shape, float(e or 0)), 'elevation')
    c.same([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [e or 0] * 3, 'statistics')
    c.require(c.op('projection', dem.get_projection) is None, 'no projection yet')
    dem.set_projection(proj('utm18n'))
    c.require(dem.get_projection().crs.is_projected, 'projection')
    c.require(c.op('reference', dem.get_reference) is None, 'no vertical reference yet')


@CHECK.scenario(bound=(9, 9))
def refuses(c):
    """an unknown interpolation method is refused instead of answered with another one"""
    f = os.path.join(c.dir(), 'dem.tif')
    make(c, f, 3, 4, 'int16', 'northup', None)
    m = c.choose('method', ['cubic', 'Nearest', '', None, 'linear'])
    ok, r = c.attempt('open', DemFactory.from_gtiff_file, f, interpolation_method=m)
    c.require(not ok and isinstance(r, TypeError), 'interpolation method %r was not refused: %s', m, r)


@CHECK.scenario(bound=(9, 9))
def near_posts(c):
    """positions very close to posts of very steep terrain"""
    method = c.choose('method', ['bilinear', 'nearest'])
    gk = c.choose('grid', ['northup', 'southup'])
    ex = c.choose('x off the post', [0.0, 1e-2, 1e-3, 1e-4, -1e-2, -1e-3, -1e-4, 0.499, 0.501])
    ey = c.choose('y off the post', [0.0, 1e-2, 1e-3, 1e-4, -1e-2, -1e-3, -1e-4, 0.499, 0.501])
    ny, nx = 7, 9
    f = os.path.join(c.dir(), 'dem.tif')
    p = [[float((j * 37 + i * 101 + i * j * 53) % 1009) * 1e4 for i in range(nx)] for j in range(ny)]
    ImageFactory.geotiff.from_numpy_array(np.array(p)[:, :, None], list(GEOTS[gk]), proj('utm18n'), None).write_to_disk(f)
    dem = c.op('open', DemFactory.from_gtiff_file, f, interpolation_method=method)
    pts = [(i + ex, j + ey) for j in range(ny) for i in range(nx)]
    wx, wy = world(GEOTS[gk], pts)
    got = np.asarray(c.op('elevations', dem.get_elevations, wx, wy), float)
    for (x, y), g in zip(pts, got):
        w = ref(p, method, x, y)
        if w is not None:
            # positions are rounded to about 1e-9 of the grid spacing
            c.require(abs(g - w) <= 0.5, 'elevation at pixel (%s, %s) is %s, not %s', x, y, g, w)
    c.observe(got)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """large DEMs and many positions"""
    method = c.choose('method', ['bilinear', 'nearest'])
    ny, nx = c.choose('size', [(300, 130), (130, 1100), (1030, 70)])
    sh = c.choose('shape', [(70001,), (300, 257), (1, 4099), (4099, 3)])
    nodk = c.choose('nodata', ['none', 'spots'])
    wp = c.choose('world', ['none', 'lonlat'])
    f = os.path.join(c.dir(), 'dem.tif')
    j, i = np.mgrid[0:ny, 0:nx]
    p = ((i * 37 + j * 11 + i * j * 5) % 1013 + 20).astype(float)
    a = p.astype('int16')
    if nodk == 'spots':
        spot = (i * 7 + j * 13) % 41 == 5
        a[spot] = -32768
        p[spot] = np.nan
    g = GEOTS['northup']
    ImageFactory.geotiff.from_numpy_array(a[:, :, None], list(g), proj('utm18n'), -32768 if nodk == 'spots' else None).write_to_disk(f)
    dem = c.op('open', DemFactory.from_gtiff_file, f, interpolation_method=method)
    n = int(np.prod(sh))
    k = np.arange(n)
    # whole pixels are avoided by more than any rounding of a projection
    frac = 0.07 + 0.86 * ((k * 0.7548776662466927) % 1.0), 0.07 + 0.86 * ((k * 0.5698402909980532) % 1.0)
    x, y = np.floor(((k * 0.6180339887498949) % 1.0) * (nx + 2)) - 1 + frac[0], np.floor(((k * 0.32471795724) % 1.0) * (ny + 2)) - 1 + frac[1]
    wx, wy = g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5]
    wpj = None
    if wp == 'lonlat':
        wpj = proj('lonlat')
        wx, wy = Transformer.from_proj(proj('utm18n'), wpj, always_xy=True).transform(wx, wy)
    qx, qy = wx.reshape(sh), wy.reshape(sh)
    keep = qx.copy(), qy.copy()
    got = c.op('elevations', dem.get_elevations, qx, qy, wpj)
    c.require(np.shape(got) == sh, 'shape of elevations %s for positions %s', np.shape(got), sh)
    c.same(qx, keep[0], 'caller positions')
    c.same(qy, keep[1], 'caller positions')
    if method == 'nearest':
        want = p[np.clip(np.floor(y).astype(int), 0, ny - 1), np.clip(np.floor(x).astype(int), 0, nx - 1)]
    else:
        cx, cy = np.clip(x, 0, nx - 1.0), np.clip(y, 0, ny - 1.0)
        x0, y0 = np.minimum(cx.astype(int), nx - 2), np.minimum(cy.astype(int), ny - 2)
        fx, fy = cx - x0, cy - y0
        want = np.zeros(n)
        for dj, wj in ((0, 1 - fy), (1, fy)):
            for di, wi in ((0, 1 - fx), (1, fx)):
                w = wi * wj
                want += np.where(w > 0, w * np.where(w > 0, p[y0 + dj, x0 + di], 0), 0)
    c.same(np.asarray(got, dtype=float).ravel(), want, 'elevations', atol=1e-2 if wp == 'lonlat' else 2e-4)
    flat = p[~np.isnan(p)]
    c.same([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [flat.max(), flat.min(), flat.mean()], 'statistics', rtol=1e-6)


@CHECK.scenario(bound=(9, 9))
def precise(c):
    """elevations keep the precision of the file next to a no-data value that is close to them"""
    dt = c.choose('dtype', ['float64', 'float32', 'int32', 'int16'])
    nod = c.choose('nodata', {'float64': [-9999.0, 0.0, 7.5, -3.4028234663852886e+38, 1e8, 1e-3], 'float32': [-9999.0, 0.0, 7.5, -3.4028234663852886e+38],
                              'int32': [-9999, 0, 2147483647], 'int16': [-9999, 0, -32768]}[dt])
    how = c.choose('nodata given by', ['file', 'argument', 'both'])
    method = c.choose('method', ['nearest', 'bilinear'])
    ny, nx = 5, 6
    a = np.array([[1234.56789012345 + 0.001953125 * (j * nx + i) ** 2 for i in range(nx)] for j in range(ny)])
    if dt.startswith('int'):
        a = np.floor(a)
        a[0, 1], a[2, 3] = nod + (1 if nod < 0 else -1), 16777217 if dt == 'int32' else 32767
    else:
        t = np.dtype(dt).type
        up = np.nextafter(t(nod), t(1), dtype=t)
        a[0, 1], a[0, 4], a[3, 0] = up, t(nod) * t(1 + 1e-6) if abs(nod) < 1e30 else 5.0, t(nod) + t(1e-9 if dt == 'float64' else 1e-3) if abs(nod) < 1e5 else 6.0
        a[2, 3] = 8388607.9375 if dt == 'float64' else 16777214.0
    a = a.astype(dt)
    p = [[float(v) for v in r] for r in a]
    same = [(j, i) for j in range(ny) for i in range(nx) if p[j][i] == float(np.dtype(dt).type(nod))]
    for j, i in [(1, 1), (4, 5)] + same:
        a[j, i] = nod
        p[j][i] = float('nan')
    f = os.path.join(c.dir(), 'd.tif')
    ImageFactory.geotiff.from_numpy_array(a[:, :, None], list(GEOTS['northup']), proj('utm18n'), None if how == 'argument' else nod).write_to_disk(f)
    kw = {} if how == 'file' else {'nodata_value': nod}
    dem = c.op('open', DemFactory.from_gtiff_file, f, interpolation_method=method, **kw)
    pts = [(i + 0.5, j + 0.5) for j in range(ny - 1) for i in range(nx - 1)] + [(i + 0.25, j + 0.75) for j in range(ny - 1) for i in range(nx - 1)]
    wx, wy = world(GEOTS['northup'], pts)
    got = np.asarray(c.op('elevations', dem.get_elevations, wx, wy), dtype=float)
    c.observe(got)
    for (x, y), g in zip(pts, got):
        if method == 'nearest':
            w, s = p[int(y)][int(x)], 0.0
        else:
            i, j, fx, fy = int(x), int(y), x - int(x), y - int(y)
            q = [(p[j][i], (1 - fx) * (1 - fy)), (p[j][i + 1], fx * (1 - fy)), (p[j + 1][i], (1 - fx) * fy), (p[j + 1][i + 1], fx * fy)]
            w = sum(v * k for v, k in q)
            s = max(abs(v) for v, _ in q) * 1e-8
        c.require((math.isnan(w) and math.isnan(g)) or abs(g - w) <= s + 1e-12 * abs(w), 'elevation at pixel (%s, %s) is %r, not %r', x, y, g, w)
    flat = [v for r in p for v in r if not math.isnan(v)]
    c.same([dem.get_highest_alt(), dem.get_lowest_alt()], [max(flat), min(flat)], 'highest and lowest elevation', rtol=1e-12)
    c.same(dem.get_mean_alt(), math.fsum(flat) / len(flat), 'mean elevation', rtol=2e-5 if dt == 'float32' else 1e-10)


@CHECK.scenario(bound=(9, 9))
def number_types(c):
    """positions of whole metres are the same place as integers or in single precision"""
    method = c.choose('method', ['bilinear', 'nearest'])
    gk = c.choose('grid', list(GEOTS))
    kind = c.choose('kind', ['int64', 'int32', 'float32', 'x float32', 'y int', 'python int', 'numpy float32'])
    form = c.choose('form', ['1d', '2d', 'F'])
    g = GEOTS[gk]
    f = os.path.join(c.dir(), 'dem.tif')
    ny, nx = (5, 7) if gk != 'fine' else (40, 90)
    p = posts(ny, nx)
    ImageFactory.geotiff.from_numpy_array(np.array(p)[:, :, None], list(g), proj('utm18n'), None).write_to_disk(f)
    dem = c.op('open', DemFactory.from_gtiff_file, f, interpolation_method=method)
    wx, wy = world(g, lattice(ny, nx, 0.5)[::7])
    wx, wy = np.round(wx), np.round(wy)
    n = len(wx) - len(wx) % 4
    wx, wy = wx[:n], wy[:n]
    det = g[1] * g[5] - g[2] * g[4]
    pts = [((g[5] * (x - g[0]) - g[2] * (y - g[3])) / det, (g[1] * (y - g[3]) - g[4] * (x - g[0])) / det) for x, y in zip(wx, wy)]
    if kind in ('python int', 'numpy float32'):
        cast = int if kind == 'python int' else np.float32
        got = [float(c.op('elevation', dem.get_elevations, cast(x), cast(y))) for x, y in list(zip(wx, wy))[::9]]
        judge(c, dem, p, method, pts[::9], got, kind)
        return
    qx = wx.astype({'x float32': 'float32', 'y int': 'float64'}.get(kind, kind))
    qy = wy.astype({'x float32': 'float64', 'y int': 'int64'}.get(kind, kind))
    if form != '1d':
        qx, qy = qx.reshape(4, -1), qy.reshape(4, -1)
        if form == 'F':
            qx, qy = np.asfortranarray(qx), np.asfortranarray(qy)
    got = c.op('elevations', dem.get_elevations, qx, qy)
    c.require(np.shape(got) == qx.shape, 'shape %s of the elevations at %s positions', np.shape(got), qx.shape)
    judge(c, dem, p, method, pts, got, kind)
