"""geotiff pixel <-> world maps, extents and warps"""
import os

import gdal
import numpy as np
from pyproj import Proj, Transformer

from mc.core import Check
from mc.util import PROJS, pattern, proj
from mc.zoo import ref_affine
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage

CHECK = Check('P02', 'geotiff georeferencing', [
    'geotransforms from a fixed list of 9 (rotated, sheared, mirrored, tiny and huge pixels), 5 projections, pixel positions on and off the raster',
    'pyproj and GDAL InvGeoTransform semantics are trusted'])

GEOTS = {
    'northup': [500000.0, 2.5, 0.0, 4649776.5, 0.0, -2.5],
    'nonsquare': [500000.0, 2.0, 0.0, 4649776.5, 0.0, -0.5],
    'rotated': [500123.25, 0.75, -1.25, 4500321.125, -1.5, -0.5],
    'sheared': [500123.25, 3.0, 1.0, 4500321.125, 0.0, -2.0],
    'rowshear': [500123.25, 3.0, 0.0, 4500321.125, 0.7, -2.0],
    'southup': [500000.0, 1.0, 0.0, 4400000.5, 0.0, 2.0],
    'mirror': [510000.0, -3.0, 0.1, 4400000.0, 0.2, 3.0],
    'coarse': [400000.0, 1000.0, 0.0, 4700000.0, 0.0, -900.0],
    'swap': [500000.0, 0.0, 2.0, 4400000.0, 1.5, 0.0],
}
PIX = [(0, 0), (1, 0), (0, 1), (39, 29), (40, 30), (0.5, 0.5), (12.25, 7.75), (-3.5, 2.0), (100.0, -7.5)]


@CHECK.scenario(bound=(3, 4))
def affine(c):
    """pixel -> world and world -> pixel of every grid against the closed-form affine map and its inverse"""
    gk = c.choose('geotransform', list(GEOTS))
    src = c.choose('source', ['numpy', 'file'])
    form = c.choose('form', ['scalar', '1d', '2d'])
    wp = c.choose('world', ['native', 'same', 'other'])
    alts = c.vary('alts', ['zero', 'none', 'array'])
    size = c.vary('size', [(30, 40), (1, 5), (6, 1), (17, 17)])
    again = c.vary('repeat', ['no', 'yes'])
    g = GEOTS[gk]
    p = proj('utm18n')
    im = ImageFactory.geotiff.from_numpy_array(pattern(size + (2,), 'uint8'), list(g), p)
    if src == 'file':
        f = os.path.join(c.dir(), 'a.tif')
        c.op('write', im.write_to_disk, f)
        im = c.op('read', ImageFactory.geotiff.from_file, f)
    pc = im.get_point_calculator()
    px = np.array([v[0] for v in PIX[:8]], dtype=float)
    py = np.array([v[1] for v in PIX[:8]], dtype=float)
    lon = g[0] + px * g[1] + py * g[2]
    lat = g[3] + px * g[4] + py * g[5]
    world = {'native': None, 'same': proj('utm18n'), 'other': proj('lonlat')}[wp]
    if wp == 'other':
        wlon, wlat = Transformer.from_proj(p, world, always_xy=True).transform(lon, lat)
        tol_w, tol_p = 1e-11, 1e-5
    else:
        wlon, wlat = lon, lat
        tol_w, tol_p = 1e-13, 1e-6
    for rep in range(2 if again == 'yes' else 1):
        if form == 'scalar':
            for k in range(len(px)):
                al = {'zero': 0, 'none': None, 'array': 250.0}[alts]
                x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, float(wlon[k]), float(wlat[k]), al, world_proj=world)
                c.same([x, y], [px[k], py[k]], 'pixel of a point', atol=tol_p)
                a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, px[k], py[k], al, world_proj=world)
                c.same([a, b], [wlon[k], wlat[k]], 'world position of a pixel', rtol=tol_w, atol=1e-12)
                if float(px[k]).is_integer() and float(py[k]).is_integer():
                    a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, int(px[k]), int(py[k]), al, world_proj=world)
                    c.same([a, b], [wlon[k], wlat[k]], 'world position of an integer pixel', rtol=tol_w, atol=1e-12)
        else:
            sh = (8,) if form == '1d' else (2, 4)
            qx, qy, ql, qb = [np.array(v).reshape(sh) for v in (px, py, wlon, wlat)]
            al = {'zero': 0, 'none': None, 'array': np.arange(8.).reshape(sh) * 100}[alts]
            keep = [v.copy() for v in (qx, qy, ql, qb)]
            x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, ql, qb, al, world_proj=world)
            c.same(x, qx, 'pixel x', atol=tol_p)
            c.same(y, qy, 'pixel y', atol=tol_p)
            a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, qx, qy, al, world_proj=world)
            c.same(a, ql, 'world x', rtol=tol_w, atol=1e-12)
            c.same(b, qb, 'world y', rtol=tol_w, atol=1e-12)
            for v, k in zip((qx, qy, ql, qb), keep):
                c.same(v, k, 'caller arrays changed')
    c.same(np.array(pc.get_geot(), dtype=float), g, 'geotransform', rtol=1e-14)
    inv = np.array(pc.get_inv_geot(), dtype=float)
    for k in range(4):
        c.same([inv[0] + inv[1] * lon[k] + inv[2] * lat[k], inv[3] + inv[4] * lon[k] + inv[5] * lat[k]], [px[k], py[k]],
               'inverse geotransform', atol=1e-5)
    c.require(pc.bands_coregistered() is True, 'bands of a geotiff share one grid')
    c.require(pc.get_projection().crs.is_projected, 'projection')
    ny, nx = size
    ext = c.op('extent', pc.get_world_extent_native)
    want = [(g[0] + i * g[1] + j * g[2], g[3] + i * g[4] + j * g[5]) for i, j in ((0, 0), (nx, 0), (nx, ny), (0, ny))]
    from shapely.geometry import Polygon
    w = Polygon(want)
    c.same(ext.bounds, w.bounds, 'bounds of the extent', rtol=1e-12)
    c.require(ext.symmetric_difference(w).area <= 1e-6 * w.area, 'the extent %s is not the outline of the image %s', ext.wkt, w.wkt)
    if g[2] == 0 and g[4] == 0:
        bx = sorted([g[0], g[0] + nx * g[1]])
        by = sorted([g[3], g[3] + ny * g[5]])
        ext = c.op('extent', pc.get_world_extent_native)
        c.same(ext.bounds, (bx[0], by[0], bx[1], by[1]), 'extent', rtol=1e-13)
        c.same(ext.area, abs(g[1] * nx * g[5] * ny), 'extent area', rtol=1e-9)
    # new georeferencing replaces the old one in both directions
    pc.set_geot(GEOTS['northup'])
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, 500005.0, 4649771.5, 0)
    c.same([x, y], [2.0, 2.0], 'pixel after the geotransform was replaced', atol=1e-7)
    a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, 2.0, 2.0, 0)
    c.same([a, b], [500005.0, 4649771.5], 'world position after the geotransform was replaced', rtol=1e-13)


@CHECK.scenario(bound=(9, 9))
def regeoreferenced(c):
    """a geotransform replaced by one that differs in any one coefficient, and back again"""
    src = c.choose('source', ['numpy', 'file'])
    g = list(GEOTS[c.choose('geotransform', ['northup', [k for k in GEOTS if GEOTS[k][2] != 0][0]])])
    k = c.choose('coefficient', list(range(6)))
    by = c.choose('change', ['a little', 'a lot'])
    form = c.choose('given as', ['list', 'tuple', 'the same list, changed'])
    im = ImageFactory.geotiff.from_numpy_array(pattern((5, 6, 1), 'uint8'), list(g), proj('utm18n'))
    if src == 'file':
        f = os.path.join(c.dir(), 'g.tif')
        c.op('write', im.write_to_disk, f)
        im = c.op('read', ImageFactory.geotiff.from_file, f)
    pc = im.get_point_calculator()
    h = list(g)
    h[k] += (0.5 if by == 'a little' else 700.0) if k in (0, 3) else (0.01 if by == 'a little' else 1.25)
    px, py = np.array([0.0, 6.0, 2.5, -3.0]), np.array([0.0, 5.0, 4.25, 11.0])
    given = list(g)
    for cur in (g, h, g, h):
        if form == 'the same list, changed':
            given[k] = cur[k]
            pc.set_geot(given)
        else:
            pc.set_geot(list(cur) if form == 'list' else tuple(cur))
        lon = cur[0] + px * cur[1] + py * cur[2]
        lat = cur[3] + px * cur[4] + py * cur[5]
        x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lon, lat, 0)
        c.same(x, px, 'pixel x', atol=1e-5)
        c.same(y, py, 'pixel y', atol=1e-5)
        a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, px, py, 0)
        c.same(a, lon, 'world x', rtol=1e-12)
        c.same(b, lat, 'world y', rtol=1e-12)
        c.same(np.array(pc.get_geot(), dtype=float), cur, 'geotransform', rtol=1e-14)
        inv = np.array(pc.get_inv_geot(), dtype=float)
        c.same(inv[0] + inv[1] * lon + inv[2] * lat, px, 'inverse geotransform x', atol=1e-5)
        c.same(inv[3] + inv[4] * lon + inv[5] * lat, py, 'inverse geotransform y', atol=1e-5)


def own_warp(src, geot, p, nodata, ops):
    """the same warp asked of GDAL directly"""
    from osgeo import gdal_array
    ds = gdal.GetDriverByName('MEM').Create('', src.shape[1], src.shape[0], src.shape[2],
                                            gdal_array.NumericTypeCodeToGDALTypeCode(src.dtype))
    ds.SetGeoTransform(geot)
    import osr
    s = osr.SpatialReference()
    s.ImportFromProj4(p.srs)
    ds.SetProjection(s.ExportToWkt())
    for b in range(src.shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(np.ascontiguousarray(src[:, :, b]))
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    out = gdal.Warp('', ds, options=gdal.WarpOptions(format='MEM', **ops))
    return out


WARPS = {
    'identity': {},
    'lonlat': dict(dstSRS=PROJS['lonlat']),
    'halfres': dict(xRes=20, yRes=20, resampleAlg='near'),
    'bilinear': dict(dstSRS=PROJS['lonlat'], resampleAlg='bilinear', width=31, height=23),
    'crop': dict(outputBounds=(500030, 4399860, 500180, 4399960)),
}


@CHECK.scenario(bound=(9, 9))
def warp_histories(c):
    """up to three warps in a row from in-memory and file backed images; earlier results must stay what they were"""
    d = c.dir()
    results = []
    last = None
    for i in range(3):
        op = c.choose('warp%d' % i, (['stop'] if i else []) + ([('identity', 'again')] if last is not None else []) + [(w, s) for w in (list(WARPS) if i == 0 else ['identity', 'bilinear'])
                                                              for s in (('mem', 'file', 'named') if i < 2 else ('mem',))])
        if op == 'stop':
            break
        w, s = op
        if s == 'again':
            # the in-memory image of an earlier step, edited and warped again
            im, a, geot, nod = last
            a = a.copy()
            a[:, :, 1] = (a[:, :, 1] // 2 + 3).astype(a.dtype)
            c.op('set_image_band', im.set_image_band, a[:, :, 1].copy(), 1)
            out = c.op('warp', GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(**WARPS[w]))
            results.append((out, own_warp(a, geot, proj('utm18n'), nod, WARPS[w]), w))
            last = (im, a, geot, nod)
            continue
        a = pattern((20, 30, 2), 'int16' if i != 1 else 'float32', salt=i)
        if a.dtype.kind == 'f':
            a = np.round(a % 1000, 2).astype('float32')
        geot = [500000.0, 10.0, 0.0, 4400000.0, 0.0, -10.0]
        nod = [None, -9999, 5][i]
        im = ImageFactory.geotiff.from_numpy_array(a, geot, proj('utm18n'), nod)
        kw = {}
        if s == 'mem':
            last = (im, a, geot, nod)
        if s == 'file':
            f = os.path.join(d, 's%d.tif' % i)
            im.write_to_disk(f)
            im = ImageFactory.geotiff.from_file(f)
        if s == 'named':
            kw['dst_fname'] = os.path.join(d, 'w%d.tif' % i)
        out = c.op('warp', GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(**WARPS[w]), **kw)
        results.append((out, own_warp(a, geot, proj('utm18n'), nod, WARPS[w]), w))
        c.require(s != 'named' or os.path.exists(kw['dst_fname']), 'named warp result missing')
    for out, ref, w in results:
        got = c.op('read', out.read_all_image_data_from_disk)
        want = ref.ReadAsArray()
        c.same(got, np.moveaxis(want, 0, 2), 'pixels of warp %s' % w, rtol=1e-6)
        c.same(np.array(out.get_point_calculator().get_geot()), np.array(ref.GetGeoTransform()), 'geotransform of warp %s' % w, rtol=1e-12)
        c.require(out.get_point_calculator().get_projection().crs.is_geographic == ('dstSRS' in WARPS[w]), 'projection of warp %s', w)
        c.require(out.get_metadata().get_nodata_val() == ref.GetRasterBand(1).GetNoDataValue(), 'nodata of warp')


@CHECK.scenario(bound=(9, 9))
def large(c):
    """many positions in one call, and warps of large images"""
    gk = c.choose('geotransform', list(GEOTS))
    sh = c.choose('shape', [(70001,), (300, 257), (4099, 1)])
    wp = c.choose('world', ['native', 'other'])
    g = GEOTS[gk]
    n = int(np.prod(sh))
    k = np.arange(n)
    px, py = [(120 * ((k * f) % 1.0) - 20).reshape(sh) for f in (0.6180339887498949, 0.7548776662466927)]
    lon, lat = g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]
    pc = ImageFactory.geotiff.from_numpy_array(pattern((5, 6, 1), 'uint8'), list(g), proj('utm18n')).get_point_calculator()
    world = None
    if wp == 'other':
        world = proj('lonlat')
        lon, lat = Transformer.from_proj(proj('utm18n'), world, always_xy=True).transform(lon, lat)
    keep = px.copy(), lon.copy()
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lon, lat, np.zeros(sh), world_proj=world)
    c.same(x, px, 'pixel x', atol=1e-5)
    c.same(y, py, 'pixel y', atol=1e-5)
    a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, px, py, np.zeros(sh), world_proj=world)
    c.same(a, lon, 'world x', rtol=1e-11, atol=1e-12)
    c.same(b, lat, 'world y', rtol=1e-11, atol=1e-12)
    c.same(px, keep[0], 'caller arrays changed')
    c.same(lon, keep[1], 'caller arrays changed')


@CHECK.scenario(bound=(9, 9))
def large_warps(c):
    """warps of images of tens of thousands of pixels against a direct GDAL warp"""
    shape = c.choose('shape', [(300, 257, 2), (7, 4100, 1), (1100, 70, 3)])
    w = c.choose('warp', ['identity', 'halfres', 'lonlat'])
    s = c.choose('source', ['mem', 'file'])
    dt = c.choose('dtype', ['int16', 'float32'])
    j, i, b = np.ogrid[0:shape[0], 0:shape[1], 0:shape[2]]
    a = ((j * 37 + i * 11 + b * 5 + (i * j) % 97) % 30011).astype(dt)
    geot = [500000.0, 10.0, 0.0, 4400000.0, 0.0, -10.0]
    im = ImageFactory.geotiff.from_numpy_array(a, geot, proj('utm18n'), -9999)
    if s == 'file':
        f = os.path.join(c.dir(), 's.tif')
        im.write_to_disk(f)
        im = ImageFactory.geotiff.from_file(f)
    out = c.op('warp', GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(**WARPS[w]))
    ref = own_warp(a, geot, proj('utm18n'), -9999, WARPS[w])
    want = ref.ReadAsArray()
    want = np.moveaxis(want, 0, 2) if want.ndim == 3 else want[:, :, None]
    c.same(c.op('read', out.read_all_image_data_from_disk), want, 'pixels of the warp', rtol=1e-6)
    c.same(np.array(out.get_point_calculator().get_geot()), np.array(ref.GetGeoTransform()), 'geotransform of the warp', rtol=1e-12)


FINE = {
    'third arcsecond': [-77.25, 1 / 10800.0, 0.0, 38.5, 0.0, -1 / 10800.0],
    'one metre': [-77.000277777, 8.983152841195215e-06, 0.0, 38.500277777, 0.0, -8.983152841195215e-06],
    'centimetre': [145.123456789012, 9e-8, 1.3e-8, -37.98765432101, -1.1e-8, -8.7e-8],
    'world': [-180.0, 1 / 120.0, 0.0, 90.0, 0.0, -1 / 120.0],
}


@CHECK.scenario(bound=(9, 9))
def fine_grids(c):
    """degree grids of fine pixels, up to the far corner of large rasters"""
    gk = c.choose('geotransform', list(FINE))
    form = c.choose('form', ['scalar', '1d', '2d'])
    kind = c.choose('geot type', ['list', 'tuple', 'array'])
    g = FINE[gk]
    pc = ImageFactory.geotiff.from_numpy_array(pattern((5, 6, 1), 'uint8'), {'list': list, 'tuple': tuple, 'array': np.array}[kind](g),
                                               proj('lonlat')).get_point_calculator()
    px = np.array([0.0, 1.0, 20000.0, 43199.0, 21599.5, 7.25, 3601.0, 12345.0])
    py = np.array([0.0, 21599.0, 1.0, 10800.25, 0.0, 9.75, 3601.0, 21598.0])
    lon, lat = g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]
    eps = 1e-14 * 360 / min(abs(g[1]), abs(g[5])) + 1e-6
    if form == 'scalar':
        for k in range(8):
            c.same(c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, float(lon[k]), float(lat[k]), 0), [px[k], py[k]], 'pixel of a place', atol=eps)
            c.same(c.op('to world', pc.pixel_x_y_alt_to_lon_lat, float(px[k]), float(py[k]), 0), [lon[k], lat[k]], 'place of a pixel', rtol=1e-14)
        return
    sh = (8,) if form == '1d' else (4, 2)
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lon.reshape(sh), lat.reshape(sh), np.zeros(sh))
    c.same(x, px.reshape(sh), 'pixel x', atol=eps)
    c.same(y, py.reshape(sh), 'pixel y', atol=eps)
    a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, px.reshape(sh), py.reshape(sh), np.zeros(sh))
    c.same(a, lon.reshape(sh), 'world x', rtol=1e-14)
    c.same(b, lat.reshape(sh), 'world y', rtol=1e-14)


@CHECK.scenario(bound=(9, 9))
def whole_places(c):
    """places and pixels given as whole numbers of any type are the same as those given as floats"""
    gk = c.choose('geotransform', list(GEOTS))
    dt = c.choose('dtype', ['int64', 'int32', 'uint32', 'int16'])
    which = c.choose('which', ['both', 'x only'])
    sh = c.choose('shape', [(6,), (2, 3), (1,)])
    g = GEOTS[gk]
    pc = ImageFactory.geotiff.from_numpy_array(pattern((5, 6, 1), 'uint8'), list(g), proj('utm18n')).get_point_calculator()
    n = int(np.prod(sh))
    small = dt == 'int16'
    lon = np.floor(g[0]) + np.array([3.0, 7.0, 0.0, 40.0, 1.0, 12.0])[:n] if not small else np.array([3.0, -7.0, 0.0, 40.0, 1.0, 12.0])[:n]
    lat = np.floor(g[3]) + np.array([1.0, 2.0, 0.0, 31.0, 5.0, 8.0])[:n] if not small else np.array([1.0, 2.0, 0.0, -31.0, 5.0, 8.0])[:n]
    want = np.array([ref_affine(g, float(a), float(b)) for a, b in zip(lon, lat)]).T.reshape((2,) + sh)
    lo = lon.astype(dt).reshape(sh)
    la = lat.astype(dt if which == 'both' else float).reshape(sh)
    x, y = c.op('to pixel', pc.lon_lat_alt_to_pixel_x_y, lo, la, np.zeros(sh))
    tol = 1e-5 * max(1.0, float(np.abs(want).max()) * 1e-3)
    c.same(x, want[0], 'pixel x of whole places', atol=tol)
    c.same(y, want[1], 'pixel y of whole places', atol=tol)
    px, py = np.array([0, 3, 5, 7, 100, 2])[:n], np.array([0, 2, 4, 1, 90, 30])[:n]
    pdt = 'uint8' if small else dt
    a, b = c.op('to world', pc.pixel_x_y_alt_to_lon_lat, px.astype(pdt).reshape(sh), py.astype(pdt if which == 'both' else float).reshape(sh), np.zeros(sh))
    c.same(a, (g[0] + px * g[1] + py * g[2]).reshape(sh), 'world x of whole pixels', rtol=1e-13)
    c.same(b, (g[3] + px * g[4] + py * g[5]).reshape(sh), 'world y of whole pixels', rtol=1e-13)


@CHECK.scenario(bound=(9, 9))
def warp_nodata(c):
    """no-data values of every size and type through warps; one image warped twice, read in any order"""
    nod = c.choose('nodata', [None, 0, -9999, 7, 255])
    dt = c.choose('dtype', ['int16', 'uint8', 'float32'])
    ws = c.choose('warps', [('identity', 'bilinear'), ('bilinear', 'halfres'), ('crop', 'identity'), ('lonlat', 'lonlat')])
    s = c.choose('source', ['mem', 'file'])
    order = c.choose('read', ['as made', 'last first', 'bands'])
    if dt == 'uint8' and nod == -9999:
        return
    a = (np.abs(pattern((20, 30, 2), 'int16').astype(int)) % 250).astype(dt)
    a[3:9, 4:20] = 0 if nod is None else nod
    a[12:14, :7, 1] = 0
    geot = [500000.0, 10.0, 0.0, 4400000.0, 0.0, -10.0]
    im = ImageFactory.geotiff.from_numpy_array(a, geot, proj('utm18n'), nod)
    if s == 'file':
        f = os.path.join(c.dir(), 'a.tif')
        im.write_to_disk(f)
        im = ImageFactory.geotiff.from_file(f)
    outs = [(w, c.op('warp', GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(**WARPS[w]))) for w in ws]
    for w, out in (outs[::-1] if order == 'last first' else outs):
        ref = own_warp(a, geot, proj('utm18n'), nod, WARPS[w])
        want = np.moveaxis(ref.ReadAsArray(), 0, 2)
        if order == 'bands':
            for b in (1, 0):
                c.same(c.op('read band', out.read_band_from_disk, b), want[:, :, b], 'band %d of warp %s' % (b, w), rtol=1e-6)
        else:
            c.same(c.op('read', out.read_all_image_data_from_disk), want, 'pixels of warp %s' % w, rtol=1e-6)
        c.same(np.array(out.get_point_calculator().get_geot()), np.array(ref.GetGeoTransform()), 'geotransform of warp %s' % w, rtol=1e-12)
        got = out.get_metadata().get_nodata_val()
        c.require(got == ref.GetRasterBand(1).GetNoDataValue(), 'nodata %s of warp of an image with nodata %s', got, nod)
