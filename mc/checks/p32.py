"""vertical references of DEMs: heights are shifted by the geoid undulation at their post"""
import hashlib
import math
import os
import struct

import numpy as np
import pyproj
from osgeo import gdal, osr
from pyproj import Transformer

from mc.core import Check
from mc.util import proj, PROJS
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory

CHECK = Check('P32', 'vertical references', [
    'geoid grids are written here as GTX and GTG files; north-up DEMs in 4 projections; undulation is judged within one post (the fields vary by less than 3 mm per post)',
    'spherical web mercator (PROJ applies no vertical shift to it), south-up and rotated DEMs are not judged'])

STEP, N = 0.5, 41
FIELDS = {'low': lambda i, j: -31.25 + 0.5 * i - 0.75 * j, 'high': lambda i, j: 47.5 - 0.3 * i + 0.2 * j + 0.05 * i * j, 'zero': lambda i, j: 0.0}
CENTRE = {'utm18n': (-75.0, 42.0), 'utm33s': (15.0, -33.0), 'tmerc': (-77.0, 40.0), 'lonlat': (12.5, -7.25)}


def grid(field, key):
    """lower left corner and posts (row from the south, column from the west)"""
    lon, lat = CENTRE[key]
    lo, la = lon - STEP * (N // 2) - 0.2, lat - STEP * (N // 2) - 0.1
    return lo, la, [[FIELDS[field](i - N // 2, j - N // 2) for i in range(N)] for j in range(N)]


def gtx(path, g):
    lo, la, a = g
    with open(path, 'wb') as f:
        f.write(struct.pack('>ddddii', la, lo, STEP, STEP, N, N) + np.array(a, '>f4').tobytes())


def gtg(path, g):
    lo, la, a = g
    ds = gdal.GetDriverByName('GTiff').Create(path, N, N, 1, gdal.GDT_Float32)
    ds.SetGeoTransform([lo - STEP / 2, STEP, 0, la + (N - 0.5) * STEP, 0, -STEP])
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    ds.SetProjection(s.ExportToWkt())
    ds.SetMetadataItem('TYPE', 'VERTICAL_OFFSET_GEOGRAPHIC_TO_VERTICAL')
    ds.SetMetadataItem('AREA_OR_POINT', 'Point')
    b = ds.GetRasterBand(1)
    b.SetDescription('geoid_undulation')
    b.SetUnitType('metre')
    b.WriteArray(np.array(a, 'f4')[::-1])


def undulation(g, lon, lat):
    lo, la, a = g
    x, y = (lon - lo) / STEP, (lat - la) / STEP
    i, j = int(x), int(y)
    u, v = x - i, y - j
    return a[j][i] * (1 - u) * (1 - v) + a[j][i + 1] * u * (1 - v) + a[j + 1][i] * (1 - u) * v + a[j + 1][i + 1] * u * v


def geot_of(key, shape, size):
    lon, lat = CENTRE[key]
    x, y = (lon, lat) if key == 'lonlat' else Transformer.from_crs(PROJS['lonlat'], PROJS[key], always_xy=True).transform(lon, lat)
    s = 1e-5 if key == 'lonlat' else 1.0
    sx, sy = {'square': (30 * s, 30 * s), 'wide': (40 * s, 15 * s), 'fine': (0.5 * s, 0.5 * s)}[size]
    return [round(x, 6), sx, 0.0, round(y, 6), 0.0, -sy]


def setup(c, shapes=((4, 5), (1, 6), (7, 2))):
    key = c.choose('projection', list(CENTRE))
    dt = c.vary('dtype', ['float64', 'float32', 'int16', 'int32', 'uint8'])
    shape = c.vary('shape', list(shapes))
    size = c.vary('posts', ['square', 'wide', 'fine'])
    nod = c.vary('no-data', ['none', 'in file', 'argument', 'both', 'zero in file', 'zero argument'])
    zero, nod = nod.startswith('zero'), nod.replace('zero ', '')
    d = c.dir()
    geot = geot_of(key, shape, size)
    ny, nx = shape
    h = [[float((r * 37 + k * 11 + r * k * 5) % 41 + 110) + (0.0 if dt[0] in 'iu' else 0.25 * ((r + k) % 3)) for k in range(nx)] for r in range(ny)]
    nv = 0 if zero else {'uint8': 0, 'int16': -32768, 'int32': -9999}.get(dt, -9999.0)
    holes = set() if nod == 'none' else {(0, 0), (ny - 1, nx // 2)}
    a = np.array([[nv if (r, k) in holes else h[r][k] for k in range(nx)] for r in range(ny)]).astype(dt)
    src = os.path.join(d, 'src.tif')
    kw = {'nodata_val': nv} if nod in ('in file', 'both') else {}
    GeotiffImageFactory.from_numpy_array(a[:, :, None], geot, proj(key), **kw).write_to_disk(src)
    dem = c.op('open', DemFactory.from_gtiff_file, src, **({'nodata_value': nv} if nod in ('argument', 'both') else {}))
    to_ll = Transformer.from_crs(PROJS[key], PROJS['lonlat'], always_xy=True)
    pos = [[(geot[0] + k * geot[1], geot[3] + r * geot[5]) for k in range(nx)] for r in range(ny)]
    ll = [[p if key == 'lonlat' else to_ll.transform(*p) for p in row] for row in pos]
    want = [[float('nan') if (r, k) in holes else h[r][k] for k in range(nx)] for r in range(ny)]
    return key, dt, d, geot, nv if nod != 'none' else None, src, dem, pos, ll, want


def close(c, got, want, tol, what):
    got = np.asarray(got, dtype=float).reshape(len(want), len(want[0]))
    for r in range(len(want)):
        for k in range(len(want[0])):
            g, w = got[r, k], want[r][k]
            c.require(math.isnan(g) if math.isnan(w) else abs(g - w) <= tol, '%s at post (%d, %d) is %s, not %s', what, r, k, g, w)


gdal.PushErrorHandler('CPLQuietErrorHandler')


def judge(c, dem, f, key, geot, nv, pos, want, tol, what):
    close(c, dem.dem_data, want, tol, what + ': height')
    xs, ys = [np.array([[p[i] for p in row] for row in pos]) for i in (0, 1)]
    # a post seen through rounding next to a hole may pick up the hole
    fin = [v for row in want for v in row if not math.isnan(v)]
    # the nearest post of a post position is up to rounding
    if len(fin) == len(want) * len(want[0]) and dem.get_interpolation_method() != 'nearest':
        close(c, c.op('elevations', dem.get_elevations, xs, ys), want, tol + 0.05, what + ': elevation')
        c.require(abs(dem.get_highest_alt() - max(fin)) <= tol and abs(dem.get_lowest_alt() - min(fin)) <= tol, what + ': range of heights')
    im = GeotiffImage.init_from_file(f)
    c.same(np.array(im.get_point_calculator().get_geot()), np.array(geot), what + ': geotransform', rtol=1e-9, atol=1e-9)
    raw = im.read_band_from_disk(0).astype(float)
    close(c, raw, [[nv if math.isnan(v) else v for v in row] for row in want] if nv is not None else want, tol, what + ': file')
    if nv is not None:
        c.require(im.get_metadata().get_nodata_val() == nv, what + ': no-data value of the file is %s', im.get_metadata().get_nodata_val())


@CHECK.scenario(bound=(1, 2))
def geoid(c):
    """every sequence of conversions with grid files, in any folder, over existing files or new ones"""
    key, dt, d, geot, nv, src, dem, pos, ll, want = setup(c)
    method = c.vary('interpolation', ['bilinear', 'nearest'])
    folder = c.vary('folder', ['plain', 'with blank', "o'brien"])
    dst = c.vary('destination', ['new', 'one file again', 'other file there'])
    steps = c.choose('steps', [1, 2])
    if method == 'nearest':
        dem.set_interpolation_to_nearest()
    gd = os.path.join(d, {'plain': 'grids', 'with blank': 'my grids', "o'brien": "o'brien"}[folder])
    os.makedirs(gd)
    with open(src, 'rb') as f:
        before = hashlib.md5(f.read()).hexdigest()
    tol = 0.01
    for s in range(steps):
        op = c.choose('conversion', ['to geoid', 'to ellipsoid'])
        fld = c.choose('grid', ['low', 'high'] if s else ['low', 'high', 'zero'])
        g = grid(fld, key)
        gf = os.path.join(gd, '%s_%s.gtx' % (fld, key))
        gtx(gf, g)
        out = os.path.join(d, 'out%d.tif' % s)
        if dst == 'other file there':
            GeotiffImageFactory.from_numpy_array(np.full((3, 9, 1), 77.0), geot, proj(key)).write_to_disk(out)
        if dst == 'one file again' and s:
            # the DEM reads from the file of the first step, which must not be its own destination
            other = DemFactory.from_gtiff_file(src, nodata_value=nv)
            out = os.path.join(d, 'again.tif')
            other.convert_to_geoid_heights(out, gf)
            c.require(os.path.exists(out), 'no file')
        c.op(op, dem.convert_to_geoid_heights if op == 'to geoid' else dem.convert_to_ellipsoid_heights, out, gf)
        sign = -1 if op == 'to geoid' else 1
        want = [[v + sign * undulation(g, *q) for v, q in zip(row, lrow)] for row, lrow in zip(want, ll)]
        tol += 0.5 if dt[0] in 'iu' else 0.003
        judge(c, dem, out, key, geot, nv, pos, want, tol, 'step %d (%s)' % (s, op))
        c.require(dem.get_interpolation_method() == method, 'interpolation method')
    with open(src, 'rb') as f:
        c.require(hashlib.md5(f.read()).hexdigest() == before, 'the source file changed')


@CHECK.scenario(bound=(1, 2))
def missing_grid(c):
    """a grid that is not there is an error, whatever was in the destination before"""
    key, dt, d, geot, nv, src, dem, pos, ll, want = setup(c, shapes=((4, 5),))
    there = c.choose('destination exists', [False, True])
    op = c.choose('conversion', ['to geoid', 'to ellipsoid'])
    bad = c.choose('grid file', ['missing', 'empty', 'cut', 'folder'])
    if dt not in ('float64', 'int16'):
        return
    out = os.path.join(d, 'out.tif')
    if there:
        GeotiffImageFactory.from_numpy_array(np.full((4, 5, 1), 77.0), geot, proj(key)).write_to_disk(out)
    gf = os.path.join(d, '%s.gtx' % bad)
    if bad == 'empty':
        open(gf, 'w').close()
    elif bad == 'cut':
        gtx(gf, grid('low', key))
        os.truncate(gf, 44)
    elif bad == 'folder':
        os.makedirs(gf)
    kind, _ = c.attempt(op, dem.convert_to_geoid_heights if op == 'to geoid' else dem.convert_to_ellipsoid_heights, out, gf)
    if kind == 'ok':
        # no error is fine only if the heights are unchanged nowhere and all missing
        got = np.asarray(dem.dem_data, dtype=float)
        c.require(not np.isfinite(got).any(), 'converted with a %s grid file, heights %s', bad, got)
    else:
        close(c, dem.dem_data, want, 1e-3, 'heights after a failed conversion')
        close(c, dem.get_elevations(*[np.array([[p[i] for p in row] for row in pos]) for i in (0, 1)]) if nv is None else dem.dem_data, want, 0.05, 'elevations after a failed conversion')


@CHECK.scenario(bound=(1, 2))
def reference(c):
    """conversion to a height reference by its EPSG code, with its grid where PROJ finds it"""
    key, dt, d, geot, nv, src, dem, pos, ll, want = setup(c)
    code, name = c.choose('reference', [(5773, 'us_nga_egm96_15.tif'), (3855, 'us_nga_egm08_25.tif')])
    as_text = c.vary('code as text', [False, True])
    fld = 'low' if code == 5773 else 'high'
    gd = os.path.join(d, 'proj')
    os.makedirs(gd)
    g = grid(fld, key)
    gtg(os.path.join(gd, name), g)
    paths, data = osr.GetPROJSearchPaths(), pyproj.datadir.get_data_dir()
    try:
        osr.SetPROJSearchPaths([gd] + list(paths))
        pyproj.datadir.append_data_dir(gd)
        out = os.path.join(d, 'out.tif')
        c.op('convert', dem.convert_reference, out, str(code) if as_text else code)
        want = [[v - undulation(g, *q) for v, q in zip(row, lrow)] for row, lrow in zip(want, ll)]
        judge(c, dem, out, key, geot, nv, pos, want, 0.52 if dt[0] in 'iu' else 0.013, 'converted')
    finally:
        osr.SetPROJSearchPaths(list(paths))
        pyproj.datadir.set_data_dir(data)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """DEMs of tens of thousands of posts, floating and whole numbers"""
    key = c.choose('projection', list(CENTRE))
    dt = c.choose('dtype', ['float32', 'int16'])
    shape = c.choose('shape', [(300, 257), (4, 4100), (1100, 7)])
    op = c.choose('conversion', ['to geoid', 'to ellipsoid'])
    holes = c.choose('no-data', ['none', 'in file'])
    d = c.dir()
    ny, nx = shape
    geot = geot_of(key, shape, 'square')
    j, i = np.mgrid[0:ny, 0:nx]
    h = ((j * 37 + i * 11 + (i * j) % 89) % 251 + 110).astype(float)
    a = h.astype(dt)
    nv = -9999
    if holes != 'none':
        bad = (j * 7 + i * 3) % 29 == 11
        a[bad] = nv
        h[bad] = np.nan
    src, out, gf = [os.path.join(d, n) for n in ('src.tif', 'out.tif', 'g.gtx')]
    GeotiffImageFactory.from_numpy_array(a[:, :, None], geot, proj(key), **({} if holes == 'none' else {'nodata_val': nv})).write_to_disk(src)
    dem = c.op('open', DemFactory.from_gtiff_file, src)
    g = grid('low', key)
    gtx(gf, g)
    c.op(op, dem.convert_to_geoid_heights if op == 'to geoid' else dem.convert_to_ellipsoid_heights, out, gf)
    x, y = geot[0] + i * geot[1], geot[3] + j * geot[5]
    lon, lat = (x, y) if key == 'lonlat' else Transformer.from_crs(PROJS[key], PROJS['lonlat'], always_xy=True).transform(x, y)
    lo, la, f = g[0], g[1], np.array(g[2])
    p, q = (lon - lo) / STEP, (lat - la) / STEP
    k, m = np.floor(p).astype(int), np.floor(q).astype(int)
    u, v = p - k, q - m
    und = (f[m, k] * (1 - u) + f[m, k + 1] * u) * (1 - v) + (f[m + 1, k] * (1 - u) + f[m + 1, k + 1] * u) * v
    want = h + (-1 if op == 'to geoid' else 1) * und
    tol = 0.52 if dt == 'int16' else 0.013
    c.same(np.asarray(dem.dem_data, dtype=float).reshape(shape), want, 'heights', atol=tol)
    raw = GeotiffImage.init_from_file(out).read_band_from_disk(0).astype(float)
    c.same(raw, np.where(np.isnan(want), nv, want), 'heights in the file', atol=tol)
    fin = want[~np.isnan(want)]
    c.same([dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()], [fin.max(), fin.min(), fin.mean()], 'range of heights', atol=tol)
