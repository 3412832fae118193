"""ground grids, geotransforms, extents and geometry tools"""
import math
import os

import numpy as np
from osgeo import osr
from pyproj import CRS, Proj, Transformer
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon, box

from mc.core import Check
from mc.checks import p13
from mc.util import PROJS, proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import \
    AbstractEarthOverheadPointCalc
from resippy.photogrammetry import crs_defs, ortho_tools
from resippy.utils import geom_utils, photogrammetry_utils as pu, proj_utils
from resippy.utils.image_utils import image_utils

CHECK = Check('P14', 'ground grids and extents', [
    'polygons in metres and degrees, grids of 1 to 70001 pixels a side; extents over flat terrain for six sensor types and images with curved borders of 1 to 7 bands',
    'pyproj Transformer (x, y order) and shapely predicates are trusted'])

BOX = {'metres': (500010.0, 4399800.25, 500310.5, 4399950.75), 'degrees': (-77.125, 38.83, -76.92, 38.97), 'unit': (0.0, 0.0, 1.0, 1.0),
       'negative': (-20.5, -7.25, -3.0, 11.0), 'thin': (10.0, 20.0, 10.001, 500.0)}


@CHECK.scenario(bound=(9, 9))
def grids(c):
    """ground grids of an extent: the centre of each of ny rows, north first, and nx columns"""
    b = BOX[c.choose('bounds', list(BOX))]
    nx = c.choose('nx', [1, 2, 3, 7, 40, 1031])
    ny = c.choose('ny', [1, 2, 5, 33, 700, 1100])
    shape = c.choose('polygon', ['box', 'triangle', 'diamond'])
    gx, gy = c.op('grid', pu.create_ground_grid, b[0], b[2], b[1], b[3], nx, ny)
    c.require(gx.shape == (ny, nx) and gy.shape == (ny, nx), 'shape of the grid %s %s', gx.shape, gy.shape)
    w, h = (b[2] - b[0]) / nx, (b[3] - b[1]) / ny
    jj, ii = np.mgrid[0:ny, 0:nx]
    c.same(gx, b[0] + (ii + 0.5) * w, 'x of the pixel centres', rtol=1e-12, atol=1e-9 * w)
    c.same(gy, b[3] - (jj + 0.5) * h, 'y of the pixel centres, first row on top', rtol=1e-12, atol=1e-9 * h)
    poly = {'box': box(*b), 'triangle': Polygon([(b[0], b[1]), (b[2], b[1]), ((b[0] + b[2]) / 2, b[3])]),
            'diamond': Polygon([(b[0], (b[1] + b[3]) / 2), ((b[0] + b[2]) / 2, b[1]), (b[2], (b[1] + b[3]) / 2), ((b[0] + b[2]) / 2, b[3])])}[shape]
    g = c.op('geotransform', pu.world_poly_to_geo_t, poly, nx, ny)
    c.same(g, [b[0], w, 0, b[3], 0, -h], 'geotransform', rtol=1e-12)
    c.same(g[0] + (ii + 0.5) * g[1] + (jj + 0.5) * g[2], gx, 'grid and geotransform agree in x', rtol=1e-12, atol=1e-8 * w)
    c.same(g[3] + (ii + 0.5) * g[4] + (jj + 0.5) * g[5], gy, 'grid and geotransform agree in y', rtol=1e-12, atol=1e-8 * h)


@CHECK.scenario(bound=(9, 9))
def long_grids(c):
    """ground grids of more rows or columns than small integers count"""
    b = BOX[c.choose('bounds', ['metres', 'degrees'])]
    n = c.choose('size', [129, 257, 32769, 70001])
    nx, ny = (n, 2) if c.choose('long side', ['x', 'y']) == 'x' else (2, n)
    gx, gy = c.op('grid', pu.create_ground_grid, b[0], b[2], b[1], b[3], nx, ny)
    c.require(gx.shape == (ny, nx) and gy.shape == (ny, nx), 'shape of the grid %s %s', gx.shape, gy.shape)
    w, h = (b[2] - b[0]) / nx, (b[3] - b[1]) / ny
    jj, ii = np.mgrid[0:ny, 0:nx]
    c.same(gx, b[0] + (ii + 0.5) * w, 'x of the pixel centres', rtol=1e-12)
    c.same(gy, b[3] - (jj + 0.5) * h, 'y of the pixel centres', rtol=1e-12)


@CHECK.scenario(bound=(9, 9))
def counts(c):
    """number of whole pixels of an extent at a ground sample distance, also where the quotient rounds just below a whole number"""
    x0, y0 = c.choose('corner', [(0.0, 0.0), (500000.25, 4400000.5), (-77.13, 38.97), (-3.0, 100.0)])
    gx = c.choose('gsd x', [1.0, 0.1, 0.3, 2.5, 1e-5 / 3])
    gy = c.choose('gsd y', [1.0, 0.7, 0.02])
    kx = c.choose('nx', [1, 3, 10, 87, 1000])
    ky = c.choose('ny', [1, 29, 600])
    frac = c.choose('rest', [0.0, 0.4, 0.9, 0.9995])
    w, h = (kx + frac) * gx, (ky + frac) * gy
    kind = c.choose('polygon', ['box', 'diamond', 'triangle', 'other triangle'])
    b = (x0, y0, x0 + w, y0 + h)
    poly = box(*b) if kind == 'box' else Polygon([(b[0], y0 + h / 2), (x0 + w / 2, b[1]), (b[2], y0 + h / 2), (x0 + w / 2, b[3])])
    if kind == 'triangle':
        poly = Polygon([(x0 + w / 3, b[3]), (b[0], b[1]), (b[2], y0 + h / 4)])
    elif kind == 'other triangle':
        poly = Polygon([(b[0], y0 + h / 4), (x0 + w / 4, b[1]), (b[2], b[3])])
    got = c.op('count', pu.get_nx_ny_pixels_in_extent, poly, gx, gy)
    # coordinates carry rounding of their own
    if abs(x0) * 2.3e-16 / gx * 4 < 1e-7 and abs(y0) * 2.3e-16 / gy * 4 < 1e-7:
        c.require(tuple(got) == (kx, ky), '%s pixels of size (%s, %s) in an extent of %s x %s of them', got, gx, gy, kx + frac, ky + frac)


PTS = [(500000.0, 4400000.0), (510321.5, 4423117.25), (300000.0, 100.0), (640000.0, 7000000.0)]


@CHECK.scenario(bound=(9, 9))
def shifts(c):
    """points moved by metres east and north in any projection against pyproj; caller arrays stay"""
    key = c.choose('projection', ['utm18n', 'lonlat', 'merc', 'tmerc'])
    e = c.choose('east', [0.0, 1.0, -250.5, 10000.0])
    n = c.choose('north', [0.0, 1.0, 333.25, -5000.0])
    form = c.choose('form', ['array', 'scalar', '2d'])
    p = proj(key)
    x, y = Transformer.from_proj(proj('utm18n'), p, always_xy=True).transform(*[np.array(v) for v in zip(*PTS)])
    mx, my = Transformer.from_proj(p, crs_defs.PROJ_3857, always_xy=True).transform(x, y)
    wx, wy = Transformer.from_proj(crs_defs.PROJ_3857, p, always_xy=True).transform(mx + e, my + n)
    if form == 'scalar':
        for k in range(4):
            a, b = c.op('shift', pu.shift_points_by_meters, e, n, p, float(x[k]), float(y[k]))
            c.same([a, b], [wx[k], wy[k]], 'shifted point', rtol=1e-9)
        return
    sh = (4,) if form == 'array' else (2, 2)
    q = x.reshape(sh).copy(), y.reshape(sh).copy()
    keep = q[0].copy(), q[1].copy()
    a, b = c.op('shift', pu.shift_points_by_meters, e, n, p, *q)
    c.same(a, wx.reshape(sh), 'shifted x', rtol=1e-9)
    c.same(b, wy.reshape(sh), 'shifted y', rtol=1e-9)
    c.same(q[0], keep[0], 'caller points')
    c.same(q[1], keep[1], 'caller points')
    a, b = c.op('shift back', pu.shift_points_by_meters, -e, -n, p, a, b)
    c.same(a, keep[0], 'x after shifting there and back', rtol=1e-8)
    c.same(b, keep[1], 'y after shifting there and back', rtol=1e-8)


def geometry(kind, x, y):
    pts = list(zip(x, y))
    if kind == 'point':
        return Point(pts[0])
    if kind == 'point z':
        return Point(pts[0] + (120.5,))
    if kind == 'line':
        return LineString(pts)
    if kind == 'points':
        return MultiPoint(pts)
    if kind == 'polygon':
        return Polygon(pts)
    if kind == 'hole':
        mx, my = sum(x) / len(x), sum(y) / len(y)
        return Polygon(pts, [[(mx + 0.2 * (a - mx), my + 0.2 * (b - my)) for a, b in pts]])
    if kind == 'polygon z':
        return Polygon([(a, b, 10.0 * k) for k, (a, b) in enumerate(pts)])
    return MultiPolygon([Polygon(pts), Polygon([(a + (max(x) - min(x)) * 1.5, b) for a, b in pts])])


def coords(g):
    if g.geom_type.startswith('Multi'):
        return [coords(h) for h in g.geoms]
    if g.geom_type == 'Polygon':
        return [list(g.exterior.coords)] + [list(r.coords) for r in g.interiors]
    return [list(g.coords)]


def flat(o):
    return [o] if not isinstance(o, (list, tuple)) else [v for q in o for v in flat(q)]


@CHECK.scenario(bound=(9, 9))
def reprojection(c):
    """points, lines and polygons (with holes, heights, parts) between projections against pyproj vertex by vertex"""
    a, b = c.choose('from', ['utm18n', 'lonlat', 'merc', 'tmerc']), c.choose('to', ['utm18n', 'lonlat', 'merc', 'tmerc'])
    kind = c.choose('geometry', ['point', 'point z', 'line', 'points', 'polygon', 'hole', 'polygon z', 'multipolygon'])
    pa, pb = proj(a), proj(b)
    ux, uy = [500000.0, 510000.0, 512000.0, 498000.0], [4400000.0, 4401000.0, 4411000.0, 4409000.0]
    x, y = Transformer.from_proj(proj('utm18n'), pa, always_xy=True).transform(ux, uy)
    g = geometry(kind, x, y)
    before = g.wkt
    r = c.op('reproject', pu.reproject_geometry, g, pa, pb)
    c.require(r.geom_type == g.geom_type and r.has_z == g.has_z, 'kind of geometry')
    tr = Transformer.from_proj(pa, pb, always_xy=True)

    def move(o):
        if isinstance(o, tuple):
            return tuple(tr.transform(*o))
        return [move(v) for v in o]
    c.same(np.array(flat(coords(r))), np.array(flat(move(coords(g)))), 'vertices', rtol=1e-10, atol=1e-9)
    c.require(g.wkt == before, 'the caller geometry changed')
    back = c.op('back', pu.reproject_geometry, r, pb, pa)
    c.same(np.array(flat(coords(back))), np.array(flat(coords(g))), 'vertices there and back', rtol=1e-7, atol=1e-7)


@CHECK.scenario(bound=(9, 9))
def bounds_polygon(c):
    """the polygon of bounds has these bounds and this area"""
    x = c.choose('x', [(0.0, 1.0), (-77.1, -76.9), (500000.0, 500001.5), (-5.0, 3.0)])
    y = c.choose('y', [(0.0, 1.0), (38.8, 38.97), (-3.5, -1.0), (4399000.0, 4400000.25)])
    p = c.op('polygon', geom_utils.bounds_2_shapely_polygon, x[0], x[1], y[1], y[0])
    c.require(p.geom_type == 'Polygon' and p.is_valid, 'polygon')
    c.same(p.bounds, (x[0], y[0], x[1], y[1]), 'bounds')
    c.same(p.area, (x[1] - x[0]) * (y[1] - y[0]), 'area', rtol=1e-9)


@CHECK.scenario(bound=(9, 9))
def utm_zones(c):
    """UTM zone of every meridian on both hemispheres"""
    lon = c.choose('lon', [-179.9, -177.0, -75.2, -72.0, -0.1, 0.0, 0.1, 2.9, 3.1, 5.9, 6.0, 8.9, 9.0, 11.9, 12.1, 20.9, 21.1, 32.9, 33.3, 41.9, 42.1, 151.2, 174.0, 179.9])
    lat = c.choose('lat', [-79.0, -33.9, -0.5, 0.5, 12.0, 45.0, 55.9, 56.1, 63.0, 63.9, 64.1, 71.9, 72.1, 79.9])
    form = c.choose('form', ['float', 'int'])
    if form == 'int':
        lon, lat = int(lon), int(lat)
        if lat == 0:
            return
    p = c.op('utm', proj_utils.decimal_degrees_to_local_utm_proj, lon, lat)
    x, y = Transformer.from_proj(proj('lonlat'), p, always_xy=True).transform(lon, lat)
    # within a zone (widened zones of Norway and Svalbard included)
    c.require(0 < x < 1e6 and 0 <= y < 1e7, 'the site lies at (%s, %s) of its UTM zone', x, y)
    zone = int((lon + 180) // 6) + 1
    cm = -183 + 6 * zone
    south = lat < 0
    if 56 <= lat < 64 and 3 <= lon < 12:
        zone = 32
    if lat >= 72 and 0 <= lon < 42:
        zone = 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    cm = -183 + 6 * zone
    if True:
        from pyproj import Proj
        own = Proj('+proj=tmerc +lat_0=0 +lon_0=%d +k=0.9996 +x_0=500000 +y_0=%d +datum=WGS84 +units=m' % (cm, 10000000 if south else 0))
        ox, oy = Transformer.from_proj(proj('lonlat'), own, always_xy=True).transform(lon, lat)
        c.same([x, y], [ox, oy], 'UTM coordinates', atol=1e-3)


@CHECK.scenario(bound=(2, 3))
def extents(c):
    """the extent of an image over flat terrain is the hull of the ground positions of its border pixels"""
    name = c.choose('sensor', p13.SENSORS)
    dk = c.choose('dem', ['none', 'constant', 'projected'])
    bands = c.choose('bands', [None, 0, 1, [2], [0, 2]])
    thr = c.vary('threshold', [None, 1e-4])
    calc, refpix, native, foot = p13.sensor(name)
    im = p13.image(c, calc, np.zeros((p13.NY, p13.NX, p13.NB), 'uint8'), 'memory')
    z = 0.0
    kw = {}
    if dk == 'constant':
        dem, _, _ = p13.dem_of(c, 'constant')
        z = 12.5
    elif dk == 'projected':
        # flat terrain from a file in another projection than the image
        from resippy.image_objects.image_factory import ImageFactory
        from resippy.photogrammetry.dem.dem_factory import DemFactory
        f = os.path.join(c.dir(), 'd.tif')
        lo, la = (foot[0], foot[1]) if native == 'lonlat' else Transformer.from_proj(proj(native), proj('lonlat'), always_xy=True).transform(foot[0], foot[1])
        other = 'utm18n' if native == 'lonlat' else 'lonlat'
        ox, oy = Transformer.from_proj(proj('lonlat'), proj(other), always_xy=True).transform(lo, la)
        s = 10.0 if other == 'utm18n' else 1e-4
        reach = 4000 if other == 'utm18n' else 400
        # flat at 8 near the image, much higher elsewhere: asking at the wrong place gives another elevation
        a = np.full((3, 3, 1), 8.0)
        g = [ox - s * reach, s * reach, 0, oy + s * reach, 0, -s * reach]
        ImageFactory.geotiff.from_numpy_array(a, g, proj(other)).write_to_disk(f)
        dem = c.op('dem', DemFactory.from_gtiff_file, f)
        asked = []
        orig = dem.get_elevations

        def spy(x, y, world_proj=None):
            asked.append((np.array(x), np.array(y), world_proj))
            return orig(x, y, world_proj)
        dem.get_elevations = spy
        z = 8.0
    else:
        dem = None
    if thr is not None:
        kw['pixel_error_threshold'] = thr
    ext = c.op('extent', ortho_tools.get_extent, im, dem, bands=bands, **kw)
    if dk == 'projected':
        for x, y, wp in asked:
            ux, uy = Transformer.from_proj(wp if wp is not None else dem.get_projection(), proj(native), always_xy=True).transform(x, y) \
                if (wp if wp is not None else dem.get_projection()).srs != proj(native).srs else (x, y)
            c.require(np.all(np.abs(np.asarray(ux) - foot[0]) < 6 * foot[2]) and np.all(np.abs(np.asarray(uy) - foot[1]) < 6 * foot[3]),
                      'elevations are asked away from the image')
    bl = [0] if name != 'model' else ([0, 1, 2] if bands is None else ([bands] if isinstance(bands, int) else bands))
    NX, NY = p13.NX, p13.NY
    border = [(x, y) for x in range(NX) for y in (0, NY - 1)] + [(x, y) for y in range(NY) for x in (0, NX - 1)]
    hull = []
    scale = max(foot[2], foot[3])
    tol = scale * 5e-4
    for band in bl:
        bx, by = np.array([p[0] for p in border]), np.array([p[1] for p in border])
        lo, la = calc.pixel_x_y_alt_to_lon_lat(bx, by, z, band=band, **({'pixel_error_threshold': 1e-6} if name not in ('igm', 'geotiff') else {}))
        if name != 'igm':
            for k in (0, 37, 81, 140):
                px, py = refpix(float(lo[k]), float(la[k]), z, band)
                c.require(abs(px - bx[k]) < 0.05 and abs(py - by[k]) < 0.05, 'border pixel')
        hull += list(zip(lo, la))
    want = MultiPoint(hull).convex_hull
    c.require(ext.geom_type == 'Polygon' and ext.is_valid, 'extent is a polygon')
    c.require(ext.buffer(tol).contains(want), 'image pixels lie outside of the extent, by %s', max(ext.distance(Point(p)) for p in hull))
    c.require(want.buffer(tol).contains(ext), 'the extent reaches beyond the image')


@CHECK.scenario(bound=(9, 9))
def ground_positions(c):
    """ground positions of pixels over flat terrain, all pixels or chosen ones"""
    name = c.choose('sensor', [s for s in p13.SENSORS if s != 'igm'])
    which = c.choose('pixels', ['all', 'some', '2d'])
    dk = c.choose('dem', ['none', 'constant'])
    band = c.choose('band', [0, 2])
    calc, refpix, native, foot = p13.sensor(name)
    im = p13.image(c, calc, np.zeros((p13.NY, p13.NX, p13.NB), 'uint8'), 'memory')
    dem = None if dk == 'none' else p13.dem_of(c, 'constant')[0]
    z = 0.0 if dk == 'none' else 12.5
    kw = {}
    if which == 'some':
        px, py = np.array([0, 5, 51, 20]), np.array([3, 0, 43, 20])
        kw = dict(pixels_x=px, pixels_y=py)
    elif which == '2d':
        px, py = np.array([[0., 5.5], [51., 20.]]), np.array([[3., 0.], [43., 20.25]])
        kw = dict(pixels_x=px, pixels_y=py)
    else:
        px, py = np.meshgrid(np.arange(p13.NX), np.arange(p13.NY))
    lo, la = c.op('positions', ortho_tools.get_pixel_lon_lats, im, dem, band=band, **kw)
    c.require(np.shape(lo) == np.shape(px) and np.shape(la) == np.shape(px), 'shape %s for pixels %s', np.shape(lo), np.shape(px))
    x, y = refpix(np.asarray(lo), np.asarray(la), z + 0 * np.asarray(lo), band)
    c.same(x, px, 'pixel x', atol=0.02)
    c.same(y, py, 'pixel y', atol=0.02)


@CHECK.scenario(bound=(9, 9))
def pixel_grid(c):
    """pixel grids hold every 1 / scale pixels in x, y order and values laid on them come back in place"""
    nx, ny = c.choose('nx', [1, 2, 7, 30, 300]), c.choose('ny', [1, 3, 8, 260])
    s = c.choose('scale', [None, 1, 2, 4, 0.5])
    xx, yy = c.op('grid', image_utils.create_pixel_grid, nx, ny, *(() if s is None else (s,)))
    s = s or 1
    wx = [k / s for k in range(int(math.ceil(nx * s)))]
    wy = [k / s for k in range(int(math.ceil(ny * s)))]
    c.same(xx, np.array([wx] * len(wy)), 'x of the pixel grid')
    c.same(yy, np.array([[v] * len(wx) for v in wy]), 'y of the pixel grid')
    a = np.arange(len(wx) * len(wy)).reshape(len(wy), len(wx))
    f = c.op('flatten', image_utils.flatten_image_band, a)
    c.same(f, a.ravel(), 'flattened')
    c.same(c.op('unflatten', image_utils.unflatten_image_band, f, len(wx), len(wy)), a, 'unflattened')


CRSS = {32618: (-74.3, 41.2), 32733: (14.2, -33.1), 3857: (12.0, -45.0), 4326: (100.5, 13.7), 5070: (-96.3, 38.0), 3035: (10.1, 51.0), 3413: (-40.0, 75.0),
        2154: (3.5, 46.0), 27700: (-2.0, 53.0), 2263: (-74.0, 40.7), 31370: (4.5, 50.8), 3031: (30.0, -80.0), 32661: (10.0, 86.0), 4269: (-100.0, 40.0)}


@CHECK.scenario(bound=(9, 9))
def wkt(c):
    """projections and spatial references made of WKT text are those the text describes"""
    code = c.choose('crs', list(CRSS))
    form = c.choose('form', ['WKT1_GDAL', 'WKT1_ESRI', 'WKT2_2019', 'pretty'])
    crs = CRS.from_epsg(code)
    text = crs.to_wkt('WKT1_GDAL', pretty=True) if form == 'pretty' else crs.to_wkt(form)
    p = c.op('projection', proj_utils.wkt_to_proj, text)
    ref = Proj(crs)
    lon, lat = CRSS[code]
    for dx, dy in ((0, 0), (0.3, 0.2), (-0.4, 0.1)):
        c.same(np.array(p(lon + dx, lat + dy)), np.array(ref(lon + dx, lat + dy)), 'position in EPSG:%d' % code, rtol=1e-9, atol=1e-4 if crs.is_projected else 1e-9)
    if crs.is_projected:
        x, y = ref(lon, lat)
        c.same(np.array(p(x, y, inverse=True)), np.array([lon, lat]), 'inverse in EPSG:%d' % code, atol=1e-8)
    q = c.op('string', proj_utils.wkt_to_proj_string, text)
    c.require(isinstance(q, str) and Proj(q).srs == p.srs, 'PROJ string %r', q)
    s = c.op('reference', proj_utils.wkt_to_osr_spatialref, text)
    want = osr.SpatialReference()
    want.ImportFromEPSG(code)
    c.require(s.IsProjected() == want.IsProjected() and abs(s.GetSemiMajor() - want.GetSemiMajor()) < 1e-6 and abs(s.GetLinearUnits() - want.GetLinearUnits()) < 1e-9,
              'spatial reference of EPSG:%d', code)
    c.same(np.array(Proj(s.ExportToProj4())(lon, lat)), np.array(ref(lon, lat)), 'position by the spatial reference', rtol=1e-9, atol=1e-4)


class Bulge(AbstractEarthOverheadPointCalc):
    """one side of the image bulges outwards; every band lies elsewhere on the ground"""

    def __init__(self, side, reach, offsets):
        super().__init__()
        self.side, self.reach, self.offsets = side, reach, offsets
        self.set_projection(proj('utm18n'))
        self.set_approximate_lon_lat_center(500320.0, 4423100.0)

    def place(self, x, y):
        """how far the bulge has moved along its axis, in pixels per pixel of distance from the opposite side"""
        if self.side in ('left', 'right'):
            return self.reach * np.sin(np.pi * np.asarray(y, dtype=float) / (p13.NY - 1)) / (p13.NX - 1)
        return self.reach * np.sin(np.pi * np.asarray(x, dtype=float) / (p13.NX - 1)) / (p13.NY - 1)

    def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
        x, y = np.asarray(pixel_xs, dtype=float), np.asarray(pixel_ys, dtype=float)
        k = self.place(x, y)
        if self.side == 'left':
            x = x - k * (p13.NX - 1 - x)
        elif self.side == 'right':
            x = x + k * x
        elif self.side == 'top':
            y = y - k * (p13.NY - 1 - y)
        else:
            y = y + k * y
        ox, oy = self.offsets[band or 0]
        return 500300.0 + 2.0 * x + 0.1 * y + ox, 4423150.0 - 2.0 * y + 0.2 * x + oy

    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        ox, oy = self.offsets[band or 0]
        u, v = np.asarray(lons, dtype=float) - 500300.0 - ox, np.asarray(lats, dtype=float) - 4423150.0 - oy
        x, y = (2.0 * u + 0.1 * v) / 4.02, (0.2 * u - 2.0 * v) / 4.02
        k = self.place(x, y)
        if self.side == 'left':
            x = (x + k * (p13.NX - 1)) / (1 + k)
        elif self.side == 'right':
            x = x / (1 + k)
        elif self.side == 'top':
            y = (y + k * (p13.NY - 1)) / (1 + k)
        else:
            y = y / (1 + k)
        return x, y


@CHECK.scenario(bound=(9, 9))
def bulging(c):
    """images whose borders are not straight on the ground: every border pixel of every band counts"""
    side = c.choose('side', ['left', 'right', 'top', 'bottom'])
    reach = c.choose('reach', [0.0, 3.0, 15.0])
    nb = c.choose('bands', [1, 2, 4, 7])
    order = c.choose('order', ['east', 'west', 'around'])
    ask = c.choose('ask', [None, 'last', 'list'])
    k = np.arange(nb)
    off = {'east': list(zip(11.0 * k, 0.0 * k)), 'west': list(zip(-7.0 * k, 3.0 * k)), 'around': list(zip(30 * np.cos(k), 30 * np.sin(k)))}[order]
    calc = Bulge(side, reach, off)
    calc._bands_coregistered = False
    md = p13.PhysicalCameraMetadata()
    md.set_npix_x(p13.NX)
    md.set_npix_y(p13.NY)
    md.set_n_bands(nb)
    im = p13.PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(np.zeros((p13.NY, p13.NX, nb), 'uint8'), md, calc)
    bl = {None: list(range(nb)), 'last': [nb - 1], 'list': list(range(nb))[::-2]}[ask]
    ext = c.op('extent', ortho_tools.get_extent, im, bands={None: None, 'last': nb - 1, 'list': bl}[ask])
    NX, NY = p13.NX, p13.NY
    bx, by = np.array([(x, y) for x in range(NX) for y in (0, NY - 1)] + [(x, y) for y in range(NY) for x in (0, NX - 1)], dtype=float).T
    hull = []
    for b in bl:
        hull += list(zip(*calc._pixel_x_y_alt_to_lon_lat_native(bx, by, 0.0, b)))
    want = MultiPoint(hull).convex_hull
    c.require(ext.geom_type == 'Polygon' and ext.is_valid, 'extent is a polygon')
    c.require(ext.buffer(0.01).contains(want), 'image pixels lie outside of the extent, by %s', max(ext.distance(Point(p)) for p in hull))
    c.require(want.buffer(0.01).contains(ext), 'the extent reaches beyond the image')
