"""GeoTIFF round trips and write/read/edit histories"""
import os

import gdal
import numpy as np
import osr
from osgeo import gdal_array

from mc.core import Check
from mc.util import INT_TYPES, FLOAT_TYPES, COMPLEX_TYPES, layout, name, pattern, proj, PROJS
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage

CHECK = Check('P01', 'geotiff round trip', [
    'rasters up to 300x300 pixels and 7 bands, the 12 raster types GDAL can store, LZW/DEFLATE/PACKBITS/NONE',
    'histories of up to 4 operations over two files and two image objects',
    'GDAL itself (a second, direct reader) and the local file system are trusted'])

TYPES = INT_TYPES + FLOAT_TYPES + COMPLEX_TYPES
GEOTS = {
    'northup': [500000.0, 2.5, 0.0, 4649776.5, 0.0, -2.5],
    'unit': [0, 1, 0, 0, 0, -1],
    'rotated': [350123.25, 0.75, -1.25, 5500321.125, -1.5, -0.5],
    'southup': [-120.0, 0.001, 0.0, -35.5, 0.0, 0.002],
    'flipped': [1e6 / 3, -3.0, 0.1, 7e6 / 3, 0.2, 3.0],
}
SHAPES = [(5, 7, 3), (6, 4), (1, 1, 1), (1, 9, 2), (8, 1, 2), (3, 2, 7), (300, 258, 1), (257, 300, 2)]


def srs_of(p):
    s = osr.SpatialReference()
    s.ImportFromProj4(p.srs)
    return s


def same_crs(p, q):
    """same coordinates for the same place"""
    from pyproj import Transformer
    pts = np.array([[-75.2, 40.1], [-76.5, 12.0], [14.0, -20.0]])
    a = np.array(p(pts[:, 0], pts[:, 1]))
    b = np.array(q(pts[:, 0], pts[:, 1]))
    ok = np.isfinite(a) & np.isfinite(b)
    return bool(np.all(np.abs(a - b)[ok] < 1e-6 * np.maximum(1, np.abs(a[ok])))) and p.crs.is_geographic == q.crs.is_geographic


def nodata_same(got, want):
    if want is None or got is None:
        return got is None and want is None
    return got == want or (got != got and want != want)


def as3(a):
    return a if a.ndim == 3 else a[:, :, None]


def check_image(c, im, a, geot, p, nodata, what, from_file):
    a3 = as3(a)
    m = im.get_metadata()
    c.require((m.get_npix_x(), m.get_npix_y(), m.get_n_bands()) == (a3.shape[1], a3.shape[0], a3.shape[2]),
              '%s: size %s', what, (m.get_npix_x(), m.get_npix_y(), m.get_n_bands()))
    c.require(nodata_same(m.get_nodata_val(), nodata), '%s: nodata %r expected %r', what, m.get_nodata_val(), nodata)
    c.require(m.get_gdal_datatype() == gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype),
              '%s: data type %s', what, m.get_gdal_datatype())
    pc = im.get_point_calculator()
    c.same(np.array(pc.get_geot(), dtype=float), np.array(geot, dtype=float), what + ': geotransform', rtol=1e-13, atol=1e-12)
    c.require(same_crs(pc.get_projection(), p), '%s: projection %s expected %s', what, pc.get_projection().srs, p.srs)
    if from_file:
        whole = c.op('read_all', im.read_all_image_data_from_disk)
        c.same(whole, a3, what + ': whole image', dtype=a.dtype)
        for b in range(a3.shape[2]):
            band = c.op('read_band', im.read_band_from_disk, b)
            c.same(band, a3[:, :, b], what + ': band %d' % b, dtype=a.dtype)
        for b in (a3.shape[2], -1):
            ok, _ = c.attempt('read_band', im.read_band_from_disk, b)
            c.require(not ok, '%s: band %d was read of %d', what, b, a3.shape[2])
    else:
        c.same(im.get_image_data(), a3, what + ': image data', dtype=a.dtype)
        for b in range(a3.shape[2]):
            c.same(im.get_image_band(b), a3[:, :, b], what + ': band %d' % b)


def check_dset(c, ds, a, geot, p, nodata, what):
    a3 = as3(a)
    c.require(ds is not None, '%s: no dataset', what)
    c.require((ds.RasterXSize, ds.RasterYSize, ds.RasterCount) == (a3.shape[1], a3.shape[0], a3.shape[2]), '%s: size', what)
    c.same(np.array(ds.GetGeoTransform()), np.array(geot, dtype=float), what + ': geotransform', rtol=1e-13, atol=1e-12)
    s = osr.SpatialReference()
    s.ImportFromWkt(ds.GetProjection())
    from pyproj import Proj
    c.require(same_crs(Proj(s.ExportToProj4(), preserve_units=True), p), '%s: projection %s', what, ds.GetProjection())
    for b in range(a3.shape[2]):
        band = ds.GetRasterBand(b + 1)
        c.same(band.ReadAsArray(), a3[:, :, b], what + ': band %d' % b, dtype=a.dtype)
        c.require(nodata_same(band.GetNoDataValue(), nodata), '%s: nodata of band %d is %r, expected %r', what, b,
                  band.GetNoDataValue(), nodata)


@CHECK.scenario(bound=(2, 3))
def roundtrip(c):
    """one image of every data type, layout, no-data value and compression, written and opened again; a second GDAL open is the second reader"""
    dt = c.choose('dtype', [name(t) for t in TYPES])
    shape = c.vary('shape', SHAPES)
    gk = c.vary('geotransform', list(GEOTS))
    pk = c.vary('projection', list(PROJS))
    kinds = {'f': ['none', -9999, 2.5, float('nan'), 0, 1e30], 'u': ['none', 0, 200], 'i': ['none', -99, 0, 100],
             'c': ['none', 0, 2.5]}[np.dtype(dt).kind]
    # the ends of the range of each type
    if np.dtype(dt).kind in 'iu':
        kinds = kinds + [int(np.iinfo(dt).max), int(np.iinfo(dt).min)]
    nod = c.vary('nodata', kinds)
    comp = c.vary('compression', ['default', 'DEFLATE', 'NONE', 'PACKBITS'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    geot_t = c.vary('geot_type', ['list', 'tuple', 'array'])
    content = c.vary('content', ['coded', 'zero last band', 'zero first band', 'constant', 'equal bands', 'ramp'])
    nodata = None if nod == 'none' else nod
    if dt == 'float32' and nodata == 1e30:
        nodata = float(np.float32(1e30))
    a = pattern(shape, dt)
    if np.dtype(dt).kind == 'f' and a.size > 6:
        a.reshape(-1)[4] = np.nan
        a.reshape(-1)[5] = np.inf
    if content == 'zero last band' and a.ndim == 3:
        a[:, :, -1] = 0
    elif content == 'zero first band' and a.ndim == 3:
        a[:, :, 0] = 0
    elif content == 'constant':
        a[...] = 100
    elif content == 'equal bands' and a.ndim == 3:
        a[...] = a[:, :, :1]
    elif content == 'ramp':
        a[...] = (np.arange(a.size) % 100).reshape(a.shape)
    keep = a.copy()
    arr = layout(a, lay)
    geot = GEOTS[gk]
    g_in = {'list': list, 'tuple': tuple, 'array': np.array}[geot_t](geot)
    p = proj(pk)
    im = c.op('from_numpy_array', ImageFactory.geotiff.from_numpy_array, arr, g_in, p, nodata)
    check_image(c, im, keep, geot, p, nodata, 'created image', False)
    folder = os.path.join(c.dir(), c.vary('folder', ['', 'v1.0', 'a b.tif']))
    os.makedirs(folder, exist_ok=True)
    f = os.path.join(folder, 'a.tif')
    kw = {} if comp == 'default' else {'compression': comp}
    c.op('write_to_disk', im.write_to_disk, f, **kw)
    check_dset(c, gdal.Open(f), keep, geot, p, nodata, 'file as GDAL sees it')
    if comp != 'default':
        used = gdal.Open(f).GetMetadataItem('COMPRESSION', 'IMAGE_STRUCTURE')
        c.require((used or 'NONE') == comp, 'asked for compression %s, the file has %s', comp, used)
    back = c.op('from_file', ImageFactory.geotiff.from_file, f)
    check_image(c, back, keep, geot, p, nodata, 'image read back', True)
    c.require(back.get_metadata().get_image_name() == f[:-4], 'image name %s', back.get_metadata().get_image_name())
    check_dset(c, c.op('mem', im.get_gdal_mem_datset), keep, geot, p, nodata, 'memory dataset of the created image')
    check_dset(c, c.op('mem', back.get_gdal_mem_datset), keep, geot, p, nodata, 'memory dataset of the image read back')
    k3 = keep if keep.ndim == 3 else keep[:, :, None]
    c.same(back.get_image_data(), k3, 'pixels kept by the image read back', dtype=k3.dtype)
    # second generation: file backed image written again
    f2 = os.path.join(folder, 'b.x.tif')
    c.op('write_to_disk', back.write_to_disk, f2, **kw)
    again = c.op('from_file', ImageFactory.geotiff.from_file, f2)
    check_image(c, again, keep, geot, p, nodata, 'second generation', True)
    c.require(again.get_metadata().get_image_name() == f2[:-4], 'image name %s', again.get_metadata().get_image_name())
    c.same(arr, keep, 'caller array changed')
    c.same(np.array(g_in), np.array(geot), 'caller geotransform changed')


# ---------------------------------------------------------------------------------------- histories
IMGS = [
    dict(shape=(4, 6, 2), dt='uint8', geot='northup', proj='utm18n', nodata=None),
    dict(shape=(5, 3, 3), dt='float64', geot='rotated', proj='lonlat', nodata=-9999),
    dict(shape=(4, 6, 2), dt='int16', geot='southup', proj='utm33s', nodata=7),
]


class Obj(object):
    """model of one image object"""

    def __init__(self, real, data, geot, p, nodata, path=None):
        self.real, self.data, self.geot, self.p, self.nodata = real, data, geot, p, nodata
        self.path = path           # file it was opened from while it still reads from it
        self.loaded = path is None


def run_history(c, depth, from_file):
    files = {}
    objs = [None, None]
    d = c.dir()
    made = 0
    if from_file:
        k = IMGS[c.choose('file', [0, 1])]
        a = pattern(k['shape'], k['dt'], salt=9)
        p = proj(k['proj'])
        f = os.path.join(d, 'f.tif')
        c.op('create', ImageFactory.geotiff.from_numpy_array, a.copy(), list(GEOTS[k['geot']]), p, k['nodata']).write_to_disk(f)
        files['f'] = (a.copy(), GEOTS[k['geot']], p, k['nodata'])
        objs[0] = Obj(c.op('open', ImageFactory.geotiff.from_file, f), a, GEOTS[k['geot']], p, k['nodata'], path='f')
    for step in range(depth):
        menu = ['stop'] if step else []
        for s in (0, 1):
            if objs[s] is None:
                if s == 0 or objs[0] is not None:
                    for k in range(len(IMGS) if step == 0 else 2):
                        menu.append(('create', s, k))
            else:
                o = objs[s]
                for f in ('f', 'g'):
                    if o.path != f:
                        menu.append(('write', s, f))
                if o.loaded:
                    menu.append(('edit', s))
                else:
                    menu.append(('load', s))
                menu.append(('mem', s))
                if s == 0:
                    menu.append(('nodata', s))
        for f in sorted(files):
            menu.append(('open', 1, f))
            if step >= 2:
                menu.append(('open', 0, f))
        op = c.choose('op%d' % step, menu)
        if op == 'stop':
            break
        kind, s = op[0], op[1]
        if kind == 'create':
            k = IMGS[op[2]]
            made += 1
            a = pattern(k['shape'], k['dt'], salt=made)
            p = proj(k['proj'])
            real = c.op('create', ImageFactory.geotiff.from_numpy_array, a.copy(), list(GEOTS[k['geot']]), p, k['nodata'])
            objs[s] = Obj(real, a, GEOTS[k['geot']], p, k['nodata'])
        elif kind == 'write':
            o = objs[s]
            c.op('write', o.real.write_to_disk, os.path.join(d, op[2] + '.tif'))
            o.loaded = True
            files[op[2]] = (o.data.copy(), o.geot, o.p, o.nodata)
            for q in objs:
                if q is not None and q.path == op[2]:
                    # the file behind that object was replaced: drop it, its lazy reads are undefined
                    objs[objs.index(q)] = None
        elif kind == 'edit':
            o = objs[s]
            b = o.data.shape[2] - 1
            made += 1
            new = pattern(o.data.shape[:2], o.data.dtype, salt=made)
            c.op('set_image_band', o.real.set_image_band, new, b)
            o.data = o.data.copy()
            o.data[:, :, b] = new
        elif kind == 'load':
            o = objs[s]
            c.op('load', lambda: o.real.set_image_data(o.real.read_all_image_data_from_disk()))
            o.loaded = True
        elif kind == 'mem':
            o = objs[s]
            ds = c.op('mem', o.real.get_gdal_mem_datset)
            o.loaded = True
            check_dset(c, ds, o.data, o.geot, o.p, o.nodata, 'memory dataset')
        elif kind == 'nodata':
            o = objs[s]
            o.nodata = 3 if o.nodata is None else 11
            o.real.get_metadata().set_nodata_val(o.nodata)
        elif kind == 'open':
            a, geot, p, nodata = files[op[2]]
            real = c.op('open', ImageFactory.geotiff.from_file, os.path.join(d, op[2] + '.tif'))
            objs[s] = Obj(real, a.copy(), geot, p, nodata, path=op[2])
            objs[s].loaded = False
    c.observe(sorted((f, v[0]) for f, v in files.items()), [None if o is None else (o.data, o.nodata) for o in objs])
    for f, (a, geot, p, nodata) in files.items():
        check_dset(c, gdal.Open(os.path.join(d, f + '.tif')), a, geot, p, nodata, 'file %s' % f)
        check_image(c, c.op('open', ImageFactory.geotiff.from_file, os.path.join(d, f + '.tif')), a, geot, p, nodata,
                    'file %s' % f, True)
    for i, o in enumerate(objs):
        if o is not None:
            if o.loaded:
                check_image(c, o.real, o.data, o.geot, o.p, o.nodata, 'object %d' % i, False)
            else:
                check_image(c, o.real, o.data, o.geot, o.p, o.nodata, 'object %d' % i, True)


@CHECK.scenario(bound=(9, 9))
def history(c):
    """every sequence of operations over two object slots and two files, compared with a dictionary model"""
    run_history(c, 4, False)


@CHECK.scenario(bound=(9, 9))
def history_of_a_file(c):
    """every sequence of operations which starts with an image opened from a file"""
    run_history(c, 4, True)
