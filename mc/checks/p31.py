"""image objects: what is on disk and what is in memory"""
import os

import gdal
import numpy as np
import osr

from mc import zoo
from mc.core import Check
from mc.util import PROJS, layout, proj
from mc.checks.p29 import cam_cv, tiff
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.image_factory import ImageFactory

CHECK = Check('P31', 'image objects', [
    'geotiff, physical camera, view ready stereo, ENVI, MicaSense and IGM images of up to 6 bands; histories of 3 operations (4 thorough) on two images alive at once',
    'a physical camera image with pixels in memory may answer read_band_from_disk from memory'])

GDAL = {'u1': gdal.GDT_Byte, 'u2': gdal.GDT_UInt16, 'i2': gdal.GDT_Int16, 'i4': gdal.GDT_Int32, 'f4': gdal.GDT_Float32, 'f8': gdal.GDT_Float64, 'c8': gdal.GDT_CFloat32}
FORMATS = {'tif': 'GTiff', 'img': 'HFA', 'dat': 'ENVI', 'png': 'PNG', 'vrt': 'VRT'}


def cube(shape, nb, dt, salt):
    n = shape[0] * shape[1]
    v = np.stack([((np.arange(n) * (7 + 2 * k) + 31 * k + 11 * salt) % 251).reshape(shape) for k in range(nb)], axis=2)
    if dt[0] == 'f':
        return (v * 0.37 - 20).astype(dt)
    if dt[0] == 'c':
        return (v * 0.5 + 1j * (v % 7)).astype(dt)
    return (v * (100 if dt in ('i4', 'u2') else 1) - (90 if dt[0] == 'i' else 0)).astype(dt)


def write(path, v, ext, nod=None, rpc=None):
    ny, nx, nb = v.shape
    mem = gdal.GetDriverByName('MEM').Create('', nx, ny, nb, GDAL[v.dtype.str[1:]])
    mem.SetGeoTransform((500000.0, 2.0, 0.0, 4400000.0, 0.0, -2.0))
    s = osr.SpatialReference()
    s.ImportFromProj4(PROJS['utm18n'])
    mem.SetProjection(s.ExportToWkt())
    for k in range(nb):
        mem.GetRasterBand(k + 1).WriteArray(np.ascontiguousarray(v[:, :, k]))
        if nod is not None:
            mem.GetRasterBand(k + 1).SetNoDataValue(nod)
    if rpc:
        mem.SetMetadata(rpc, 'RPC')
    if ext == 'vrt':
        gdal.GetDriverByName('GTiff').CreateCopy(path + '.tif', mem)
        src = gdal.Open(path + '.tif')
        d = gdal.GetDriverByName('VRT').CreateCopy(path, src)
    else:
        d = gdal.GetDriverByName(FORMATS[ext]).CreateCopy(path, mem)
    d = None


def build(c, kind, d, name, shape, nb, dt, salt, ext=None, nod=None):
    v = cube(shape, nb, dt, salt)
    pc = None
    if kind == 'geotiff':
        f = os.path.join(d, name + '.tif')
        write(f, v, 'tif', nod)
        im = c.op('open', ImageFactory.geotiff.from_file, f)
    elif kind == 'physical camera':
        f = os.path.join(d, name + '.' + (ext or 'tif'))
        write(f, v, ext or 'tif', nod)
        pc = zoo.build('pinhole').calc
        im = c.op('open', ImageFactory.physical_camera.from_gdal_file_and_single_point_calc, f, pc)
        c.require(im.get_point_calculator() is pc and im.pointcalc is pc, 'point calculator')
    elif kind == 'stereo':
        f = os.path.join(d, name + '.tif')
        s = zoo.rpc_params(salt)
        write(f, v, 'tif', nod, zoo.rpc_gdal_metadata(s))
        im = c.op('open', ImageFactory.digital_globe.view_ready_stereo.from_file, f)
        p = (s['lon_off'] + 0.3 * s['lon_scale'], s['lat_off'] - 0.2 * s['lat_scale'], s['alt_off'] + 3.0) if 'alt_off' in s else \
            (s['lon_off'] + 0.3 * s['lon_scale'], s['lat_off'] - 0.2 * s['lat_scale'], 190.0)
        c.same(im.get_point_calculator().lon_lat_alt_to_pixel_x_y(*p), zoo.ref_rpc(s, *p), 'pixel of the RPC of the file', atol=1e-4)
    elif kind == 'envi':
        f = os.path.join(d, name + '.dat')
        write(f, v, 'dat')
        im = c.op('open', ImageFactory.envi.from_file, f)
    else:
        f = os.path.join(d, name + '_1.tif')
        fn = {'band%d' % (k + 1): os.path.join(d, '%s_%d.tif' % (name, k + 1)) for k in range(5)}
        for k in range(5):
            tiff(fn['band%d' % (k + 1)], v[:, :, k])
        im = c.op('open', ImageFactory.micasense.from_image_number_and_opencv, fn, [cam_cv(k)[0] for k in range(5)])
    return im, v, f


def state(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as s:
            out[f] = s.read()
    return out


KINDS = ['geotiff', 'physical camera', 'stereo', 'envi', 'micasense']


@CHECK.scenario(bound=(2, 3))
def reading(c):
    """all bands and each band, metadata"""
    kind = c.choose('image', KINDS)
    dts = list(GDAL) if kind != 'micasense' else ['u1', 'u2']
    dt = c.choose('dtype', dts)
    nb = 5 if kind == 'micasense' else c.choose('bands', [3, 1, 2, 6])
    shape = c.vary('shape', [(4, 6), (1, 7), (8, 1), (40, 33)])
    nod = c.vary('no-data', [None, 0.0, 7.0, 255.0]) if kind in ('geotiff', 'physical camera', 'stereo') else None
    exts = ['tif', 'img', 'dat', 'vrt'] + (['png'] if dt in ('u1', 'u2') and nb in (1, 3) else [])
    ext = c.vary('format', exts) if kind == 'physical camera' else None
    folder = c.vary('folder', ['', 'a.b', 'with space'])
    name = c.vary('name', ['im', 'im.v2', 'IM 7'])
    first = c.vary('first', ['bands', 'all'])
    d = os.path.join(c.dir(), folder)
    os.makedirs(d, exist_ok=True)
    im, v, f = build(c, kind, d, name, shape, nb, dt, 0, ext, nod)
    before = state(d)
    c.require(im.get_image_data() is None, 'image data before it is set')
    c.require(im.get_image_band(0) is None, 'band before image data is set')

    def bands():
        for k in list(range(nb))[::-1]:
            a = c.op('band', im.read_band_from_disk, k)
            c.same(a, v[:, :, k], 'band %d' % k, dtype=v.dtype)
            a[...] = 1     # the array belongs to the caller

    def everything():
        a = c.op('all', im.read_all_image_data_from_disk)
        c.same(a, v, 'all bands', dtype=v.dtype)
        if last and kind != 'envi':
            im.set_image_data(a)
            for k in range(nb):
                c.same(c.op('band in memory', im.get_image_band, k), v[:, :, k], 'band %d in memory' % k, dtype=v.dtype)
            im.set_image_data(None)
        a[...] = 2
    last = False
    for g in ([bands, everything, bands] if first == 'bands' else [everything, bands, everything]):
        g()
    last = True
    everything()
    md = im.get_metadata()
    c.require(md is im.metadata if kind != 'envi' else True, 'metadata property')
    if kind == 'micasense':
        return
    c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (shape[1], shape[0], nb), 'size of the metadata')
    if kind != 'envi':
        c.require(md.get_gdal_datatype() == GDAL[dt], 'data type %r', md.get_gdal_datatype())
        c.require(md.get_nodata_val() == nod, 'no-data %r, expected %r', md.get_nodata_val(), nod)
        c.require(os.path.basename(md.get_image_name()) == name, 'name %r', md.get_image_name())
    c.require(state(d) == before, 'files changed')


OPS = ['read band', 'read all', 'load', 'set array', 'set band', 'edit array', 'unset', 'metadata', 'reopen']


def history(c, depth, kinds):
    kind = c.choose('image', kinds)
    dt = 'u2'
    shape, nb = (3, 5), (5 if kind == 'micasense' else 3)
    d = c.dir()
    ims, disk, mem, paths, md = [], [], [None, None], [], [{}, {}]
    for k in range(2):
        im, v, f = build(c, kind, d, 'im%d' % k, shape, nb, dt, k)
        ims.append(im)
        disk.append(v)
        paths.append(f)
    before = state(d)

    def verify(what):
        for k in range(2):
            who = 'image %d after %s' % (k, what)
            if mem[k] is None:
                c.require(ims[k].get_image_data() is None, who + ': data in memory')
                c.require(ims[k].get_image_band(1) is None, who + ': band in memory')
            else:
                c.same(ims[k].get_image_data(), mem[k], who + ': memory', dtype=mem[k].dtype)
                for b in range(nb):
                    c.same(c.op('get band', ims[k].get_image_band, b), mem[k][:, :, b], who + ': band %d in memory' % b)
            c.same(c.op('read all', ims[k].read_all_image_data_from_disk), disk[k], who + ': disk', dtype=np.dtype(dt))
            for b in range(nb):
                a = c.op('read band', ims[k].read_band_from_disk, b)
                if kind == 'physical camera' and mem[k] is not None and np.array_equal(a, mem[k][:, :, b]):
                    continue
                c.same(a, disk[k][:, :, b], who + ': band %d on disk' % b, dtype=np.dtype(dt))
            for key, val in md[k].items():
                got = getattr(ims[k].get_metadata(), 'get_' + key)()
                c.require(got == val, '%s: %s is %r, expected %r', who, key, got, val)
    verify('opening')
    for i in range(depth):
        op = c.choose('op%d' % i, OPS)
        k = c.choose('on%d' % i, [0, 1])
        im = ims[k]
        if op == 'read band':
            a = im.read_band_from_disk(1)
            a = a.copy() if kind == 'physical camera' else a
            a += 1
        elif op == 'read all':
            a = im.read_all_image_data_from_disk()
            a[...] = 0
        elif op == 'load':
            im.set_image_data(im.read_all_image_data_from_disk())
            mem[k] = disk[k].copy()
        elif op == 'set array':
            v = cube(shape, nb, 'f8', 5 + i)
            im.set_image_data(v)
            mem[k] = v.copy()
        elif op == 'set band':
            if mem[k] is None:
                continue
            b = (i + k) % nb
            v = cube(shape, 1, 'u1', 9 + i)[:, :, 0]
            im.set_image_band(v, b)
            mem[k][:, :, b] = v
            v[...] = 3
        elif op == 'edit array':
            if mem[k] is None:
                continue
            im.get_image_data()[1, 2, :] = 77
            mem[k][1, 2, :] = 77
        elif op == 'unset':
            im.set_image_data(None)
            mem[k] = None
        elif op == 'metadata':
            im.get_metadata().set_nodata_val(40 + i)
            im.get_metadata().set_image_name('n%d' % i)
            md[k].update(nodata_val=40 + i, image_name='n%d' % i)
        else:
            if kind == 'micasense':
                continue
            f = {'geotiff': ImageFactory.geotiff.from_file, 'stereo': ImageFactory.digital_globe.view_ready_stereo.from_file, 'envi': ImageFactory.envi.from_file,
                 'physical camera': lambda p: ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(p, im.get_point_calculator())}[kind]
            ims[k] = c.op('open', f, paths[k])
            mem[k] = None
            md[k] = {}
        verify(op)
    c.require(state(d) == before, 'files changed')


@CHECK.scenario(bound=(9, 9))
def histories(c):
    """every sequence of up to 2 operations on images of each kind"""
    history(c, 2, KINDS)


@CHECK.scenario(bound=(9, 9))
def longer_histories(c):
    """every sequence of 3 operations on one kind of image"""
    history(c, 3, ['geotiff'])


@CHECK.scenario(bound=(9, 9), tiers=('thorough',))
def deep_histories(c):
    """every sequence of 3 operations on images of each kind"""
    history(c, 3, KINDS)


@CHECK.scenario(bound=(2, 3))
def from_memory(c):
    """images of arrays: geotiff, physical camera, igm"""
    kind = c.choose('image', ['geotiff', 'physical camera', 'igm'])
    dt = c.choose('dtype', list(GDAL))
    nb = c.choose('bands', [3, 1, 2])
    shape = c.vary('shape', [(4, 6), (3, 7), (8, 2)])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    nod = c.vary('no-data', [None, 0, 3.0])
    v = cube(shape, nb, dt, 1)
    a = layout(v, lay)
    ny, nx = shape
    jj, ii = np.mgrid[0:ny, 0:nx].astype(float)
    if kind == 'geotiff':
        im = c.op('build', ImageFactory.geotiff.from_numpy_array, a, [500000.0, 2.0, 0.0, 4400000.0, 0.0, -2.0], proj('utm18n'), nodata_val=nod)
    elif kind == 'physical camera':
        md = PhysicalCameraMetadata()
        md.set_npix_x(nx)
        md.set_npix_y(ny)
        md.set_n_bands(nb)
        md.set_nodata_val(nod)
        pc = zoo.build('pinhole').calc
        im = c.op('build', ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc, a, md, pc)
        c.require(im.get_metadata() is md and im.get_point_calculator() is pc, 'metadata and point calculator')
        for b in range(nb):
            c.same(c.op('band', im.read_band_from_disk, b), v[:, :, b], 'band %d' % b, dtype=v.dtype)
    else:
        im = c.op('build', IgmImage.from_params, a, 500000.0 + 2 * ii, 4400000.0 - 2 * jj, 5.0 + 0 * ii, nb, proj('utm18n'))
        nod = None
    md = im.get_metadata()
    c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands(), md.get_nodata_val()) == (nx, ny, nb, nod), 'metadata %r', md.metadata_dict)
    c.same(im.get_image_data(), v, 'image', dtype=v.dtype)
    for b in range(nb):
        c.same(c.op('band', im.get_image_band, b), v[:, :, b], 'band %d' % b, dtype=v.dtype)
    # bands set one by one take the place of those before, wherever the array keeps its pixels
    new = cube(shape, nb, dt, 6)
    for b in list(range(nb))[::-1]:
        c.op('set band', im.set_image_band, layout(new[:, :, b], lay), b)
        v[:, :, b] = new[:, :, b]
        c.same(im.get_image_data(), v, 'image after band %d was set' % b, dtype=v.dtype)
        c.same(c.op('band', im.get_image_band, b), v[:, :, b], 'band %d after it was set' % b, dtype=v.dtype)
    if kind != 'physical camera':
        px, py = (np.array([1]), np.array([2])) if kind == 'igm' else (np.array([1.0]), np.array([2.0]))
        lo, la = c.op('to ground', im.get_point_calculator().pixel_x_y_alt_to_lon_lat, px, py, np.array([5.0]))
        c.same([lo[0], la[0]], [500002.0, 4399996.0], 'ground position', atol=1e-6)


@CHECK.scenario(bound=(9, 9))
def exports(c):
    """every sequence of 4 changes and exports of one geotiff: exports show the pixels of that moment and change nothing"""
    kind = c.choose('image', ['array', 'file'])
    nb = c.choose('bands', [1, 2])
    dt, shape = 'u2', (3, 5)
    d = c.dir()
    geot = [500000.0, 2.0, 0.0, 4400000.0, 0.0, -2.0]
    now = cube(shape, nb, dt, 1)
    im = c.op('build', ImageFactory.geotiff.from_numpy_array, now.copy(), list(geot), proj('utm18n'))
    disk = None
    if kind == 'file':
        f = os.path.join(d, 'im.tif')
        c.op('write', im.write_to_disk, f)
        im = c.op('open', ImageFactory.geotiff.from_file, f)
        disk = now.copy()
    changed = False
    for i in range(4):
        op = c.choose('op%d' % i, ['write', 'warp', 'dataset', 'edit array', 'set band', 'set array', 'no-data'])
        if op in ('edit array', 'set band') and im.get_image_data() is None:
            c.op('load', lambda: im.set_image_data(im.read_all_image_data_from_disk()))
        if op == 'edit array':
            im.get_image_data()[1, 2, :] = 70 + i
            now[1, 2, :] = 70 + i
            changed = True
        elif op == 'set band':
            v = cube(shape, 1, dt, 9 + i)[:, :, 0]
            c.op('set band', im.set_image_band, v, nb - 1)
            now[:, :, nb - 1] = v
            changed = True
        elif op == 'set array':
            now = cube(shape, nb, dt, 5 + i)
            im.set_image_data(now.copy())
            changed = True
        elif op == 'no-data':
            im.get_metadata().set_nodata_val(60000 + i)
        else:
            if op == 'write':
                g = os.path.join(d, 'out%d.tif' % i)
                c.op('write', im.write_to_disk, g)
                got = c.op('open', ImageFactory.geotiff.from_file, g).read_all_image_data_from_disk()
            elif op == 'dataset':
                ds = c.op('dataset', im.get_gdal_mem_datset)
                got = np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(nb)], axis=2)
            else:
                out = c.op('warp', GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(dstSRS='EPSG:32618'))
                got = out.read_all_image_data_from_disk()
                if kind == 'file' and changed:
                    got = now       # whether the file or the memory is warped is not claimed
            c.same(got, now, '%s %d' % (op, i), dtype=np.dtype(dt))
        if im.get_image_data() is not None:
            c.same(im.get_image_data(), now, 'memory after %s' % op, dtype=np.dtype(dt))
        else:
            c.require(not changed, 'no data in memory after %s', op)
        if disk is not None:
            c.same(c.op('read', im.read_all_image_data_from_disk), disk, 'file after %s' % op, dtype=np.dtype(dt))


@CHECK.scenario(bound=(9, 9))
def large(c):
    """images of more pixels than one block"""
    kind = c.choose('image', KINDS)
    dt = c.choose('dtype', ['u1', 'f4', 'i2'] if kind != 'micasense' else ['u1', 'u2'])
    shape = c.choose('shape', [(300, 257), (5, 4100), (1100, 7)])
    nb = 5 if kind == 'micasense' else c.choose('bands', [3, 1])
    d = c.dir()
    im, v, f = build(c, kind, d, 'im', shape, nb, dt, 0)
    v = v.copy()
    for k in list(range(nb))[::-1]:
        c.same(c.op('band', im.read_band_from_disk, k), v[:, :, k], 'band %d' % k, dtype=v.dtype)
    a = c.op('all', im.read_all_image_data_from_disk)
    c.same(a, v, 'all bands', dtype=v.dtype)
    im.set_image_data(a)
    new = (v[:, :, nb - 1].astype(float) % 50 + 1).astype(v.dtype)
    im.set_image_band(new, nb - 1)
    v[:, :, nb - 1] = new
    c.same(im.get_image_data(), v, 'image in memory', dtype=v.dtype)
    for k in range(nb):
        c.same(c.op('band', im.get_image_band, k), v[:, :, k], 'band %d in memory' % k, dtype=v.dtype)
    if kind != 'micasense':      # a camera of fixed size
        md = im.get_metadata()
        c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (shape[1], shape[0], nb), 'size in the metadata')
