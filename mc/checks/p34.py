"""files that can not be written completely, files cut short"""
import os
import resource
import signal
import sys

import imageio.v2 as imageio
import numpy as np
from osgeo import gdal

from mc.core import Check
from mc.util import pattern, proj
from mc.checks import p32
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.utils import envi_utils, file_utils
from resippy.utils.image_utils import image_chipper
from shapely.geometry import box

CHECK = Check('P34', 'interrupted writes and cut files', [
    'a full disk is a file size limit of k bytes on the writing process (the write that reaches byte k fails or is cut, as on a full disk)',
    'a raster damaged without changing its length is not judged, nor are text and raw formats that carry no length of their own',
    'what is on the disk after a refused write is not judged'])

GEOT = [500000.0, 2.0, 0.0, 4400000.0, 0.0, -2.0]
WROTE, RAISED, CHANGED, AGAIN = 0, 3, 4, 5


def limited(c, write, limit, again, check=None):
    """run write in a process whose files can not grow beyond limit bytes; optionally once more without the limit"""
    c.stats['transitions'] += 1
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                write()
                code = WROTE
            except Exception:
                code = RAISED
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            if check is not None and not check(code):
                code = CHANGED
            elif again and code == RAISED:
                try:
                    write()
                    code = AGAIN
                except Exception:
                    code = RAISED
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    return os.waitstatus_to_exitcode(st)


def points(n, part, parts, some=16):
    """bytes at which the disk is full: every byte of the first and last bytes, others evenly"""
    ks = sorted(set(list(range(0, min(n, some))) + [n * i // (2 * some) for i in range(2 * some)] + list(range(max(0, n - some), n)) +
                    [k for k in range(4096, n, 4096) if k < 3 * 4096 or k > n - 3 * 4096] + [k - 1 for k in range(8192, n, 8192) if k < 30000]))
    return [k for i, k in enumerate(ks) if i % parts == part]


def run(c, write, complete, files, before=None, check=None, some=16, parts=2):
    """complete(): None or what is wrong with the files, read back"""
    part = c.choose('part', list(range(parts)))
    again = c.vary('again with space', [False, True])
    if before:
        before()
    c.op('write', write)
    c.require(complete() is None, 'with enough space: %s', complete())
    n = max(os.path.getsize(f) for f in files)
    for k in points(n, part, parts, some):
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        if before:
            before()
        code = limited(c, write, k, again, check)
        c.require(code in (WROTE, RAISED, AGAIN, CHANGED), 'writing with space for %d of %d bytes ends the process (%s)', k, n, code)
        c.require(code != CHANGED, 'writing with space for %d of %d bytes changes the data in memory', k, n)
        c.stats['conditions'] += 1
        if code == RAISED:
            c.require(not again, 'refused with space for %d of %d bytes, and once more when there is space again', k, n)
            continue
        bad = complete()
        c.require(bad is None, '%s with space for %d of %d bytes: no error, but %s', 'written again after a write' if code == AGAIN else 'written', k, n, bad)
        c.observe(code, k < n)


def same_values(a, b):
    return bool(np.all((a == b) | ((a != a) & (b != b))))


def same_raster(f, want, geot=None, nodata=None):
    try:
        im = GeotiffImageFactory.from_file(f)
        a = im.read_all_image_data_from_disk()
    except Exception as e:
        return 'the file can not be read: %s' % e
    if a is None or a.shape != want.shape or a.dtype != want.dtype or not same_values(a, want):
        return 'the file holds other pixels'
    if geot is not None and list(im.get_point_calculator().get_geot()) != list(geot):
        return 'the file has another geotransform'
    if nodata is not None and im.get_metadata().get_nodata_val() != nodata:
        return 'the file has another no-data value'
    return None


@CHECK.scenario(bound=(1, 2))
def geotiff(c):
    """GeoTIFF written with space for k bytes, all sizes and compressions, over older files too"""
    write_geotiff(c, 16)


@CHECK.scenario(bound=(1, 1), tiers=('thorough',))
def geotiff_dense(c):
    """the same at more bytes"""
    write_geotiff(c, 150)


def write_geotiff(c, some):
    shape = c.choose('shape', [(9, 12, 2), (1, 1, 1), (40, 30, 3), (270, 260, 2)])
    comp = c.choose('compression', ['LZW', 'NONE', 'DEFLATE'])
    dt = c.vary('dtype', ['float32', 'uint8', 'int16', 'complex64'])
    nodata = c.vary('nodata', [None, 7])
    old = c.vary('file before', ['none', 'geotiff', 'text', 'longer'])
    src = c.vary('source', ['memory', 'file'])
    d = c.dir()
    a = pattern(shape, dt)
    im = GeotiffImageFactory.from_numpy_array(a.copy(), GEOT, proj('utm18n'), nodata)
    if src == 'file':
        im.write_to_disk(os.path.join(d, 'src.tif'))
        im = GeotiffImageFactory.from_file(os.path.join(d, 'src.tif'))
    f = os.path.join(d, 'out.tif')

    def before():
        if old == 'text':
            with open(f, 'w') as s:
                s.write('something else\n' * 30)
        elif old != 'none':
            sh = (4, 5, 1) if old == 'geotiff' else (60, 300, 3)
            GeotiffImageFactory.from_numpy_array(pattern(sh, 'uint8', salt=9), GEOT, proj('utm18n'), None).write_to_disk(f)
    run(c, lambda: im.write_to_disk(f, comp), lambda: same_raster(f, a, GEOT, nodata), [f], before,
        lambda code: im.get_image_data() is None or np.array_equal(im.get_image_data(), a), some, 3)


@CHECK.scenario(bound=(1, 2))
def derived(c):
    """warps, orthos and height conversions into files"""
    kind = c.choose('kind', ['warp', 'warp lonlat', 'ortho', 'ortho warp', 'geoid', 'ellipsoid'])
    src = c.vary('source', ['memory', 'file'] if kind not in ('geoid', 'ellipsoid') else ['file'])
    shape = c.vary('shape', [(14, 17, 2), (90, 70, 1), (1, 1, 1)])
    if kind in ('geoid', 'ellipsoid'):
        shape = shape[:2] + (1,)
    if kind.startswith('ortho') and shape == (1, 1, 1):
        return
    d = c.dir()
    a = (np.indices(shape).sum(axis=0) * 3.5 + 1 + pattern(shape, 'uint8') % 7).astype('float32')
    f, g = os.path.join(d, 'out.tif'), os.path.join(d, 'want.tif')
    im = GeotiffImageFactory.from_numpy_array(a.copy(), GEOT, proj('utm18n'), -99)
    if src == 'file':
        im.write_to_disk(os.path.join(d, 'src.tif'))
        im = GeotiffImageFactory.from_file(os.path.join(d, 'src.tif'))
    before = check = None
    if kind.startswith('warp'):
        def write(p):
            ops = gdal.WarpOptions(dstSRS='EPSG:4326') if kind == 'warp lonlat' else gdal.WarpOptions(xRes=1.0, yRes=1.0)
            GeotiffImage.gdalwarp_geotiff_image(im, ops, p)
    elif kind.startswith('ortho'):
        poly = box(500001.0, 4400000.0 - 2 * shape[0], 500000.0 + 2 * shape[1], 4400003.0)
        fn = ortho_tools.create_ortho_gtiff_image_world_to_sensor if kind == 'ortho' else ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup

        def write(p):
            fn(im, shape[1] + 3, shape[0] + 2, poly, world_proj=proj('utm18n'), output_fname=p, nodata_val=-99)
    else:
        gf = os.path.join(d, 'geoid.gtx')
        p32.gtx(gf, p32.grid('low', 'utm18n'))
        dem, heights = [], []

        def fresh():
            # a conversion changes the DEM: each one starts with the DEM of the file
            dem[:] = [DemFactory.from_gtiff_file(os.path.join(d, 'src.tif'), nodata_value=-99)]
            return dem[0].get_elevations(np.array([GEOT[0] + 3.0]), np.array([GEOT[3] - 3.0]), world_proj=proj('utm18n'))

        def write(p):
            if kind == 'geoid':
                dem[0].convert_to_geoid_heights(p, gf)
            else:
                dem[0].convert_to_ellipsoid_heights(p, gf)
        before, heights = fresh, fresh()

        def check(code):
            got = dem[0].get_elevations(np.array([GEOT[0] + 3.0]), np.array([GEOT[3] - 3.0]), world_proj=proj('utm18n'))
            return code != RAISED or same_values(got, heights)
    c.op('reference', write, g)
    ref = GeotiffImageFactory.from_file(g)
    want, geot = ref.read_all_image_data_from_disk(), ref.get_point_calculator().get_geot()
    ref = None
    run(c, lambda: write(f), lambda: same_raster(f, want, geot), [f], before, check, 12, 6)


@CHECK.scenario(bound=(1, 2))
def others(c):
    """ENVI rasters and headers, chips and text lists with space for k bytes"""
    kind = c.choose('kind', ['envi', 'envi header', 'png', 'tif', 'text'])
    d = c.dir()
    old = c.vary('files before', ['none', 'longer', 'shorter'])

    def older(files):
        def make():
            for p in files:
                with open(p, 'wb') as s:
                    s.write(b'old\n' * (9000 if old == 'longer' else 1))
        return None if old == 'none' else make
    if kind.startswith('envi'):
        shape = (1, 2, 1) if kind == 'envi header' else c.choose('shape', [(11, 9, 3), (61, 53, 2), (2, 2, 1)])
        dt = 'uint8' if kind == 'envi header' else c.vary('dtype', ['float32', 'uint8', 'int16', 'complex128'])
        inter = c.choose('interleave', ['bil', 'bip', 'bsq'])
        a = pattern(shape, dt)
        b = a.copy()
        f, h = os.path.join(d, 'a.dat'), os.path.join(d, 'a.dat.hdr')
        c.op('reference', envi_utils.write_envi_image, a, os.path.join(d, 'want.dat'), interleave=inter)
        with open(os.path.join(d, 'want.dat.hdr')) as s:
            header = s.read()

        def write():
            envi_utils.write_envi_image(b, f, interleave=inter)

        def complete():
            try:
                got = envi_utils.read_envi_image(f, h)
                gd = ImageFactory.envi.from_file(f, h).read_all_image_data_from_disk()
            except Exception as e:
                return 'the file can not be read: %s' % e
            with open(h) as s:
                if s.read() != header:
                    return 'the header is not the one written: %s' % h
            if os.path.getsize(f) != a.nbytes:
                return 'the file has %d of %d bytes' % (os.path.getsize(f), a.nbytes)
            return None if np.array_equal(gd, a) and np.array_equal(got, a) else 'the file holds other pixels'

        run(c, write, complete, [f, h], older([f, h]), lambda code: np.array_equal(a, b))
    elif kind == 'text':
        lines = {'one': ['a line'], 'few': ['a', 'b c', '', 'd'], 'many': ['line %d' % k for k in range(3000)]}[c.choose('lines', ['one', 'few', 'many'])]
        f = os.path.join(d, 't.txt')

        def complete():
            got = file_utils.read_text_list_from_file(f)
            return None if got == lines else 'the file holds %d lines of %d' % (len(got), len(lines))
        run(c, lambda: file_utils.write_text_list_to_file(lines, f), complete, [f], older([f]))
    else:
        chips = pattern(c.choose('chips', [(2, 8, 9, 3), (1, 70, 40, 3), (3, 5, 6)]), 'uint8')
        files = [os.path.join(d, 'c_%08d.%s' % (k, kind)) for k in range(len(chips))]

        def complete():
            for k, f in enumerate(files):
                try:
                    got = imageio.imread(f)
                except Exception as e:
                    return 'chip %d can not be read: %s' % (k, e)
                if not np.array_equal(np.asarray(got), chips[k]):
                    return 'chip %d is another one' % k
            return None
        run(c, lambda: image_chipper.write_chips_to_disk(chips, d, base_chip_fname='c', output_format=kind), complete, files, older(files))


@CHECK.scenario(bound=(9, 9))
def places(c):
    """a destination that can not be made is an error"""
    kind = c.choose('kind', ['geotiff', 'warp', 'ortho', 'geoid', 'envi', 'envi header', 'text', 'chips'])
    place = c.choose('place', ['missing folder', 'a folder', 'below a file', 'missing deep'])
    d = c.dir()
    f = {'missing folder': os.path.join(d, 'no', 'x.tif'), 'a folder': os.path.join(d, 'there'), 'below a file': os.path.join(d, 'file', 'x.tif'),
         'missing deep': os.path.join(d, 'no', 'no', 'x.tif')}[place]
    os.mkdir(os.path.join(d, 'there'))
    with open(os.path.join(d, 'file'), 'w') as s:
        s.write('x')
    a = pattern((6, 7, 1), 'float32') % 100
    im = GeotiffImageFactory.from_numpy_array(a.copy(), GEOT, proj('utm18n'), -99)
    if kind == 'geotiff':
        fn = lambda: im.write_to_disk(f)
    elif kind == 'warp':
        fn = lambda: GeotiffImage.gdalwarp_geotiff_image(im, gdal.WarpOptions(xRes=1.0, yRes=1.0), f)
    elif kind == 'ortho':
        fn = lambda: ortho_tools.create_ortho_gtiff_image_world_to_sensor(im, 5, 5, box(500001.0, 4399990.0, 500008.0, 4400000.0), world_proj=proj('utm18n'),
                                                                          output_fname=f, nodata_val=-99)
    elif kind == 'geoid':
        im.write_to_disk(os.path.join(d, 'src.tif'))
        dem = DemFactory.from_gtiff_file(os.path.join(d, 'src.tif'), nodata_value=-99)
        p32.gtx(os.path.join(d, 'g.gtx'), p32.grid('low', 'utm18n'))
        fn = lambda: dem.convert_to_geoid_heights(f, os.path.join(d, 'g.gtx'))
    elif kind == 'envi':
        fn = lambda: envi_utils.write_envi_image(a, f)
    elif kind == 'envi header':
        fn = lambda: envi_utils.write_envi_image(a, os.path.join(d, 'a.dat'), f)
    elif kind == 'text':
        fn = lambda: file_utils.write_text_list_to_file(['a'], f)
    else:
        if place == 'a folder':
            os.mkdir(os.path.join(d, 'there', 'c_00000000.png'))
        fn = lambda: image_chipper.write_chips_to_disk((a[None, :, :, 0]).astype('uint8'), f, base_chip_fname='c')
    ok, _ = c.attempt('write', fn)
    c.require(not ok, 'writing into %s raises no error', place)
    c.same(im.get_image_data(), a, 'image after the refused write')


@CHECK.scenario(bound=(1, 2))
def cut(c):
    """a GeoTIFF cut at any byte is refused or gives the right pixels, as image and as DEM"""
    shape = c.choose('shape', [(9, 12, 1), (1, 1, 1), (40, 30, 3), (200, 260, 1)])
    comp = c.choose('compression', ['LZW', 'NONE', 'DEFLATE'])
    use = c.choose('read as', ['image', 'band', 'dem', 'warp'])
    dt = c.vary('dtype', ['float32', 'uint8', 'int16'])
    nodata = c.vary('nodata', [None, 7])
    d = c.dir()
    f, g = os.path.join(d, 'a.tif'), os.path.join(d, 'cut.tif')
    a = (pattern(shape, 'uint8') % 100 + 20).astype(dt)
    if use == 'dem':
        if shape[2] > 1 or shape[0] < 2:
            return
    GeotiffImageFactory.from_numpy_array(a.copy(), GEOT, proj('utm18n'), nodata).write_to_disk(f, comp)
    with open(f, 'rb') as s:
        raw = s.read()
    jj, ii = np.mgrid[0:shape[0] - 1, 0:shape[1] - 1]
    px, py = GEOT[0] + GEOT[1] * ii, GEOT[3] + GEOT[5] * jj

    def read(p):
        if use == 'dem':
            dem = DemFactory.from_gtiff_file(p, nodata_value=nodata)
            return np.asarray(dem.get_elevations(px, py, world_proj=proj('utm18n')), float)
        im = GeotiffImageFactory.from_file(p)
        if use == 'warp':
            return GeotiffImage.gdalwarp_geotiff_image(im, gdal.WarpOptions(xRes=1.0, yRes=1.0)).read_all_image_data_from_disk()
        return im.read_band_from_disk(shape[2] - 1) if use == 'band' else im.read_all_image_data_from_disk()
    want = c.op('read', read, f)
    refused = 0
    for k in points(len(raw), 0, 1, 40):
        with open(g, 'wb') as s:
            s.write(raw[:k])
        ok, got = c.attempt('read', read, g)
        if not ok or got is None:
            refused += 1
            continue
        c.require(np.shape(got) == np.shape(want), 'cut at byte %d of %d: shape %s', k, len(raw), np.shape(got))
        c.same(got, want, 'cut at byte %d of %d: values' % (k, len(raw)))
    c.observe(refused)
