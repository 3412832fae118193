"""files that end too soon"""
import os

import gdal
import numpy as np

from mc import zoo
from mc.core import Check
from mc.util import pattern
from mc.checks import p10, p18, p22, p25, p29
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry.nav.nav_factory import NavFactory
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils import envi_utils, file_utils, pix4d_utils
from resippy.utils.csv_utils import CsvUtils

CHECK = Check('P36', 'files that end too soon', [
    'files of up to a few kilobytes, cut at every byte (tables: at every byte that is not within a number or word, which a reader can not notice)',
    'a table cut between two records is a shorter table: its records must be exactly those that are left'])


def cuts(c, raw, f, parts=1, skip=None):
    """the file cut at every byte; yields the number of bytes left"""
    part = c.choose('part', list(range(parts))) if parts > 1 else 0
    for k in range(len(raw) + 1):
        if k % parts != part and k != len(raw):
            continue
        if skip is not None and k < len(raw) and skip(k):
            continue
        with open(f, 'wb') as s:
            s.write(raw[:k])
        c.stats['conditions'] += 1
        yield k


def read(c, k, n, what, fn, *args, **kw):
    """(given, result): the complete file has to be read, a cut one may be refused"""
    if k == n:
        return True, c.op('read ' + what, fn, *args, **kw)
    ok, r = c.attempt('read cut ' + what, fn, *args, **kw)
    return (ok and r is not None), r


def get(f):
    with open(f, 'rb') as s:
        return s.read()


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[x], b[x]) for x in a)
    if isinstance(a, (str, int)) or a is None:
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


@CHECK.scenario(bound=(2, 3))
def envi(c):
    """the data file of an ENVI raster, through the array reader and the image object"""
    inter = c.choose('interleave', ['bil', 'bip', 'bsq'])
    shape = c.choose('shape', [(3, 4, 2), (1, 2, 1), (2, 1, 3), (1, 5, 2), (4, 3, 1)])
    reader = c.choose('reader', ['array', 'image', 'band', 'last band'])
    dt = c.choose('dtype', ['uint8', 'int16', 'float64'])
    order = c.vary('byte order', [0, 1])
    offset = c.vary('header offset', [0, 5, 64])
    place = c.vary('header', ['appended', 'replaced', 'given'])
    keys = c.vary('key order', ['usual', 'reversed'])
    left = c.vary('bytes before the cut', ['usual', 'nonzero', 'zero'])
    d = c.dir()
    a = pattern(shape, dt)
    if left == 'nonzero':
        a = (np.abs(a) % 50 + 7).astype(dt)
    elif left == 'zero':
        a = np.zeros(shape, dt)
        a[-1, -1, -1] = 9
    raw = b'\5' * offset + p18.raw(a, inter, order)
    f = os.path.join(d, 'a.dat')
    h = os.path.join(d, {'appended': 'a.dat.hdr', 'replaced': 'a.hdr', 'given': 'a.hdr'}[place])
    lines = ['samples = %d' % shape[1], 'lines = %d' % shape[0], 'bands = %d' % shape[2], 'header offset = %d' % offset, 'data type = %d' % p18.CODES[dt],
             'interleave = ' + inter, 'byte order = %d' % order]
    with open(h, 'w') as s:
        s.write('\n'.join(['ENVI'] + (lines if keys == 'usual' else lines[::-1])) + '\n')
    hdr = [h] if place == 'given' else []
    want = {'array': a, 'image': a, 'band': a[:, :, 0], 'last band': a[:, :, -1]}[reader]

    def load():
        if reader == 'array':
            return envi_utils.read_envi_image(f, *hdr)
        im = ImageFactory.envi.from_file(f, *hdr)
        return im.read_all_image_data_from_disk() if reader == 'image' else im.read_band_from_disk(0 if reader == 'band' else shape[2] - 1)
    refused = 0
    for k in cuts(c, raw, f):
        given, got = read(c, k, len(raw), reader, load)
        refused += not given
        if given:
            c.same(got, want, 'cut at byte %d of %d: pixels' % (k, len(raw)), dtype=a.dtype)
    c.observe(refused)


def token(raw, k):
    """a cut here is within a number or a word"""
    word = lambda b: bytes([b]).isalnum() or bytes([b]) in b'._+-\\"/*'
    return 0 < k < len(raw) and word(raw[k - 1]) and word(raw[k])


@CHECK.scenario(bound=(2, 3))
def envi_header(c):
    """the header of an ENVI raster"""
    reader = c.choose('reader', ['header', 'array', 'metadata'])
    keys = c.choose('key order', ['usual', 'reversed', 'wavelengths first', 'wavelengths last'])
    inter = c.vary('interleave', ['bil', 'bip', 'bsq'])
    wrap = c.vary('wavelengths', ['line', 'lines'])
    tail = c.vary('end', ['\n', '', '\n\n'])
    d = c.dir()
    a = pattern((3, 4, 2), 'int16')
    f, h = os.path.join(d, 'a.dat'), os.path.join(d, 'a.dat.hdr')
    with open(f, 'wb') as s:
        s.write(p18.raw(a, inter, 0))
    lines = ['samples = 4', 'lines = 3', 'bands = 2', 'data type = 2', 'interleave = ' + inter, 'byte order = 0']
    waves = 'wavelength = {450.5, 550.25}' if wrap == 'line' else 'wavelength = {\n 450.5,\n 550.25}'
    lines = {'usual': lines[:3] + [waves] + lines[3:], 'reversed': (lines + [waves])[::-1], 'wavelengths first': [waves] + lines, 'wavelengths last': lines + [waves]}[keys]
    raw = ('\n'.join(['ENVI'] + lines) + tail).encode()
    with open(h, 'wb') as s:
        s.write(raw)
    full = c.op('header', envi_utils.read_envi_header, h)
    c.require(set(full) == {'samples', 'lines', 'bands', 'data type', 'interleave', 'byte order', 'wavelength'}, 'header keys %s', sorted(full))
    for k in cuts(c, raw, h, skip=lambda k: token(raw, k)):
        if reader == 'header':
            given, got = read(c, k, len(raw), 'header', envi_utils.read_envi_header, h)
            if given:
                c.require(set(got) <= set(full), 'cut at byte %d: keys %s', k, sorted(got))
                for x in got:
                    # the last key may still be without its value
                    c.require(equal(got[x], full[x]) or (got[x] == '' and k < len(raw)), 'cut at byte %d: %s is %r, not %r', k, x, got[x], full[x])
        elif reader == 'array':
            given, got = read(c, k, len(raw), 'raster', envi_utils.read_envi_image, f, h)
            if given:
                c.same(got, a, 'header cut at byte %d of %d: pixels' % (k, len(raw)), dtype='int16')
        else:
            given, got = read(c, k, len(raw), 'image', ImageFactory.envi.from_file, f, h)
            if given:
                m = got.get_metadata()
                c.require((m.get_npix_x(), m.get_npix_y(), m.get_n_bands()) == (4, 3, 2), 'header cut at byte %d: size in the metadata', k)


@CHECK.scenario(bound=(1, 2))
def pix4d(c):
    """each file of a Pix4D project"""
    which = c.choose('file', ['cal', 'ext', 'cam', 'wkt'])
    ncam = c.choose('cameras', [1, 2, 3])
    cams_of = c.choose('camera of each image', p10.CAMS_OF[ncam])
    through = c.choose('through', ['reader', 'project'])
    eol = c.vary('eol', ['\n', '\r\n'])
    tail = c.vary('camera file end', ['', '\n'])
    style = c.vary('image names', list(p10.STYLES))
    if which == 'wkt' and through == 'reader':
        return
    d = c.dir()
    ims, cams, paths = p10.make(c, d, cams_of, ncam, eol, tail, '', style)
    f = paths[which]
    raw = get(f)
    fn = {'cal': pix4d_utils.read_calibrated_camera_parameters, 'ext': pix4d_utils.read_calibrated_external_camera_parameters,
          'cam': pix4d_utils.read_pix4d_calibrated_internal_camera_parameters}.get(which)
    if through == 'project':
        fn, f = pix4d_utils.make_master_dict, d
    full = c.op('complete', fn, f)
    pt = [ims[0]['ext'][0] + 11.0, ims[0]['ext'][1] - 7.0, 20.0]
    pix = {im['name']: Pix4dPointCalc.init_from_params(os.path.join(d, im['name']), full).lon_lat_alt_to_pixel_x_y(*pt) for im in ims} if through == 'project' else {}
    bad = (lambda k: False) if which == 'wkt' else (lambda k: token(raw, k))
    for k in cuts(c, raw, paths[which], parts=2 if through == 'project' else 1, skip=bad):
        given, got = read(c, k, len(raw), which, fn, f)
        if not given:
            continue
        if through == 'reader' and which == 'cam':
            c.require(len(got) <= len(cams), 'cut at byte %d: %d cameras', k, len(got))
            for i, g in enumerate(got):
                c.require(set(g) <= set(full[i]) and all(g[x] == full[i][x] for x in g), 'cut at byte %d: camera %d is %s', k, i, g)
                c.require(i == len(got) - 1 or g == full[i], 'cut at byte %d: camera %d is not complete', k, i)
        elif through == 'reader':
            c.require(set(got) <= set(full), 'cut at byte %d: images %s', k, sorted(got))
            for x in got:
                c.require(equal(got[x], full[x]), 'cut at byte %d of %d: %s is %s, not %s', k, len(raw), x, got[x], full[x])
            # images that are there completely
            lines = raw[:k].decode().replace('\r\n', '\n').split('\n')
            m = sum(any(x.startswith(im['name']) for x in lines) for im in ims)
            c.require(m - 1 <= len(got) <= m, 'cut at byte %d: %d of %d images', k, len(got), m)
        else:
            ok, p = c.attempt('projection', lambda: got['projection'](-75.1, 40.2))
            if ok:
                c.same(p, full['projection'](-75.1, 40.2), 'cut at byte %d: projection' % k)
            for im in ims:
                if im['name'] not in got:
                    continue
                ok, p = c.attempt('camera', lambda: Pix4dPointCalc.init_from_params(os.path.join(d, im['name']), got).lon_lat_alt_to_pixel_x_y(*pt))
                if ok:
                    c.same(p, pix[im['name']], '%s file cut at byte %d of %d: pixel of %s' % (which, k, len(raw), im['name']))


def lines_of(head, rows, eol, tail):
    """text of a table and the ends of its records"""
    out, ends = ''.join(h + eol for h in head), []
    for i, r in enumerate(rows):
        out += (eol if i else '') + r
        ends.append(len(out.encode()))
    return (out + tail.replace('\n', eol)).encode(), ends


@CHECK.scenario(bound=(2, 3))
def tables(c):
    """tables of spectra, navigation records, matrices, text lines"""
    kind = c.choose('kind', ['envi plot', 'svc', 'csv', 'usgs', 'usgs wavelengths', 'usgs bandpass', 'eo', 'p matrices', 'csv columns', 'text'])
    n = c.choose('records', [4, 1, 9])
    eol = c.vary('eol', ['\n', '\r\n'])
    tail = c.vary('end', ['\n', '', '\n\n'])
    fmt = c.vary('numbers', ['%r', '%.6f', '%.9E'])
    d = c.dir()
    w, r = p22.samples(n, 'usual')
    w, r = [fmt % v for v in w], [fmt % v for v in r]
    f = os.path.join(d, 'a.txt')
    want = [(float(a), float(b)) for a, b in zip(w, r)]
    spec = lambda s: list(zip(s.get_wavelengths(), s.get_spectral_data())) if len(s.get_wavelengths()) == len(s.get_spectral_data()) else 'columns of different lengths'
    head = []
    if kind == 'envi plot':
        head = ['ENVI ASCII Plot File', 'Column 1: Wavelength', 'Column 2: Spectrum']
        rows = ['  %s  %s' % p for p in zip(w, r)]
        fn = lambda: spec(SpectrumFactory.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file(f))
    elif kind == 'svc':
        head = ['/*** Spectra Vista SIG Data ***/', 'name= x', 'data= ']
        rows = ['%s  %s  %s  %s' % (a, '123.4', '99.5', fmt % (float(b) * 100)) for a, b in zip(w, r)]
        want = [(float(a), float(fmt % (float(b) * 100)) / 100.0) for a, b in zip(w, r)]
        fn = lambda: spec(SpectrumFactory.svc.ascii.SvcAsciiFileFactory.from_sig_file(f))
    elif kind == 'csv':
        head = ['wavelength,reflectance']
        rows = ['%s,%s' % p for p in zip(w, r)]
        fn = lambda: spec(SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file(f))
    elif kind.startswith('usgs'):
        chap = os.path.join(d, 'ChapterA')
        os.mkdir(chap)
        names = {'usgs': os.path.join(chap, 's07_Brick.txt'), 'usgs wavelengths': os.path.join(d, 'x_Wavelengths_y.txt'), 'usgs bandpass': os.path.join(d, 'x_Bandpass_y.txt')}
        for x in names.values():
            with open(x, 'wb') as s:
                s.write(lines_of([' splib07b Record=1'], [' ' + v for v in r], eol, tail)[0])
        f, head, rows, want = names[kind], [' splib07b Record=1'], [' ' + v for v in r], [float(v) for v in r]
        from_file = SpectrumFactory.usgs.ascii.UsgsAsciiSpectralFactory.from_ascii_file
        part = {'usgs': lambda s: s.get_spectral_data(), 'usgs wavelengths': lambda s: s.get_wavelengths(), 'usgs bandpass': lambda s: s.get_fwhm()}[kind]
        fn = lambda: list(part(from_file(names['usgs'])))
    elif kind == 'eo':
        recs = p25.records(p25.EO, n, None, 'steady')
        rows = ['  '.join(['%d' % (k + 1)] + [fmt % x[col] for col in p25.EO]) for k, x in enumerate(recs)]
        head = c.choose('header', [p25.HEADS['none'], p25.HEADS['columns']])
        fn = lambda: NavFactory.from_applanix_eo_file(f, 'utm', 18, 'WGS84', 'WGS84')
    elif kind == 'p matrices':
        rows = ['IMG_%04d.tif ' % k + ' '.join(fmt % (k + 1.25 * j) for j in range(12)) for k in range(n)]
        want = [('IMG_%04d.tif' % k,) + tuple(float(fmt % (k + 1.25 * j)) for j in range(12)) for k in range(n)]
        fn = lambda: [(x,) + tuple(v) for x, v in pix4d_utils.read_p_matrices(f).items() if x]
    elif kind == 'csv columns':
        head = ['name,x,y']
        rows = ['n%d,%s,%s' % (k, w[k], r[k]) for k in range(n)]
        want = [('n%d' % k, w[k], r[k]) for k in range(n)]

        def fn():
            t = CsvUtils.single_line_header_csv_to_dict(f)
            return list(zip(*[t[x] for x in ('name', 'x', 'y')]))
    else:
        rows = want = ['line%d' % k for k in range(n)]
        fn = lambda: file_utils.read_text_list_from_file(f)
    raw, ends = lines_of(head, rows, eol, tail)
    start = len(''.join(h + eol for h in head).encode())

    def skip(k):
        # an empty cell and an empty line are no records that were cut
        if kind == 'csv columns' and (k <= start or raw[k - 1:k] == b','):
            return True
        return token(raw, k)
    for k in cuts(c, raw, f, skip=skip):
        given, got = read(c, k, len(raw), kind, fn)
        if not given:
            continue
        m = sum(e <= k for e in ends)
        if kind == 'eo':
            c.require(got.get_num_records() == m, 'cut at byte %d of %d: %d records, %d are complete', k, len(raw), got.get_num_records(), m)
            if m > 1:
                p25.query(c, got, recs[:m], p25.EO, 'EO', ['C'], p25.times_of(recs[:m], p25.EO))
            continue
        if kind == 'text':
            got = [x for x in got if x] if k != len(raw) or tail != '\n' else got
        if k < start:
            c.require(len(got) == 0, '%s cut within its header: %s', kind, got)
            continue
        c.require(len(got) == m and list(got) == list(want[:m]), '%s cut at byte %d of %d: %d records, %d are complete: %s', kind, k, len(raw), len(got), m, got)


@CHECK.scenario(bound=(1, 2))
def rpc(c):
    """RPC files beside an image"""
    kind = c.choose('kind', ['RPB', '_RPC.TXT'])
    s = zoo.rpc_params()
    d = c.dir()
    f = os.path.join(d, 'a.tif')
    drv = gdal.GetDriverByName('GTiff')
    ds = drv.Create(f, 6, 5, 1)
    ds.SetMetadata(zoo.rpc_gdal_metadata(s), 'RPC')
    ds.GetRasterBand(1).WriteArray(pattern((5, 6), 'uint8'))
    ds = None
    # the file written by GDAL beside a copy without tags of its own
    g = os.path.join(d, 'b.tif')
    ds = gdal.Open(f)
    out = drv.CreateCopy(g, ds, options=['PROFILE=BASELINE', 'RPB=YES' if kind == 'RPB' else 'RPCTXT=YES'])
    out = ds = None
    side = [os.path.join(d, x) for x in os.listdir(d) if x.upper().endswith(kind)]
    c.require(len(side) == 1, 'files %s', os.listdir(d))
    for x in os.listdir(d):
        if x.endswith('.aux.xml'):
            os.unlink(os.path.join(d, x))
    raw = get(side[0])
    m = zoo.build('rpc')
    load = lambda: RPCPointCalc.init_from_file(g).lon_lat_alt_to_pixel_x_y(*[np.asarray(v, float) for v in zip(*m.pts)])
    want = None
    with open(side[0], 'wb') as o:
        o.write(raw)
    want = c.op('complete', load)
    for k in cuts(c, raw, side[0], parts=4, skip=lambda k: token(raw, k)):
        given, got = read(c, k, len(raw), kind, load)
        if given:
            c.same(got, want, '%s file cut at byte %d of %d: pixels' % (kind, k, len(raw)))


@CHECK.scenario(bound=(1, 2))
def micasense(c):
    """a band file of a MicaSense image"""
    e = c.choose('byte order', ['<', '>'])
    band = c.choose('band', [0, 4])
    use = c.choose('read', ['all', 'band', 'exposure'])
    dt = c.vary('dtype', ['uint16', 'uint8'])
    d = c.dir()
    fn = p29.names(d, 'IMG_0042_%d.tif')
    for k in range(5):
        p29.tiff(fn['band%d' % (k + 1)], pattern((4, 6), dt, salt=k), e, [p29.text(0x9003, '2019:05:03 14:25:36'), p29.text(0x9290, '123456')],
                 [p29.text(1, 'N'), p29.ratio(2, p29.DMS['fraction'], e), p29.text(3, 'W'), p29.ratio(4, p29.DMS['minutes'], e)])
    f = fn['band%d' % (band + 1)]
    raw = get(f)

    def load():
        im = MicasenseImageFactory.from_image_number_and_opencv(fn, [p29.cam_cv(k)[0] for k in range(5)])
        if use == 'exposure':
            return im.get_gps_timestamp_and_center(band)
        return np.asarray(im.read_band_from_disk(band) if use == 'band' else im.read_all_image_data_from_disk())
    want = c.op('complete', load)
    for k in cuts(c, raw, f):
        given, got = read(c, k, len(raw), use, load)
        if given and np.size(got):
            c.require(equal(got, want), 'cut at byte %d of %d: %s is %s, not %s', k, len(raw), use, got, want)


@CHECK.scenario(bound=(1, 2))
def other_images(c):
    """camera and stereo images in cut files"""
    kind = c.choose('kind', ['physical camera', 'stereo'])
    use = c.choose('read', ['all', 'band'])
    comp = c.choose('compression', ['NONE', 'LZW'])
    shape = c.vary('shape', [(5, 6, 2), (40, 30, 1)])
    d = c.dir()
    f = os.path.join(d, 'a.tif')
    a = pattern(shape, 'uint8')
    ds = gdal.GetDriverByName('GTiff').Create(f, shape[1], shape[0], shape[2], gdal.GDT_Byte, options=['COMPRESS=' + comp])
    ds.SetMetadata(zoo.rpc_gdal_metadata(zoo.rpc_params()), 'RPC')
    for b in range(shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(a[:, :, b])
    ds = None
    raw = get(f)

    def load():
        if kind == 'stereo':
            im = ImageFactory.digital_globe.view_ready_stereo.from_file(f)
        else:
            im = ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(f, None)
        return im.read_all_image_data_from_disk() if use == 'all' else im.read_band_from_disk(shape[2] - 1)
    want = a if use == 'all' else a[:, :, -1]
    for k in cuts(c, raw, f, parts=4):
        given, got = read(c, k, len(raw), kind, load)
        if given:
            c.same(got, want, 'cut at byte %d of %d: pixels' % (k, len(raw)))
