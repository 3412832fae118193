"""ENVI rasters and headers"""
import os

import gdal
import numpy as np

from mc.core import Check
from mc.util import layout, pattern
from resippy.image_objects.image_factory import ImageFactory
from resippy.utils import envi_utils

CHECK = Check('P18', 'ENVI rasters and headers', [
    'rasters up to 6x7 pixels and 5 bands, the 11 numeric ENVI types, three interleaves, both byte orders',
    "GDAL's ENVI driver is the second reader"])

CODES = {'uint8': 1, 'int16': 2, 'int32': 3, 'float32': 4, 'float64': 5, 'complex64': 6, 'complex128': 9, 'uint16': 12, 'uint32': 13, 'int64': 14, 'uint64': 15}
SHAPES = [(5, 7, 3), (1, 1, 1), (1, 6, 2), (6, 1, 2), (3, 4, 1), (2, 3, 5)]


def raw(a, interleave, order):
    ny, nx, nb = a.shape
    seq = {'bil': [(j, i, b) for j in range(ny) for b in range(nb) for i in range(nx)],
           'bip': [(j, i, b) for j in range(ny) for i in range(nx) for b in range(nb)],
           'bsq': [(j, i, b) for b in range(nb) for j in range(ny) for i in range(nx)]}[interleave]
    return np.array([a[s] for s in seq], dtype=a.dtype).astype(a.dtype.newbyteorder('>' if order else '<')).tobytes()


def check_gdal(c, f, a, what):
    ds = gdal.Open(f)
    c.require(ds is not None, '%s: GDAL can not open it', what)
    c.require((ds.RasterXSize, ds.RasterYSize, ds.RasterCount) == (a.shape[1], a.shape[0], a.shape[2]), '%s: size', what)
    for b in range(a.shape[2]):
        c.same(ds.GetRasterBand(b + 1).ReadAsArray(), a[:, :, b], '%s: band %d through GDAL' % (what, b), dtype=a.dtype)


def check_image(c, f, h, a, what):
    im = c.op('open', ImageFactory.envi.from_file, f, *([h] if h else []))
    md = im.get_metadata()
    c.require((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) == (a.shape[1], a.shape[0], a.shape[2]), '%s: size in the metadata', what)
    c.same(c.op('read all', im.read_all_image_data_from_disk), a, what + ': all bands', dtype=a.dtype)
    for b in range(a.shape[2]):
        c.same(c.op('read band', im.read_band_from_disk, b), a[:, :, b], what + ': band %d' % b, dtype=a.dtype)


@CHECK.scenario(bound=(3, 4))
def written(c):
    """every type, interleave, shape and layout written; the raw bytes are compared with those of the format"""
    dt = c.choose('dtype', list(CODES))
    inter = c.choose('interleave', ['default', 'bil', 'bip', 'bsq'])
    shape = c.choose('shape', SHAPES)
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    name = c.vary('name', ['a.dat', 'b', 'c.1.img', 'long.envi'])
    hdr = c.vary('header', ['default', 'beside', 'elsewhere'])
    again = c.vary('rewrite', [False, True])
    d = c.dir()
    f = os.path.join(d, name)
    h = {'default': None, 'beside': os.path.splitext(f)[0] + '.hdr' if name[-4:-3] == '.' else None, 'elsewhere': os.path.join(d, 'x', 'y.hdr')}[hdr]
    os.mkdir(os.path.join(d, 'x'))
    kw = {} if inter == 'default' else {'interleave': inter}
    if h:
        kw['output_header_fname'] = h
    a = pattern(shape, dt)
    if again:
        # an existing, larger file is replaced
        c.op('write', envi_utils.write_envi_image, pattern((7, 8, 6), 'float64'), f, **kw)
    src = layout(a, lay)
    c.op('write', envi_utils.write_envi_image, src, f, **kw)
    c.same(src, a, 'caller array changed')
    inter = 'bil' if inter == 'default' else inter
    with open(f, 'rb') as s:
        got = s.read()
    c.require(got == raw(a, inter, 0), 'the raw file is not the %s sequence of the pixels', inter)
    head = c.op('header', envi_utils.read_envi_header, h or f + '.hdr')
    for k, v in dict(samples=shape[1], lines=shape[0], bands=shape[2], interleave=inter).items():
        c.require(head.get(k) == v, 'header %s = %r, expected %r', k, head.get(k), v)
    c.require(head.get('data type') == CODES[dt], 'header data type %r, expected %d', head.get('data type'), CODES[dt])
    c.require(np.dtype(envi_utils.envi_dtype_to_numpy_dtype(head['data type'])) == np.dtype(dt), 'data type of the header')
    for args in ([(f, h)] if h else [(f,)]):
        c.same(c.op('read', envi_utils.read_envi_image, *args), a, 'raster read back', dtype=dt)
    if hdr != 'elsewhere' and a.nbytes > 1:
        check_gdal(c, f, a, 'written file')
        check_image(c, f, h, a, 'image object')


@CHECK.scenario(bound=(2, 3))
def interleave_pairs(c):
    """raw sequence <-> cube for every size"""
    inter = c.choose('interleave', ['bil', 'bip', 'bsq'])
    ny, nx, nb = [c.choose(k, [1, 2, 3, 4]) for k in ('ny', 'nx', 'nb')]
    a = pattern((ny, nx, nb), c.choose('dtype', ['int16', 'float64']))
    v = np.frombuffer(raw(a, inter, 0), a.dtype)
    c.same(c.op('cube', envi_utils.construct_image_cube_from_raw_data, v, nx, ny, nb, inter), a, 'cube', dtype=a.dtype)
    f = os.path.join(c.dir(), 'r')
    v.tofile(f)
    c.same(c.op('raw', envi_utils.read_all_image_data_to_numpy_array, f, CODES[a.dtype.name]), v, 'raw data', dtype=a.dtype)


@CHECK.scenario(bound=(2, 3))
def foreign(c):
    """files written by other software"""
    inter = c.choose('interleave', ['bsq', 'bil', 'bip'])
    dt = c.choose('dtype', ['uint8', 'int16', 'float32', 'uint32', 'float64', 'complex64'])
    order = c.choose('byte order', [0, 1, None])
    off = c.choose('header offset', [0, 1, 512, None])
    shape = c.vary('shape', SHAPES[:3] + SHAPES[4:])
    eol = c.vary('eol', ['\n', '\r\n', '\r'])
    tail = c.vary('end', ['\n', '', '\n\n', ' '])
    style = c.vary('style', ['spaced', 'tight', 'wide', 'tabs'])
    seq = c.vary('order of entries', ['usual', 'reversed', 'sorted'])
    extra = c.vary('extra', ['wavelengths', 'none', 'equals', 'braces', 'blank', 'comment'])
    upper = c.vary('case', [False, True])
    hname = c.vary('header name', ['replace', 'append', 'explicit'])
    some = dt == 'int16' and off in (1, None)
    keys = c.vary('keys', ['lower', 'Title', 'UPPER']) if some else 'lower'
    trail = c.vary('end of line', ['', ' ', '\t', '   ']) if some else ''
    d = c.dir()
    a = pattern(shape, dt)
    f = os.path.join(d, 'scene.dat')
    with open(f, 'wb') as s:
        s.write(b'\x7f' * (off or 0) + raw(a, inter, order or 0))
    ent = [('description', '{\n  File from elsewhere, [Mon]}'), ('samples', str(shape[1])), ('lines', str(shape[0])), ('bands', str(shape[2]))]
    if off is not None:
        ent.append(('header offset', str(off)))
    ent += [('file type', 'ENVI Standard'), ('data type', str(CODES[dt])), ('interleave', inter.upper() if upper else inter)]
    if order is not None:
        ent.append(('byte order', str(order)))
    wl = [400.25 + 7.5 * k for k in range(shape[2])]
    if extra == 'wavelengths':
        ent.insert(4, ('wavelength', '{\n ' + ',\n '.join(repr(w) for w in wl) + '}'))
        ent.append(('fwhm', '{' + ', '.join(repr(w / 100) for w in wl) + '}'))
    elif extra == 'equals':
        ent.insert(1, ('sensor type', 'a=b = c'))
    elif extra == 'braces':
        ent.insert(3, ('map info', '{UTM, 1.000, 1.000, 500000.000, 4400000.000, 2.0, 2.0, 18, North, WGS-84, units=Meters}'))
        ent.append(('band names', '{\n ' + ', '.join('Band %d' % k for k in range(shape[2])) + '}'))
    elif extra == 'blank':
        ent.insert(2, None)
    elif extra == 'comment':
        ent.insert(2, ';note')
    if seq != 'usual':
        ent = ent[::-1] if seq == 'reversed' else sorted(ent, key=str)
    if keys != 'lower':
        ent = [(e[0].title() if keys == 'Title' else e[0].upper(), e[1]) if isinstance(e, tuple) else e for e in ent]
    eq = {'spaced': ' = ', 'tight': '=', 'wide': '   =   ', 'tabs': '\t=\t'}[style]
    text = 'ENVI\n' + '\n'.join('' if e is None else e if isinstance(e, str) else e[0] + eq + e[1] for e in ent) + tail
    h = {'replace': 'scene.hdr', 'append': 'scene.dat.hdr', 'explicit': 'other.hdr'}[hname]
    h = os.path.join(d, h)
    with open(h, 'wb') as s:
        s.write(text.replace('\n', trail + eol).encode())
    head = c.op('header', envi_utils.read_envi_header, h)
    want = {e[0]: e[1] for e in ent if isinstance(e, tuple)}
    got_keys = {k for k in head if not k.startswith(';')}
    c.require(got_keys == set(want), 'header entries %s, expected %s', sorted(head), sorted(want))
    for k, v in want.items():
        if k.lower() in ('wavelength', 'fwhm'):
            c.same(head[k], np.array(wl) / (1 if k.lower() == 'wavelength' else 100), 'header ' + k, rtol=1e-15)
        elif v.startswith('{'):
            c.require(' '.join(str(head[k]).strip('{} ').split()) == ' '.join(v.strip('{} \n').split()), 'header %s is %r', k, head[k])
        elif k.lower() in ('samples', 'lines', 'bands', 'header offset', 'data type', 'byte order'):
            c.require(head[k] == int(v) and isinstance(head[k], int), 'header %s is %r', k, head[k])
        else:
            c.require(head[k] == v, 'header %s is %r, expected %r', k, head[k], v)
    args = (f, h) if hname == 'explicit' else (f,)
    if keys != 'lower':
        return
    c.same(c.op('read', envi_utils.read_envi_image, *args), a, 'raster', dtype=dt)
    if a.nbytes > 1 and hname != 'explicit' and eol == '\n' and extra != 'comment' and not trail:
        check_image(c, f, h if hname == 'explicit' else None, a, 'image object')


@CHECK.scenario(bound=(9, 9))
def headers(c):
    """a header that was read can be written and read again, any number of times"""
    f = os.path.join(c.dir(), 'a.hdr')
    n = c.choose('bands', [1, 2, 7])
    d = {'samples': 12, 'lines': 3, 'bands': n, 'data type': 4, 'interleave': 'bip'}
    if c.choose('wavelength', [True, False]):
        d['wavelength'] = {'array': np.array, 'list': list, 'tuple': tuple}[c.choose('container', ['array', 'list', 'tuple'])](
            [0.1 + 401.7 * k / 3.0 for k in range(n)])
    if c.choose('names', [True, False]):
        d['band names'] = '{' + ', '.join('b %d' % k for k in range(n)) + '}'
    if c.choose('text', [True, False]):
        d['description'] = 'x=1; y = 2'
    if c.choose('start', [True, False]):
        d['x start'] = 11
        d['y start'] = 0
    ks = list(d)
    k = c.choose('first', list(range(len(ks))))
    d = {q: d[q] for q in ks[k:] + ks[:k]}
    cur = d
    for gen in range(2):
        c.op('write', envi_utils.write_envi_header, cur, f)
        cur = c.op('read', envi_utils.read_envi_header, f)
        c.require(set(cur) == set(d), 'generation %d has %s, expected %s', gen, sorted(cur), sorted(d))
        for q, v in d.items():
            if q == 'wavelength':
                c.same(cur[q], np.array(v), 'wavelength of generation %d' % gen)
            elif q == 'band names':
                c.require(cur[q].strip('{} ') == v.strip('{} '), '%s of generation %d is %r', q, gen, cur[q])
            else:
                c.require(cur[q] == v, '%s of generation %d is %r, expected %r', q, gen, cur[q], v)


@CHECK.scenario(bound=(9, 9))
def type_codes(c):
    """ENVI type code <-> numpy type, all of them"""
    k = c.choose('dtype', list(CODES))
    form = c.choose('form', ['dtype', 'type'])
    t = np.dtype(k) if form == 'dtype' else np.dtype(k).type
    c.require(c.op('code', envi_utils.numpy_dtype_to_envi_dtype, t) == CODES[k], 'code of %s', k)
    for q in (CODES[k], str(CODES[k]), float(CODES[k])):
        c.require(np.dtype(c.op('type', envi_utils.envi_dtype_to_numpy_dtype, q)) == np.dtype(k), 'type of code %r', q)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """rasters of more samples than any buffer on the way"""
    inter = c.choose('interleave', ['bsq', 'bil', 'bip'])
    shape = c.choose('shape', [(300, 257, 5), (4, 70001, 2), (1030, 3, 130), (3, 5, 1100)])
    dt = c.choose('dtype', ['int16', 'float64', 'uint8'])
    who = c.choose('written by', ['library', 'other software'])
    order = c.choose('byte order', [0, 1]) if who != 'library' else 0
    off = c.choose('header offset', [0, 70000]) if who != 'library' else 0
    j, i, b = np.ogrid[0:shape[0], 0:shape[1], 0:shape[2]]
    a = ((j * 37 + i * 11 + b * 5 + (i * j) % 97) % 30011).astype(dt)
    d = c.dir()
    f = os.path.join(d, 'big.dat')
    seq = a.transpose({'bsq': (2, 0, 1), 'bil': (0, 2, 1), 'bip': (0, 1, 2)}[inter])
    wl = [400.25 + 7.5 * k for k in range(shape[2])]
    if who == 'library':
        keep = a.copy()
        c.op('write', envi_utils.write_envi_image, a, f, interleave=inter)
        c.same(a, keep, 'caller array changed')
        c.require(open(f, 'rb').read() == seq.tobytes(), 'the raw file is not the %s sequence of the pixels', inter)
    else:
        with open(f, 'wb') as s:
            s.write(b'\x7f' * off + seq.astype(a.dtype.newbyteorder('>' if order else '<')).tobytes())
        with open(f + '.hdr', 'w') as s:
            s.write('ENVI\nsamples = %d\nlines = %d\nbands = %d\nheader offset = %d\ndata type = %d\ninterleave = %s\nbyte order = %d\nwavelength = {\n %s}\n'
                    % (shape[1], shape[0], shape[2], off, CODES[dt], inter, order, ',\n '.join(repr(w) for w in wl)))
        c.same(c.op('header', envi_utils.read_envi_header, f + '.hdr')['wavelength'], np.array(wl), 'wavelengths', rtol=1e-15)
    c.same(c.op('read', envi_utils.read_envi_image, f), a, 'raster read back', dtype=dt)
    check_image(c, f, None, a[:, :, :], 'image object')


@CHECK.scenario(bound=(9, 9))
def lengths(c):
    """files longer or shorter than the header says: refused, or read as the header says"""
    inter = c.choose('interleave', ['bsq', 'bil', 'bip'])
    dt = c.choose('dtype', ['uint8', 'int16', 'float64'])
    shape = c.choose('shape', SHAPES)
    off = c.choose('header offset', [0, 16])
    extra = c.choose('extra samples', [0, 1, 2, 'line', 'band', 'cube', -1, 'line short', 'band short', 'empty'])
    a = pattern(shape, dt)
    n, m = a.size, a.itemsize
    ny, nx, nb = shape
    more = {'line': nx, 'band': nx * ny, 'cube': n, 'line short': -nx, 'band short': -nx * ny, 'empty': -n}.get(extra, extra)
    b = raw(a, inter, 0)
    b = b + bytes((7 * k + 3) % 251 for k in range(more * m)) if more > 0 else b[:len(b) + more * m]
    d = c.dir()
    f = os.path.join(d, 'a.dat')
    with open(f, 'wb') as s:
        s.write(b'\x7f' * off + b)
    with open(f + '.hdr', 'w') as s:
        s.write('ENVI\nsamples = %d\nlines = %d\nbands = %d\nheader offset = %d\ndata type = %d\ninterleave = %s\nbyte order = 0\n' % (nx, ny, nb, off, CODES[dt], inter))
    ok, got = c.attempt('read', envi_utils.read_envi_image, f)
    c.require(ok or more != 0, 'a file of the right length was refused')
    if ok:
        c.require(more >= 0, 'a file that is too short was read')
        c.same(got, a, 'raster', dtype=dt)
