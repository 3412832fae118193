"""spectral library readers"""
import contextlib
import os

import numpy as np

from mc.core import Check
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory

CHECK = Check('P22', 'spectral library readers', [
    'spectra of 1 to 30 samples; text files in the formats of ENVI plots, SVC .sig, delimited tables and USGS splib07 ascii folders'])

TAILS = ['\n', '', '\n\n', '\n  \n', '\n\n\n']


def samples(n, kind):
    w = [350.0 + 1.4 * k for k in range(n)]
    r = [0.05 + 0.9 * ((k * 7919) % 101) / 101.0 for k in range(n)]
    if kind == 'tiny':
        r = [v * 1e-6 for v in r]
    elif kind == 'negative':
        r = [v - 0.5 for v in r]
    elif kind == 'descending':
        w = w[::-1]
    elif kind == 'integers':
        w, r = [float(350 + k) for k in range(n)], [float(k % 2) for k in range(n)]
    return w, r


FMT = {'plain': lambda v: repr(v), 'fixed': lambda v: '%12.6f' % v, 'exp': lambda v: '%.9E' % v, 'int': lambda v: '%d' % v if v == int(v) else repr(v)}


def put(f, lines, tail, eol):
    with open(f, 'wb') as s:
        s.write(('\n'.join(lines) + tail).replace('\n', eol).encode())


def compare(c, s, w, r, what):
    c.same(np.asarray(s.get_wavelengths()), np.array([float(v) for v in w]), what + ' wavelengths', rtol=1e-14)
    c.same(np.asarray(s.get_spectral_data()), np.array([float(v) for v in r]), what + ' values', rtol=1e-14)


def common(c):
    n = c.choose('samples', [5, 1, 30])
    kind = c.vary('values', ['usual', 'tiny', 'negative', 'descending', 'integers'])
    fmt = c.vary('numbers', list(FMT))
    tail = c.choose('end', TAILS)
    eol = c.vary('eol', ['\n', '\r\n', '\r'])
    w, r = samples(n, kind)
    return [FMT[fmt](v) for v in w], [FMT[fmt](v) for v in r], tail, eol


@CHECK.scenario(bound=(2, 3))
def envi_plot(c):
    """ENVI plot files written by the check"""
    w, r, tail, eol = common(c)
    sep = c.vary('separator', ['  ', '\t', ' ', '          '])
    lead = c.vary('indent', [' ', '', '\t'])
    trail = c.vary('trailing', ['', '  '])
    f = os.path.join(c.dir(), 'a b.txt')
    put(f, ['ENVI ASCII Plot File [Wed Jul 02 10:11:12 2008]', 'Column 1: Wavelength', 'Column 2: F1 (Red Cotton)~~1'] +
        [lead + a + sep + b + trail for a, b in zip(w, r)], tail, eol)
    s = c.op('read', SpectrumFactory.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file, f)
    compare(c, s, w, r, 'plot file')


@CHECK.scenario(bound=(2, 3))
def svc(c):
    """SVC files written by the check"""
    w, r, tail, eol = common(c)
    sep = c.vary('separator', ['  ', '\t', '    '])
    extra = c.vary('header', ['usual', 'short', 'long', 'indented'])
    head = ['/*** Spectra Vista SIG Data ***/']
    if extra != 'short':
        head += ['name= HR.012345.0001.sig', 'instrument= HI: 1122054 (HR-1024i)', 'integration= 10.0, 40.0, 20.0, 10.0', 'scan method= Time-based',
                 'external data set1= 0,0,0', 'time= 6/21/2016 10:20:30AM, 6/21/2016 10:20:40AM', 'units= Radiance, Radiance', 'comm= the data were fine']
    if extra == 'long':
        head += ['', 'memory slot= 0, 1', 'factors= 1.0, 1.0, 1.0 [Overlap: Remove @ 990,1900, Matching Type: None]'] * 10
    if extra == 'indented':
        head += ['  data quality= good', '\tdata', ' data= 1 2 3 4', '']
    head.append('data= ')
    pct = [repr(float(b) * 100) for b in r]
    f = os.path.join(c.dir(), 'HR.sig')
    put(f, head + [sep.join((a, '1234.5', repr(77.0 + k), b)) for k, (a, b) in enumerate(zip(w, pct))], tail, eol)
    s = c.op('read', SpectrumFactory.svc.ascii.SvcAsciiFileFactory.from_sig_file, f)
    compare(c, s, w, r, 'SVC file')


@CHECK.scenario(bound=(2, 3))
def table(c):
    """tables of columns written by the check"""
    w, r, tail, eol = common(c)
    delim = c.vary('delimiter', [',', '\t', ';', ' '])
    nh = c.vary('header lines', [1, 0, 3])
    cols = c.vary('columns', ['two', 'swapped', 'four', 'last', 'nameless', 'empty last'])
    heading = c.vary('heading', ['plain', 'quoted', 'quoted delimiter', 'quoted line end', 'blank'])
    quote = c.vary('quoted', [False, True])
    w, r = [v.strip() for v in w], [v.strip() for v in r]
    q = (lambda v: '"%s"' % v) if quote else (lambda v: v)
    wi, ri, row = {'two': (0, 1, lambda k: [w[k], r[k]]), 'swapped': (1, 0, lambda k: [r[k], w[k]]),
                   'four': (2, 1, lambda k: ['name%d' % k, r[k], w[k], '9']), 'last': (0, 3, lambda k: [w[k], '1', '2', r[k]]),
                   'nameless': (1, 2, lambda k: ['', w[k], r[k]]), 'empty last': (0, 1, lambda k: [w[k], r[k], ''])}[cols]
    title = {'plain': 'header %d', 'quoted': '"header %d"', 'quoted delimiter': '"w' + delim + 'x %d"' + delim + 'r', 'quoted line end': '"wave\nlength %d"' + delim + 'r', 'blank': ''}[heading]
    f = os.path.join(c.dir(), 't.csv')
    put(f, [title % k if '%' in title else title for k in range(nh)] + [delim.join(q(v) for v in row(k)) for k in range(len(w))], tail.replace(' ', '') or tail, eol)
    kw = {}
    if delim != ',':
        kw['delimiter'] = delim
    if nh != 1:
        kw['nheader'] = nh
    if cols != 'two':
        kw.update(wave_index=wi, reflectance_index=ri)
    s = c.op('read', SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file, f, **kw)
    compare(c, s, w, r, 'table')


class Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self.entries

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def listing(order):
    """directories are listed in the given order"""
    scan, lst = os.scandir, os.listdir

    def scandir(*a, **k):
        with scan(*a, **k) as it:
            return Scan(sorted(it, key=lambda e: e.name, reverse=order == 'reversed'))
    os.scandir, os.listdir = scandir, lambda *a, **k: sorted(lst(*a, **k), reverse=order == 'reversed')
    try:
        yield
    finally:
        os.scandir, os.listdir = scan, lst


@CHECK.scenario(bound=(2, 3))
def usgs(c):
    """USGS files written by the check"""
    w, r, tail, eol = common(c)
    names = c.vary('file names', ['splib07b', 'asd', 'lower', 'one'])
    folder = c.vary('folder', ['plain', 'with space', 'with [1] brackets', 'a.b', 'wavelengths', 'ASD_Resolution and bandpass'])
    path = c.vary('path', ['absolute', 'relative', 'chapter relative', 'in chapter', 'trailing'])
    missing = c.vary('missing samples', ['none', 'first', 'some'])
    others = c.vary('other files', [False, True])
    order = c.vary('directory order', ['sorted', 'reversed'])
    top = os.path.join(c.dir(), folder)
    chap = os.path.join(top, 'ChapterA_ArtificialMaterials')
    os.makedirs(chap)
    wn, fn = {'splib07b': ('s07AV95_AVIRIS_1995_Wavelengths_in_microns_224_ch.txt', 's07AV95_AVIRIS_1995_Bandpass_(FWHM)_in_microns.txt'),
              'asd': ('splib07a_ASD_Waves_0.35-2.5_microns_2151_ch.txt', 'splib07a_ASD_Resolution_2151_ch.txt'), 'lower': ('wavelengths.txt', 'bandpass.txt'),
              'one': ('s07_BECKMAN_Wavelength_480_ch.txt', 's07_BECKMAN_Resolution_480_ch.txt')}[names]
    um = [repr(round(float(a) / 1000, 9)) for a in w]
    fw = [repr(0.009 + 1e-4 * k) for k in range(len(w))]
    put(os.path.join(top, wn), [' splib07b Record=17: AVIRIS Waves'] + [' ' + v for v in um], tail, eol)
    put(os.path.join(top, fn), [' splib07b Record=18: AVIRIS FWHM'] + [' ' + v for v in fw], tail, eol)
    if others:
        for x in ('readme.txt', 'zz.txt', 'a_microwave.txt', 'Waveform.txt', 'wave notes.txt', 'zwave.txt', 'bands.txt', 'zz_band.txt', 'wavelengths.csv', 'resolutions.dat', 'res.txt', 'pass.txt'):
            put(os.path.join(top, x), ['nothing', '1', '2'], '', '\n')
        put(os.path.join(chap, 'other_wavelengths.txt'), ['x', '3'], '', '\n')
    bad = {'none': set(), 'first': {0}, 'some': {k for k in range(len(w)) if k % 3 == 1}}[missing]
    v = ['-1.2300000e+034' if k in bad else b for k, b in enumerate(r)]
    f = os.path.join(chap, 's07_Brick_GDS349.txt')
    put(f, [' splib07b Record=99: Brick GDS349'] + [' ' + x for x in v], tail, eol)
    cwd = os.getcwd()
    try:
        if path == 'relative':
            os.chdir(os.path.dirname(top))
            f = os.path.relpath(f)
        elif path == 'chapter relative':
            os.chdir(top)
            f = os.path.relpath(f)
        elif path == 'in chapter':
            os.chdir(chap)
            f = os.path.basename(f)
        elif path == 'trailing':
            f = os.path.join(chap, '..', os.path.basename(chap), os.path.basename(f))
        fac = SpectrumFactory.usgs.ascii.UsgsAsciiSpectralFactory
        with listing(order):
            s = c.op('read', fac.from_ascii_file, f)
            os.chdir(cwd)
            found = os.path.basename(fac.get_wavelengths_fname(top)), os.path.basename(fac.get_fwhm_fname(top))
    finally:
        os.chdir(cwd)
    c.require(s.get_fname() == f, 'file name %s', s.get_fname())
    compare(c, s, um, [np.nan if k in bad else b for k, b in enumerate(r)], 'USGS')
    c.same(np.asarray(s.get_fwhm()), np.array([float(x) for x in fw]), 'fwhm', rtol=1e-14)
    c.same(s.get_spectral_data(nodata_to_nan=False), np.array([float(x) for x in v]), 'values with no-data', rtol=1e-14)
    c.same(s.get_wavelengths(with_units=True).to('nanometer').magnitude, np.array([float(x) * 1000 for x in um]), 'wavelengths in nanometers', rtol=1e-12)
    c.same(s.get_fwhm(with_units=True).to('nanometer').magnitude, np.array([float(x) * 1000 for x in fw]), 'fwhm in nanometers', rtol=1e-12)
    c.require(found == (wn, fn), 'files of the folder: %s', found)
