"""pix4d project files"""
import os

import numpy as np
import osr

from mc import zoo
from mc.core import Check
from mc.util import PROJS
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.utils import pix4d_utils

CHECK = Check('P10', 'pix4d project files', [
    'projects with 1 to 4 images from 1 to 3 cameras; file endings, line endings and blank lines from fixed lists'])


CAMS_OF = {1: [(0,), (0, 0), (0, 0, 0, 0)], 2: [(0,), (1,), (0, 1), (1, 0), (1, 1, 0)],
           3: [(2,), (1,), (0, 2), (2, 1), (0, 1, 2), (2, 2, 0, 1)]}


def num(v):
    return repr(float(v))


STYLES = {'plain': 'IMG_%04d_%d.tif', 'dashes': 'DJI-7-2_%04d-b_%d.tif', 'dots': '2019.05.03_%04d_%d.tif', 'case': 'iMg_%d_A_%d.tif', 'reverse': 'z%d_%d.tif', 'upper': 'IMG_%04d_%d.TIF', 'jpg': 'DJI_%04d_%d.Jpg'}


def image_params(k, ncam, cam, style):
    w = lambda i: ((k * 37 + i * 13) % 29) / 7.0 - 2.0
    return dict(name=STYLES[style] % (k, cam + 1), cam=cam, nx=1280 + 16 * cam if cam != 1 else 12816, ny=960 + 8 * k,
                K=[[1000.5 + k, 0, 640.25], [0, 1001.5, 480.125 + k], [0, 0, 1]], rad=[w(1) / 10, w(2) / 10, w(3) / 10],
                tan=[w(4) / 100, w(5) / 100], t=[500000.123 + k, 4400000.456 - k, 300.5 + k],
                R=[[w(6 + 3 * i + j) for j in range(3)] for i in range(3)],
                ext=[500000.123 + k, 4400000.456 - k, 300.5 + k, w(20), w(21), w(22) * 40])


def cam_params(j):
    return dict(F=5.4328612 + j, Px=2.412345 + j / 10.0, Py=1.987654321 - j / 10.0, K1=-0.1012345 * (j + 1), K2=0.12000789, K3=0.05 + j, T1=0.0012345678, T2=-0.0007 * j,
                fpa_width_mm=4.8125 + j, fpa_height_mm=3.59765 + 2.0 * j)


def write(path, lines, eol, tail):
    with open(path, 'wb') as f:
        f.write((eol.join(lines) + tail.replace('\n', eol)).encode())


def make(c, d, cams_of, ncam, eol, cam_tail, prefix, style):
    ks = list(range(len(cams_of)))
    ims = [image_params(k, ncam, cams_of[i], style) for i, k in enumerate(ks[::-1] if style == 'reverse' else ks)]
    cams = [cam_params(j) for j in range(ncam)]
    cal = ['fileName imageWidth imageHeight', 'camera matrix K [3x3]', 'radial distortion [3x1]', 'tangential distortion [2x1]',
           'camera position t [3x1]', 'camera rotation R [3x3]', 'camera model m = K [R|-Rt] X', '']
    for im in ims:
        cal += ['%s %d %d' % (im['name'], im['nx'], im['ny'])]
        cal += [' '.join(num(v) for v in row) for row in im['K']]
        cal += [' '.join(num(v) for v in im['rad']), ' '.join(num(v) for v in im['tan']), ' '.join(num(v) for v in im['t'])]
        cal += [' '.join(num(v) for v in row) for row in im['R']]
    ext = ['imageName X Y Z Omega Phi Kappa'] + [im['name'] + ' ' + ' '.join(num(v) for v in im['ext']) for im in ims]
    cam = []
    for j, q in enumerate(cams):
        cam += ['Pix4D camera calibration file %d' % j, '', '#Focal Length mm assuming a sensor width of %sx%smm' % (num(q['fpa_width_mm']), num(q['fpa_height_mm'])),
                'F ' + num(q['F']), '', '#Principal Point mm', 'Px ' + num(q['Px']), 'Py ' + num(q['Py']), '', '#Symmetrical Lens Distortion Coeffs',
                'K1 ' + num(q['K1']), 'K2 ' + num(q['K2']), 'K3 ' + num(q['K3']), '', '#Tangential Lens Distortion Coeffs', 'T1 ' + num(q['T1']), 'T2 ' + num(q['T2'])]
        if j < ncam - 1:
            cam += ['']
    paths = {k: os.path.join(d, prefix + v) for k, v in dict(
        cal='calibrated_camera_parameters.txt', ext='calibrated_external_camera_parameters.txt',
        cam='pix4d_calibrated_internal_camera_parameters.cam', wkt='wkt.prj').items()}
    write(paths['cal'], cal, eol, '\n')
    write(paths['ext'], ext, eol, '\n')
    write(paths['cam'], cam, eol, cam_tail)
    s = osr.SpatialReference()
    s.ImportFromProj4(PROJS['utm18n'])
    with open(paths['wkt'], 'w') as f:
        f.write(s.ExportToWkt())
    return ims, cams, paths


def check_cams(c, got, cams, what):
    c.require(len(got) == len(cams), '%s: %d cameras, expected %d', what, len(got), len(cams))
    for j, q in enumerate(cams):
        c.require(got[j] == q, '%s: camera %d is %s, expected %s', what, j, got[j], q)


@CHECK.scenario(bound=(9, 9))
def project(c):
    """a Pix4D project written by the check, every camera read from it against the files"""
    ncam = c.choose('cameras', [1, 2, 3])
    cams_of = c.choose('camera of each image', CAMS_OF[ncam])
    eol = c.choose('eol', ['\n', '\r\n'])
    tail = c.choose('camera file end', ['', '\n', '\n\n'])
    names = c.choose('names', ['default', 'prefixed', 'explicit'])
    d = c.dir()
    style = c.choose('image names', list(STYLES))
    ims, cams, paths = make(c, d, cams_of, ncam, eol, tail, {'default': '', 'prefixed': 'flight_7_', 'explicit': 'odd.'}[names], style)
    if names == 'explicit':
        # decoys that the default search would pick up
        for k in paths.values():
            with open(os.path.join(d, os.path.basename(k)[4:]), 'w') as f:
                f.write('decoy')
    kw = {}
    if names == 'explicit':
        kw = dict(external_params_fname=os.path.basename(paths['ext']), internal_params_fname=os.path.basename(paths['cam']),
                  calibrated_params_fname=os.path.basename(paths['cal']), wkt_fname=os.path.basename(paths['wkt']))
    md = c.op('project', pix4d_utils.make_master_dict, d, **kw)
    c.same(md['projection'](-75.1, 40.2), zoo.Proj(PROJS['utm18n'])(-75.1, 40.2), 'projection', rtol=1e-9)
    keys = [k for k in md if str(k).lower().endswith(('.tif', '.jpg'))]
    c.require(sorted(keys) == sorted(im['name'] for im in ims), 'images %s', keys)
    ext = c.op('external', pix4d_utils.read_calibrated_external_camera_parameters, paths['ext'])
    c.require(sorted(ext) == sorted(im['name'] for im in ims), 'external parameter keys')
    cal = c.op('calibrated', pix4d_utils.read_calibrated_camera_parameters, paths['cal'])
    c.require(sorted(cal) == sorted(im['name'] for im in ims), 'calibrated parameter keys')
    check_cams(c, c.op('internal', pix4d_utils.read_pix4d_calibrated_internal_camera_parameters, paths['cam']), cams, 'camera file')
    pc = Pix4dPointCalc()
    check_cams(c, c.op('internal', pc.read_pix4d_calibrated_internal_camera_parameters, paths['cam']), cams, 'camera file (point calculator)')
    ext2 = c.op('external', pc.read_calibrated_external_camera_parameters, paths['ext'])
    for im in ims:
        for e, what in ((md[im['name']], 'project'), (cal[im['name']], 'calibrated file')):
            c.same(e['camera_matrix_k'], np.array(im['K'], dtype=float), what + ': K')
            c.same(e['radial_distortion'], np.array(im['rad']), what + ': radial distortion')
            c.same(e['tangential_distortion'], np.array(im['tan']), what + ': tangential distortion')
            c.same(np.ravel(e['camera_position_t']), np.array(im['t']), what + ': position')
            c.same(e['camera_rotation_r'], np.array(im['R']), what + ': rotation')
            c.require((e['n_x_pixels'], e['n_y_pixels']) == (im['nx'], im['ny']), '%s: size', what)
        for e in (md[im['name']]['external_params'], ext[im['name']], ext2[im['name']]):
            c.same(np.array(e), np.array(im['ext']), 'external parameters')
        c.require(md[im['name']]['internal_params'] == cams[im['cam']], '%s uses the parameters of camera %d', im['name'], im['cam'])
        # and the camera built from the project projects like the reference
        calc = c.op('camera', Pix4dPointCalc.init_from_params, os.path.join(d, im['name']), md)
        q = cams[im['cam']]
        ppm = im['nx'] / q['fpa_width_mm']
        s = dict(t=im['ext'][:3], R=im['R'], nx=im['nx'], ny=im['ny'], cx=q['Px'] * ppm, cy=q['Py'] * ppm, f=q['F'] * ppm, k=im['rad'], p=im['tan'],
                 model='regular', rev_x=True, rev_y=True)
        pt = [im['ext'][0] + 11.0, im['ext'][1] - 7.0, 20.0]
        x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, *pt)
        c.same([x, y], zoo.ref_pix4d(s, *pt), 'pixel through the project camera', rtol=1e-7, atol=1e-5)


@CHECK.scenario(bound=(9, 9))
def p_matrices(c):
    """projection matrix files read back number by number"""
    n = c.choose('n', [0, 1, 3])
    eol = c.choose('eol', ['\n', '\r\n'])
    digits = c.choose('numbers', ['short', 'full precision', 'exponents', 'many digits', 'whole'])
    f = os.path.join(c.dir(), 'p.txt')
    scale = {'short': 1.0, 'full precision': 1.0 / 7, 'exponents': -1e-9 / 7, 'many digits': -44000.0 / 7, 'whole': 4000000.0}[digits]
    text = {'exponents': lambda x: '%.17e' % x, 'many digits': lambda x: '%.22f' % x, 'whole': lambda x: '%d' % x}.get(digits, num)
    want = {'IMG_%d.tif' % k: [(k * 1.5 + i * i - 0.25) * scale for i in range(12)] for k in range(n)}
    write(f, ['%s %s' % (k, ' '.join(text(x) for x in v)) for k, v in want.items()], eol, '\n' if n else '')
    got = c.op('read', pix4d_utils.read_p_matrices, f)
    c.require(sorted(got) == sorted(want), 'keys %s', sorted(got))
    for k in want:
        c.same(got[k], np.array([float(text(x)) for x in want[k]]), 'matrix of %s' % k)


@CHECK.scenario(bound=(9, 9))
def unknown_cameras(c):
    """an image of a camera that the project does not describe is refused, not given the parameters of another"""
    ncam = c.choose('cameras', [1, 2, 3])
    more = c.choose('camera number above', [1, 2, 5])
    style = c.choose('image names', list(STYLES))
    n = c.choose('images', [1, 3])
    d = c.dir()
    make(c, d, tuple(k % ncam for k in range(n - 1)) + (ncam + more - 1,), ncam, '\n', '\n', '', style)
    ok, r = c.attempt('project', pix4d_utils.make_master_dict, d)
    c.require(not ok, 'a project with an image of an unknown camera was accepted')
    c.observe(type(r).__name__)
