"""a catalogue of calls into the library: each operation builds fresh arguments of a variant and runs one public function (or a short use of an object)

variants 0 and 1 have arguments of the same shapes, types, names and files, with other values; variant 2 has other shapes, types and names"""
import os
import shutil

import gdal
import numpy as np
import osr
from shapely.geometry import Polygon, box

from mc import zoo
from mc.util import PROJS, proj

from mc.checks.p25 import EO, SB, records, NavFactory
from mc.checks import p10, p22, p29, p30, p31
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import IdealPinholeFpaLocalUtmPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.geotiff.geotiff_point_calc import GeotiffPointCalc
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.spectral.spectrum import Spectrum
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils import (csv_utils, envi_utils, file_utils, geom_utils, numpy_and_array_utils, photogrammetry_utils, pix4d_utils, proj_utils,
                           spectral_utils, string_utils, time_utils)
from resippy.utils.image_utils import image_chipper, image_mask_utils, image_utils
from resippy.utils.image_utils.image_registration import MMI
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator

X0, Y0 = 500321.0, 4423117.0
OPS = {}


class Op(object):
    def __init__(self, name, make, fn, files, outs):
        self.name, self.make, self.fn, self.files, self.outs = name, make, fn, files, outs


def op(name, make, fn, files=False, outs=()):
    """make(k, d): the list of arguments of variant k, files go into folder d; fn(*arguments) creates only the files or folders outs in d"""
    assert name not in OPS
    OPS[name] = Op(name, make, fn, files, outs)


def A(shape, k=0, lo=0.0, hi=1.0, dt='f8'):
    """values all different, in lo..hi"""
    n = int(np.prod(shape))
    u = ((np.arange(n) * 0.6180339887498949 + 0.137 * k + 0.011 * (k + 1) * np.arange(n) % 7) % 1.0)
    v = lo + (hi - lo) * u
    return (np.round(v) if np.dtype(dt).kind in 'iu' else v).astype(dt).reshape(shape)


def sh(k, a, b):
    return b if k == 2 else a


# ---------------------------------------------------------------------------------------------- small helpers
op('string_utils.cleanup_newlines', lambda k, d: [['a\r\nb\rc', 'x\ry\r\nz', 'q\n\r\n'][k]], string_utils.cleanup_newlines)
op('string_utils.remove_newlines', lambda k, d: [['a\r\nb\rc', 'x\ry\r\nz', 'q\n\r\n'][k]], string_utils.remove_newlines)
op('string_utils.convert_to_snake_case', lambda k, d: [['gpsTime', 'utcTime', 'XBodyAccel'][k]], string_utils.convert_to_snake_case)
op('numpy.list_of_tuples', lambda k, d: [[[(1, 2), (3, 4)], [(5, 6), (7, 8)], [(1, 2, 3)]][k]], numpy_and_array_utils.list_of_tuples_to_separate_lists)
op('numpy.separate_lists', lambda k, d: [[[[1, 2], [3, 4]], [[5, 6], [7, 8]], [[1], [2], [3]]][k]], numpy_and_array_utils.separate_lists_to_list_of_tuples)
op('numpy.remove_all', lambda k, d: [[['a', 'b', 'a'], ['b', 'a', 'c'], ['a']][k], 'a'], numpy_and_array_utils.remove_all_entries_from_list)
op('geom.bounds', lambda k, d: [0.0 + k, 10.0 + k, 5.0 - k, -1.0 - k], geom_utils.bounds_2_shapely_polygon)
op('proj.wkt_to_proj_string', lambda k, d: [proj([('utm18n', 'utm33s', 'lonlat')[k]][0]).crs.to_wkt('WKT1_GDAL')], proj_utils.wkt_to_proj_string)
op('proj.wkt_to_proj', lambda k, d: [proj(('utm18n', 'utm33s', 'lonlat')[k]).crs.to_wkt('WKT1_GDAL')], proj_utils.wkt_to_proj)
op('proj.wkt_to_osr', lambda k, d: [proj(('utm18n', 'utm33s', 'lonlat')[k]).crs.to_wkt('WKT1_GDAL')], lambda w: proj_utils.wkt_to_osr_spatialref(w).ExportToProj4())
op('proj.local_utm', lambda k, d: [(-77.0, 15.0, 179.5)[k], (38.0, -33.0, 0.5)[k]], proj_utils.decimal_degrees_to_local_utm_proj)
op('time.utc_to_gps', lambda k, d: [[1483228790.5, 1483228810.25, 1e9][k]], time_utils.utc_timestamp_to_gps_timestamp)
op('time.gps_to_utc', lambda k, d: [[1167264007.5, 1167264027.25, 7e8][k]], time_utils.gps_timestamp_to_utc_timestamp)
op('time.week', lambda k, d: [[1483228790.5, 1483228810.25, 1e9][k]], time_utils.utc_timestamp_to_gps_week_and_seconds)

# ---------------------------------------------------------------------------------------------- angles, grids, shapes
op('photogrammetry.M', lambda k, d: [0.1 + k, -0.2, 0.3 * k, ('rpy', 'rpy', 'ypr')[k]], photogrammetry_utils.create_M_matrix)
M = lambda k: np.array(zoo.m_matrix(0.1 + 0.2 * k, -0.2 + 0.05 * k, 0.3 + k))
op('photogrammetry.opk', lambda k, d: [M(k)], photogrammetry_utils.solve_for_omega_phi_kappa)
op('photogrammetry.boresight', lambda k, d: [M(k), M(k + 1)], photogrammetry_utils.solve_for_boresight_angle_offsets)
op('photogrammetry.reproject', lambda k, d: [box(X0 + k, Y0, X0 + 100, Y0 + 50), proj('utm18n'), proj(('lonlat', 'lonlat', 'merc')[k])], photogrammetry_utils.reproject_geometry)
op('photogrammetry.shift', lambda k, d: [10.0 + k, -20.0, proj(('lonlat', 'lonlat', 'utm18n')[k]), A(sh(k, (4,), (2, 3)), k, -77, -76.9), A(sh(k, (4,), (2, 3)), k, 38, 38.1)],
   photogrammetry_utils.shift_points_by_meters)
op('photogrammetry.geot', lambda k, d: [box(X0 + k, Y0, X0 + 100, Y0 + 50), sh(k, 20, 31), 10], photogrammetry_utils.world_poly_to_geo_t)
op('photogrammetry.grid', lambda k, d: [X0 + k, X0 + 100, Y0, Y0 + 50 + k, sh(k, 6, 9), 4], photogrammetry_utils.create_ground_grid)
op('photogrammetry.npix', lambda k, d: [box(X0, Y0, X0 + 100 + 20 * k, Y0 + 50), 2.0 + k, 2.5], photogrammetry_utils.get_nx_ny_pixels_in_extent)

# ---------------------------------------------------------------------------------------------- images as arrays
op('image.uniform', lambda k, d: [sh(k, 4, 6), 3, 2, [[5, 6], [7, 8], [1, 2]][k], np.uint8], image_utils.create_uniform_image_data)
op('image.grid_warp', lambda k, d: [A(sh(k, (8, 9), (7, 5)), k), A((4, 5), k, 0, 5), A((4, 5), k + 3, 0, 6), 7 + k, ('bilinear', 'bilinear', 'nearest')[k]], image_utils.grid_warp_image_band)
op('image.flatten', lambda k, d: [A(sh(k, (4, 6), (3, 5)), k)], image_utils.flatten_image_band)
op('image.unflatten', lambda k, d: [A(sh(k, (24,), (30,)), k), 6, sh(k, 4, 5)], image_utils.unflatten_image_band)
op('image.pixel_grid', lambda k, d: [(5, 10, 7)[k], (4, 8, 3)[k], (2, 1, 0.5)[k]], image_utils.create_pixel_grid)
op('image.normalize', lambda k, d: [A(sh(k, (4, 6), (3, 5)), k, -3, 9), 0.0, 1.0 + k], image_utils.normalize_grayscale_image)
op('image.normalize uint8', lambda k, d: [A((4, 6), k, 0, 200, 'u1'), 0, 255, np.uint8], image_utils.normalize_grayscale_image)
op('image.grayscale', lambda k, d: [A([(4, 6), (4, 6), (4, 6, 3)][k], k)], image_utils.is_grayscale)
op('image.shape', lambda k, d: [A([(4, 6), (4, 6), (4, 5, 3)][k], k)], image_utils.get_image_ny_nx_nbands)
op('image.detection', lambda k, d: [A((4,), k), np.array([(0, 0), (0, 3 + k), (3, 0), (3, 3)]), sh(k, 3, 4), 3], image_utils.create_detection_image_from_scores)
op('image.colormap', lambda k, d: [A(sh(k, (4, 6), (3, 5)), k, 0, 90), [(0, 0, 128), (255, 20 * k, 0), (255, 255, 255)]], image_utils.apply_colormap_to_grayscale_image)
op('image.colormap steps', lambda k, d: [A((4, 6), k, 0, 90), None, False, 3 + k // 2, 10.0 + k, 80.0, np.uint8, None], image_utils.apply_colormap_to_grayscale_image)
op('image.colormap no-data', lambda k, d: [np.where(A((4, 6), k) < 0.3, -1.0, A((4, 6), k, 0, 90))], lambda a: image_utils.apply_colormap_to_grayscale_image(a, nodata=-1.0))
op('image.blend', lambda k, d: [A(sh(k, (4, 6, 3), (2, 5, 3)), k, 0, 200, 'u1'), A(sh(k, (4, 6, 3), (2, 5, 3)), k + 4, 0, 200, 'u1'), 0.25 + k / 8.0], image_utils.blend_images)
op('image.resize', lambda k, d: [A(sh(k, (8, 6, 3), (5, 5, 3)), k, 0, 255, 'u1'), 4, 7], image_utils.resize_image)
op('image.mmi', lambda k, d: [A((12, 12), k, 0, 255), A((12, 12), k + 2, 0, 255), sh(k, 8, 5)], MMI.image_mmi)
op('image.points', lambda k, d: [np.where(A((6, 7, 1), k) < 0.3, [255, 0, 0], np.where(A((6, 7, 1), k) > 0.8, [0, 255, 0], [0, 0, 0])).astype('u1')], image_mask_utils.rgb_image_point_mask_to_pixel_locations)
op('image.points named', lambda k, d: [np.where(A((6, 7, 1), k) < 0.3, [255, 0, 0], [0, 0, 0]).astype('u1'), {'#ff0000': 'red' + str(k)}], image_mask_utils.rgb_image_point_mask_to_pixel_locations)

# ---------------------------------------------------------------------------------------------- chips
op('chips.whole', lambda k, d: [A(sh(k, (11, 13, 3), (9, 10, 2)), k, 0, 200, 'u1'), 4, 5, 1, 2, [[0, 1], [0, 1], [1]][k]], image_chipper.chip_entire_image_to_memory)
op('chips.upper_left', lambda k, d: [A((11, 13, 3), k), [0, 5, 9 - k], [2, 0, 12], 4, 5], image_chipper.chip_images_by_pixel_upper_lefts)
op('chips.upper_left arrays', lambda k, d: [A((11, 13, 3), k), np.array([0, 5, 10 - k]), np.array([2, -3, 12]), 4, 5], image_chipper.chip_images_by_pixel_upper_lefts)
op('chips.centers', lambda k, d: [A((11, 13, 3), k), np.array([0, 5, 10 - k]), np.array([2, 0, 12]), 4, 6, [2, 0]], image_chipper.chip_images_by_pixel_centers)
op('chips.number', lambda k, d: [A((5 + k, 3, 3, 3), k)], image_chipper.get_nchips)


def write_chips(chips, names, out):
    os.makedirs(out, exist_ok=True)
    image_chipper.write_chips_to_disk(chips, out, fnames_list=names)
    return {f: open(os.path.join(out, f), 'rb').read() for f in sorted(os.listdir(out))}


op('chips.write', lambda k, d: [A((3, 6, 5, 3), k, 0, 255, 'u1'), ['c%d.png' % i for i in range(3)], os.path.join(d, 'chips')], write_chips, True, ['chips'])

# ---------------------------------------------------------------------------------------------- spectral
cube = lambda k, j=0: A(sh(k, (6, 7, 3), (5, 5, 4)), k + 5 * j, 0.1, 2.0) + 0.5 * A(sh(k, (6, 7, 3), (5, 5, 4)), 2 * k + 7 * j + 1) ** 2
flat = lambda k, j=0: cube(k, j).reshape(-1, cube(k).shape[2])
mask = lambda k: A(cube(k).shape[:2], k + 2) < 0.2
target = lambda k: A((cube(k).shape[2],), k + 1, 0.2, 1.5)
icov = lambda k: np.diag(1.0 + A((cube(k).shape[2],), k))
for nm, mod, img, msk in (('1d', s1, flat, lambda k: mask(k).ravel()), ('2d', s2, cube, mask)):
    nb = (lambda m: m)
    op('spectral%s.mean' % nm, lambda k, d, i=img, m=msk: [i(k), m(k)], mod.compute_image_cube_spectral_mean)
    op('spectral%s.demean' % nm, lambda k, d, i=img, m=msk: [i(k), m(k)], mod.demean_image_data)
    op('spectral%s.demean plain' % nm, lambda k, d, i=img: [i(k)], mod.demean_image_data)
    op('spectral%s.cov' % nm, lambda k, d, i=img, m=msk: [i(k), m(k)], mod.compute_image_cube_spectral_covariance)
    op('spectral%s.rx' % nm, lambda k, d, i=img: [i(k)], mod.rx_anomaly_detector)
    op('spectral%s.rx given' % nm, lambda k, d, i=img: [i(k), target(k), icov(k)], mod.rx_anomaly_detector)
    op('spectral%s.ace' % nm, lambda k, d, i=img, m=msk: [i(k), target(k), None, None, m(k)], mod.ace)
    op('spectral%s.ace given' % nm, lambda k, d, i=img: [i(k), target(k), target(k + 3), icov(k)] if k < 2 else [i(k), target(k), target(k) * 0.5, icov(k)], mod.ace)
    op('spectral%s.ace demeaned' % nm, lambda k, d, i=img: [i(k), target(k), icov(k)], mod.ace_demeaned)
    op('spectral%s.sam' % nm, lambda k, d, i=img: [i(k), target(k)], mod.sam)
    op('spectral%s.match' % nm, lambda k, d, i=img, m=msk: [i(k), i(k, 1), m(k), m(k)], mod.covariance_equalization_mean_centered)
    op('spectral%s.transform' % nm, lambda k, d, i=img: [i(k), i(k, 1)], mod.compute_cov_eq_linear_transform_matrix)
op('spectral2d.pca', lambda k, d: [cube(k), 2, bool(k == 1)], s2.compute_image_cube_pca)
op('spectral.flatten', lambda k, d: [cube(k)], spectral_utils.flatten_image_cube)
op('spectral.unflatten', lambda k, d: [flat(k), cube(k).shape[1], cube(k).shape[0]], spectral_utils.unflatten_image_cube)


def spectrum(w, v, f, nod=None):
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(v)
    s.set_fwhm(f)
    s.set_nodata_val(nod)
    return s


def rsr(k):
    w = np.linspace(400, 800, 41)
    return [spectrum(w, np.exp(-((w - cen) / (30.0 + 5 * k)) ** 2), np.full(41, 10.0)) for cen in (450.0 + k, 600.0, 700.0 - k)]


op('spectrum.get', lambda k, d: [A(sh(k, (9,), (7,)), k, 400, 900), np.where(A(sh(k, (9,), (7,)), k) < 0.2, -1.0, A(sh(k, (9,), (7,)), k)), A(sh(k, (9,), (7,)), k)],
   lambda w, v, f: [spectrum(w, v, f, -1.0).get_spectral_data(), spectrum(w, v, f, -1.0).get_wavelengths()])
op('spectrum.resample', lambda k, d: [spectrum(np.linspace(390, 810, sh(k, 85, 60)), A((sh(k, 85, 60),), k), None), rsr(k), np.array([450.0 + k, 600.0, 700.0 - k])],
   lambda s, r, cen: s.resample_spectrum_direct(r, cen))

# ---------------------------------------------------------------------------------------------- text and table files


def lines(f, rows):
    with open(f, 'wb') as s:
        s.write(('\n'.join(rows) + '\n').encode())
    return f


def show(s):
    return [np.asarray(s.get_wavelengths()), np.asarray(s.get_spectral_data())]


def wr(k):
    return A((sh(k, 6, 9),), k, 400, 900), A((sh(k, 6, 9),), k + 1)


def plot_file(k, d):
    return [lines(os.path.join(d, 'plot.txt'), ['ENVI ASCII Plot File', 'Column 1: Wavelength', 'Column 2: x'] + [' %.4f  %.6f' % q for q in zip(*wr(k))])]


def sig_file(k, d):
    return [lines(os.path.join(d, 'a.sig'), ['/*** Spectra Vista SIG Data ***/', 'data= '] + ['%.4f  1.0  2.0  %.6f' % q for q in zip(*wr(k))])]


def csv_file(k, d):
    return [lines(os.path.join(d, 'a.csv'), ['w,r'] + ['%.4f,%.6f' % q for q in zip(*wr(k))])]


op('spectrum.plot file', plot_file, lambda f: show(SpectrumFactory.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file(f)), True)
op('spectrum.sig file', sig_file, lambda f: show(SpectrumFactory.svc.ascii.SvcAsciiFileFactory.from_sig_file(f)), True)
op('spectrum.csv file', csv_file, lambda f: show(SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file(f)), True)
op('csv table', lambda k, d: [lines(os.path.join(d, 't.csv'), ['a,b'] + ['%d,x%d' % (k + i, i * k) for i in range(sh(k, 3, 4))])], csv_utils.CsvUtils.single_line_header_csv_to_dict, True)
op('text list', lambda k, d: [lines(os.path.join(d, 't.txt'), ['a%d' % k, 'b'] + ['c'] * (k // 2))], file_utils.read_text_list_from_file, True)


def write_list(rows, f):
    file_utils.write_text_list_to_file(rows, f)
    return open(f, 'rb').read()


op('folder.make', lambda k, d: [os.path.join(d, 'new%d' % k, 'sub')], lambda p: [file_utils.make_dir_if_not_exists(p), os.path.isdir(p)], True, ['new0', 'new1', 'new2'])
op('write text list', lambda k, d: [['a%d' % k, 'b'] + ['c'] * (k // 2), os.path.join(d, 'w.txt')], write_list, True, ['w.txt'])


def folder(k, d):
    p = os.path.join(d, 'folder')
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(os.path.join(p, 'sub%d' % (k // 2)), exist_ok=True)
    for n in [('a.tif', 'b.txt'), ('a.tif', 'c.txt'), ('x.tif', 'y.tif', 'a.txt')][k]:
        lines(os.path.join(p, n), ['x'])
    return [p]


op('list files', folder, lambda p: file_utils.get_all_files_in_dir(p, ['.txt'], return_fullpaths=False), True)
op('list files that start', folder, lambda p: file_utils.get_files_in_dir_that_start_with(p, ['a'], return_fullpaths=False), True)
op('list folders', folder, lambda p: sorted(os.path.basename(str(q).rstrip('/')) for q in file_utils.get_all_folders_in_dir(p)), True)


def nav_file(k, d, kind):
    cols = EO if kind == 'EO' else SB
    recs = records(cols, sh(k, 5, 7), 1.0, ('north', 'back', 'steady')[k])
    f = os.path.join(d, 'nav.' + kind)
    if kind == 'EO':
        lines(f, ['EO file', ''] + [' '.join(['%d' % (i + 1)] + ['%.6f' % q[x] for x in cols]) for i, q in enumerate(recs)])
    else:
        with open(f, 'wb') as s:
            s.write(np.array([[q[x] for x in cols] for q in recs], dtype='<f8').tobytes())
    return [f, np.array([402345.25 + 0.3, 402345.25 + 2.75 + 0.1 * k])]


def nav_eo(f, t):
    n = NavFactory.from_applanix_eo_file(f, 'utm', 18, 'WGS84', 'WGS84')
    return [n.get_num_records(), n.get_world_xs(t), n.get_headings(t), n.get_nav_records(t)]


def nav_sbet(f, t):
    n = NavFactory.from_applanix_sbet_file(f, 'utm', 18, 'WGS84', 'WGS84')
    return [n.get_num_records(), n.get_world_xs(t), n.get_headings(t), n.get_nav_records(t)]


op('nav.eo', lambda k, d: nav_file(k, d, 'EO'), nav_eo, True)
op('nav.sbet', lambda k, d: nav_file(k, d, 'SBET'), nav_sbet, True)


class Silent(object):
    def op(self, label, fn, *a, **kw):
        return fn(*a, **kw)

    def require(self, *a):
        pass

    def same(self, *a, **kw):
        pass


def pix4d(k, d):
    p = os.path.join(d, 'pix4d')
    os.makedirs(p, exist_ok=True)
    if k == 1:      # the images of variant 0 with other numbers
        keep, p10.cam_params = p10.cam_params, (lambda j, q=p10.cam_params: q(j + 1))
        try:
            p10.make(None, p, (0, 1), 2, '\n', '\n', '', 'plain')
        finally:
            p10.cam_params = keep
    else:
        p10.make(None, p, sh(k, (0, 1), (0, 1, 1)), 2, '\n', '\n', '', 'plain')
    return [p]


def plain(md):
    return {q: v for q, v in md.items() if q != 'projection'}


op('pix4d.project', pix4d, lambda p: plain(pix4d_utils.make_master_dict(p)), True)
op('pix4d.cameras', pix4d, lambda p: pix4d_utils.read_pix4d_calibrated_internal_camera_parameters(os.path.join(p, 'pix4d_calibrated_internal_camera_parameters.cam')), True)
op('pix4d.external', pix4d, lambda p: pix4d_utils.read_calibrated_external_camera_parameters(os.path.join(p, 'calibrated_external_camera_parameters.txt')), True)
op('pix4d.calibrated', pix4d, lambda p: pix4d_utils.read_calibrated_camera_parameters(os.path.join(p, 'calibrated_camera_parameters.txt')), True)


def envi_file(k, d):
    f = os.path.join(d, 'e.dat')
    envi_utils.write_envi_image(A(sh(k, (4, 5, 3), (3, 6, 2)), k, 0, 100, ('f4', 'f4', 'i2')[k]), f, interleave=('bil', 'bil', 'bsq')[k])
    return [f]


def gdal_envi(k, d):
    f = os.path.join(d, 'g.dat')
    p31.write(f, p31.cube(sh(k, (4, 5), (3, 6)), 3, ('f4', 'f4', 'i2')[k], k), 'dat')
    return [f]


def write_envi(a, f, il):
    envi_utils.write_envi_image(a, f, interleave=il)
    return open(f, 'rb').read(), sorted(open(f + '.hdr').read().split('\n'))


op('envi.read', envi_file, envi_utils.read_envi_image, True)
op('envi.header', envi_file, lambda f: envi_utils.read_envi_header(f + '.hdr'), True)
op('envi.write', lambda k, d: [A(sh(k, (4, 5, 3), (3, 6, 2)), k, 0, 100, 'i2'), os.path.join(d, 'w.dat'), ('bil', 'bsq', 'bip')[k]], write_envi, True, ['w.dat', 'w.dat.hdr'])
op('envi.cube', lambda k, d: [A((60,), k), 5, 4, 3, ('bil', 'bil', 'bip')[k]], envi_utils.construct_image_cube_from_raw_data)


def write_header(h, f):
    envi_utils.write_envi_header(h, f)
    return open(f).read()


op('envi.write header', lambda k, d: [{'samples': 5 + k, 'lines': 4, 'wavelength': [400.5, 500.0 + k], 'description': 'x'}, os.path.join(d, 'h.hdr')], write_header, True, ['h.hdr'])

# ---------------------------------------------------------------------------------------------- images and sensor models
G = lambda k: [X0 + k, 2.0, 0.1 * k, Y0, 0.0, -2.0 - (k == 2)]


def look(im, load=True):
    """what an image object says"""
    md = im.get_metadata()
    out = [md.get_npix_x(), md.get_npix_y(), md.get_n_bands(), md.get_nodata_val()]
    if load:
        out += [im.read_band_from_disk(1), im.read_all_image_data_from_disk()]
    return out


def tif(k, d, name='i.tif'):
    f = os.path.join(d, name)
    p30.write(f, [A(sh(k, (12, 15), (10, 9)), k + 3 * b, 0, 200, ('u1', 'u1', 'f4')[k]) for b in range(3)], G(k), 'utm18n')
    return f


def geotiff_from_file(f):
    im = ImageFactory.geotiff.from_file(f)
    p = im.get_point_calculator()
    return look(im) + [p.pixel_x_y_alt_to_lon_lat(3.5, 2.0, 0), p.lon_lat_alt_to_pixel_x_y(X0 + 7, Y0 - 9, 0), p.get_geot()]


def gtiff(k):
    return ImageFactory.geotiff.from_numpy_array(A(sh(k, (12, 15, 3), (10, 9, 2)), k, 0, 200, ('u1', 'u1', 'f4')[k]), G(k), proj('utm18n'), nodata_val=3 + k)


def write_tif(im, f):
    im.write_to_disk(f)
    return look(ImageFactory.geotiff.from_file(f))


def array_image(a, g, p):
    im = ImageFactory.geotiff.from_numpy_array(a, g, p, nodata_val=5)
    return [im.get_image_data().copy(), im.get_image_band(im.get_metadata().get_n_bands() - 1).copy(), im.get_point_calculator().get_geot(), im.get_metadata().get_nodata_val()]


def warp(im):
    o = type(im).gdalwarp_geotiff_image(im, gdal.WarpOptions(dstSRS='EPSG:4326'))
    return look(o) + [o.get_point_calculator().get_geot()]


op('geotiff.read', lambda k, d: [tif(k, d)], geotiff_from_file, True)
op('geotiff.write', lambda k, d: [gtiff(k), os.path.join(d, 'o.tif')], write_tif, True, ['o.tif'])
op('geotiff.array', lambda k, d: [A((4, 6, 3), k, 0, 200, ('u1', 'u1', 'f4')[k]), G(k), proj('utm18n')], array_image)
op('geotiff.array 2d', lambda k, d: [A(sh(k, (4, 6), (5, 3)), k, 0, 200, ('u1', 'u1', 'f4')[k]), G(k), proj('utm18n')], array_image)
op('geotiff.warp', lambda k, d: [ImageFactory.geotiff.from_file(tif(k, d, 'w.tif'))], warp, True)
op('envi.image', gdal_envi, lambda f: look(ImageFactory.envi.from_file(f)), True)


def stereo(k, d):
    f = os.path.join(d, 's.tif')
    p31.write(f, p31.cube(sh(k, (4, 6), (5, 5)), 2, 'u2', k), 'tif', None, zoo.rpc_gdal_metadata(zoo.rpc_params(k)))
    return [f]


op('stereo.read', stereo, lambda f: look(ImageFactory.digital_globe.view_ready_stereo.from_file(f)) +
   [ImageFactory.digital_globe.view_ready_stereo.from_file(f).get_point_calculator().lon_lat_alt_to_pixel_x_y(-77.05, 39.06, 190.0)], True)
op('rpc.file', stereo, lambda f: RPCPointCalc.init_from_file(f).lon_lat_alt_to_pixel_x_y(-77.05, 39.06, 190.0), True)
op('physical camera.read', lambda k, d: [tif(k, d), zoo.build('pinhole').calc], lambda f, p: look(ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(f, p)), True)


def bands(k, d):
    fn = {'band%d' % (b + 1): os.path.join(d, 'IMG_0001_%d.tif' % (b + 1)) for b in range(5)}
    v = p31.cube(sh(k, (4, 6), (5, 5)), 5, 'u2', k)
    for b in range(5):
        p29.tiff(fn['band%d' % (b + 1)], v[:, :, b])
    return [fn]


def cameras_cv(k, d):
    cv = [p29.cam_cv(b)[0] for b in range(5)]
    for q in cv:
        q['fx_pixels'] += 11.0 * k
    return bands(k, d) + [cv]


def cameras_px(k, d):
    px = {'IMG_0001_%d.tif' % (b + 1): p29.cam_px(b + k)[0] for b in range(5)}
    px['projection'] = proj('utm18n')
    return bands(k, d) + [px]


def micasense_cv(fn, cv):
    im = ImageFactory.micasense.from_image_number_and_opencv(fn, cv)
    m = im.get_point_calculator()
    for q in m.get_point_calcs():
        q.init_extrinsic(X0, Y0, 400.0, 0.01, 0.02, 0.3)
        q.set_projection(proj('utm18n'))
    m.set_projection(proj('utm18n'))
    return look(im) + [m.lon_lat_alt_to_pixel_x_y(X0 + 9, Y0 + 4, 3.0, band=b) for b in range(5)]


def micasense_px(fn, px):
    im = ImageFactory.micasense.from_image_number_and_pix4d(fn, px)
    return look(im) + [im.get_point_calculator().lon_lat_alt_to_pixel_x_y(X0 + 9, Y0 + 4, 3.0, band=b) for b in range(5)]


op('micasense.opencv', cameras_cv, micasense_cv, True)
op('micasense.pix4d', cameras_px, micasense_px, True)


def pinhole(k, small=True):
    """a camera of which image() holds the pixels; variant 1 is placed elsewhere, variant 2 is of another size and rotated"""
    return IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X0 + 7 * (k == 1), Y0, 400.0, proj('utm18n'), 0.02, -0.03, 1.2 if k == 2 else 0.1, *(
        sh(k, (24, 20), (19, 23)) + (40.0, 40.0, 25.0)))


def image(k, j=0):
    nx, ny = sh(k, (24, 20), (19, 23))
    md = PhysicalCameraMetadata()
    md.set_npix_x(nx)
    md.set_npix_y(ny)
    md.set_n_bands(3)
    return ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(A((ny, nx, 3), k + 5 * j, 10, 200), md, pinhole(k))


def dem_file(k, d, name='dem.tif'):
    f = os.path.join(d, name)
    p30.write(f, [A(sh(k, (9, 10), (7, 12)), k, 20.0, 21.0 + k, 'f4')], [X0 - 60 - k, 12.0, 0.0, Y0 + 60, 0.0, -14.0], 'utm18n')
    return f


def dem(k, d):
    return DemFactory.from_gtiff_file(dem_file(k, d), interpolation_method=('bilinear', 'bilinear', 'nearest')[k])


poly = lambda k: Polygon([(X0 - 5 - k, Y0 - 6), (X0 + 9, Y0 - 6), (X0 + 9, Y0 + 4 + k), (X0 - 5 - k, Y0 + 4 + k)])
pts = lambda k: (A(sh(k, (4,), (2, 3)), k, X0 - 8, X0 + 8), A(sh(k, (4,), (2, 3)), k + 2, Y0 - 8, Y0 + 8))


def ortho(im, d, p, fn, **kw):
    o = fn(im, 11, 9, p, proj('utm18n'), dem=d, **kw)
    return [o.get_image_data().copy(), o.get_point_calculator().get_geot()]


W = ortho_tools
op('ortho.world_to_sensor', lambda k, d: [image(k), dem(k, d), poly(k)], lambda i, d, p: ortho(i, d, p, W.create_ortho_gtiff_image_world_to_sensor, spline_order=1, nodata_val=3), True)
op('ortho.backup', lambda k, d: [image(k), dem(k, d), poly(k)], lambda i, d, p: ortho(i, d, p, W.create_ortho_gtiff_image_world_to_sensor_backup, bands=[2, 0]), True)
op('ortho.flat', lambda k, d: [image(k), DemFactory.constant_elevation(5.0 + k), poly(k)], lambda i, d, p: ortho(i, d, p, W.create_ortho_gtiff_image_world_to_sensor, bands=[1]))
op('ortho.default dem', lambda k, d: [image(k), None, poly(k)], lambda i, d, p: ortho(i, d, p, W.create_ortho_gtiff_image_world_to_sensor))
op('ortho.full', lambda k, d: [image(k), dem(k, d)], lambda i, d: [W.create_full_ortho_gtiff_image(i, 1.0, d).get_image_data().copy()], True)
op('ortho.extent', lambda k, d: [image(k), dem(k, d)], lambda i, d: W.get_extent(i, d), True)
op('ortho.lon_lats', lambda k, d: [image(k), None], lambda i, d: W.get_pixel_lon_lats(i, d))
op('ortho.values', lambda k, d: [image(k)] + list(pts(k)) + [np.full(pts(k)[0].shape, 3.0)], lambda i, x, y, z: W.get_pixel_values(i, x.ravel(), y.ravel(), z.ravel(), 4))
op('ortho.igm', lambda k, d: [image(k), dem(k, d)], lambda i, d: [np.array(v) for v in (lambda g: (g.point_calc.lon_image, g.point_calc.lat_image, g.point_calc.alt_image))(W.create_igm_image(i, d))], True)
op('ortho.obstructed', lambda k, d: [image(k), A((5,), k, 2, 15), A((5,), k + 1, 2, 15), A((5,), k, X0 - 8, X0 + 8), A((5,), k + 2, Y0 - 8, Y0 + 8), dem(k, d)],
   lambda i, px, py, lo, la, d: W.are_pixels_obstructed_by_dem(i, px, py, lo, la, d), True)
op('ortho.mask', lambda k, d: [A(sh(k, (5, 6, 3), (4, 7, 2)), k, 0, 9, 'u1'), 3 + k], W.mask_image)

op('dem.elevations', lambda k, d: [dem(k, d)] + list(pts(k)), lambda q, x, y: q.get_elevations(x, y), True)
op('dem.elevations lonlat', lambda k, d: [dem(k, d)] + list(proj('utm18n')(pts(k)[0], pts(k)[1], inverse=True)), lambda q, x, y: q.get_elevations(x, y, proj('lonlat')), True)
op('dem.range', lambda k, d: [dem(k, d)], lambda q: [q.get_highest_alt(), q.get_lowest_alt(), q.get_mean_alt()], True)
op('dem.nodata', lambda k, d: [dem_file(k, d)], lambda f: (lambda q: [q.remove_nodata_values(20.5), q.get_highest_alt()][1:])(DemFactory.from_gtiff_file(f, nodata_value=-99.0)), True)
op('dem.constant', lambda k, d: [DemFactory.constant_elevation(5.0 + k)] + list(pts(k)), lambda q, x, y: [q.get_elevations(x, y), q.get_mean_alt()])


MODELS = ['geotiff', 'pinhole', 'opencv', 'pix4d', 'rpc', 'igm', 'model1']
for nm in MODELS:
    def ground(k, d, nm=nm):
        m = zoo.build(nm)
        q = m.pts[3 * k:3 * k + 3] if k < 2 else m.pts[5:6]
        return [m.calc] + [np.array([p[j] for p in q]) for j in range(3)] + [m.band]

    def pixels(k, d, nm=nm):
        m = zoo.build(nm)
        q = m.pts[3 * k:3 * k + 3] if k < 2 else m.pts[5:6]
        x, y = m.refs(q)
        if nm == 'igm':
            x, y = np.round(x), np.round(y)
        return [m.calc, x, y, np.array([p[2] for p in q]), m.band]
    op('sensor %s.to pixel' % nm, ground, lambda m, x, y, z, b: m.lon_lat_alt_to_pixel_x_y(x, y, z, band=b))
    op('sensor %s.to ground' % nm, pixels, lambda m, x, y, z, b: m.pixel_x_y_alt_to_lon_lat(x, y, z, band=b))
op('sensor pinhole.to dem', lambda k, d: [pinhole(k), A((3,), k, 4, 15), A((3,), k + 1, 4, 15), dem(k, d)], lambda m, x, y, q: m.pixel_x_y_to_lon_lat_alt(x, y, q), True)
op('sensor wgs84', lambda k, d: [-77.0 + 0.01 * k, 39.0, 500.0, 0.01 * k, 0.02, 0.3], lambda a, b, z, o, p, q: (lambda m: [m.lon_lat_alt_to_pixel_x_y(-77.0, 39.0, 3.0, world_proj=proj('lonlat')), m.compute_ifov_x()])(
    IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(a, b, z, o, p, q, 100, 90, 10.0, 10.0, 30.0)))


def hole(p):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(*p)
    return c.world_to_image_plane(np.array([X0, X0 + 3.0]), np.array([Y0, Y0 + 2.0]), np.array([0.0, 1.0]))


def fixture(p):
    f = FixturedCamera()
    f.set_fixture_xyz(*p[:3])
    f.set_relative_camera_xyz(*p[3:6])
    f.set_fixture_orientation_by_roll_pitch_yaw(*p[6:9])
    f.set_boresight_matrix_from_camera_relative_rpy_params(0.01, p[6], 0.02)
    return [f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix()]


op('pinhole', lambda k, d: [[X0 + k, Y0, 300.0, 0.01, 0.02 * k, 0.3, 25.0]], hole)
op('fixture', lambda k, d: [[X0 + k, Y0, 300.0, 0.1, 0.2, -0.3 * k, 0.01, 0.02 * k, 0.3]], fixture)
op('opencv.params', lambda k, d: [dict(fx_pixels=1500.0 + k, fy_pixels=1400.0, cx_pixels=600.0, cy_pixels=470.0, k1=-0.1, k2=0.01 * k, k3=0.0, p1=0.001, p2=0.002, pixel_pitch_microns=3.75,
                                       x_offset_meters=0.1 * k, y_offset_meters=0.0, z_offset_meters=1.0, omega_offset_radians=0.01, phi_offset_radians=0.0, kappa_offset_radians=0.02 * k)],
   lambda p: (lambda m: [m.init_extrinsic(X0, Y0, 300.0, 0.01, 0.02, 0.3), m.set_projection(proj('utm18n')), m.lon_lat_alt_to_pixel_x_y(X0 + 5, Y0 - 4, 2.0)][2])(OpenCVPointCalc.init_from_params(p)))


def px_params(k):
    r = np.array(zoo.m_matrix(0.01 * k, 0.02, 0.4))
    return {'IMG_0001_1.tif': dict(camera_rotation_r=r, external_params=[X0 + k, Y0, 300.0, 1.0 * k, 2.0, 3.0], n_x_pixels=1280, n_y_pixels=960,
                                   internal_params=dict(F=5.5, Px=2.4 + 0.01 * k, Py=1.9, fpa_width_mm=4.8, fpa_height_mm=3.6),
                                   tangential_distortion=np.array([0.001, 0.002 * k]), radial_distortion=np.array([-0.1, 0.1, 0.05 * k])), 'projection': proj('utm18n')}


op('pix4d.params', lambda k, d: ['IMG_0001_1.tif', px_params(k)], lambda key, p: Pix4dPointCalc.init_from_params(key, p).lon_lat_alt_to_pixel_x_y(X0 + 5.0, Y0 - 4.0, 2.0))
op('pix4d.rotation', lambda k, d: [px_params(k)['IMG_0001_1.tif']['external_params']], pix4d_utils.create_r_matrix)


def coeffs(k, d):
    s = zoo.rpc_params(k)
    return [[np.array(s['sn']), np.array(s['sd']), s['s_scale'], s['s_off'], np.array(s['ln']), np.array(s['ld']), s['l_scale'], s['l_off'], s['lat_scale'], s['lat_off'],
             s['lon_scale'], s['lon_off'], s['h_scale'], s['h_off']]]


op('rpc.coeffs', coeffs, lambda p: RPCPointCalc.init_from_coeffs(*p).lon_lat_alt_to_pixel_x_y(-77.05, 39.06, 190.0))


def igm(k, d):
    jj, ii = np.mgrid[0:sh(k, 7, 6), 0:9].astype(float)
    return [X0 + 2.0 * ii + 0.3 * jj + k, Y0 - 1.7 * jj + 0.2 * ii, 10.0 + jj - ii + k, proj('utm18n')]


op('igm.points', igm, lambda lo, la, al, p: (lambda m: [m.lon_lat_alt_to_pixel_x_y(X0 + 7.3, Y0 - 4.1, 0.0), m.pixel_x_y_alt_to_lon_lat(3, 2, 0)])(IGMPointCalc(lo, la, al, p)))
op('igm.image', lambda k, d: [A((sh(k, 7, 6), 9, 2), k)] + igm(k, d)[:3] + [2, proj('utm18n')], lambda a, lo, la, al, n, p: (lambda i: [i.get_image_data().copy(), np.array(i.point_calc.lon_image), i.get_metadata().get_npix_x()])(
    IgmImage.from_params(a, lo, la, al, n, p)))


def geot_calc(g):
    m = GeotiffPointCalc()
    m.set_geot(g)
    m.set_npix_x(20)
    m.set_npix_y(10)
    m.set_projection(proj('utm18n'))
    return [m.lon_lat_alt_to_pixel_x_y(X0 + 5, Y0 - 4, 0), m.get_inv_geot(), m.get_world_extent_native(), m.get_geot()]


op('geotiff.calc', lambda k, d: [G(k)], geot_calc)


def simulator(k, d):
    f = os.path.join(d, 'ground.tif')
    p30.write(f, [A((30, 40), k, 0, 200, ('f4', 'f4', 'u1')[k])], [X0 - 60, 3.0, 0.0, Y0 + 60, 0.0, -4.0], 'utm18n')
    return [f, X0 + 3.0 * k, 200.0 + 10 * k, sh(k, (12, 9), (7, 10))]


def simulate(f, x, z, n):
    s = PhysicalCameraSimulator(f, 25.0, n[0], n[1], 0.3, -0.2, 1.0, 150.0, 150.0)
    im = s.create_overhead_image_object(x, Y0, z, 1.0, -2.0, 30.0)
    return [im.get_image_data().copy(), im.get_point_calculator().lon_lat_alt_to_pixel_x_y(x + 5, Y0 - 4, 0.0)]


op('simulator', simulator, simulate, True)
NAMES = list(OPS)
