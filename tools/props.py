"""source of properties.jsonl and the check entries of MANIFEST.json (run tools/gen.py after editing)"""
R = 'resippy/'
PC = R + 'image_objects/earth_overhead/earth_overhead_point_calculators/'
GT = R + 'image_objects/earth_overhead/geotiff/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      observe=observe or []))


P('P01', 'A geotiff written to disk reads back as the same image',
  'Writing an in-memory or file-backed image to a GeoTIFF and opening that file again gives the same pixel values in the same data type, '
  'the same band order and size, the same geotransform and projection, and the same no-data value (including fractional, NaN and absent ones), '
  'for every raster type, shape, memory layout and compression, and the file is compressed as asked. '
  'This stays true over any sequence of building, writing, overwriting, reading, closing and re-reading images, and writing never changes the image in memory.',
  ['inputs', 'histories'], 'all 12 raster types x shapes x layouts x no-data values x compressions; all histories of up to 4 image operations over 2 files and 2 images',
  'Existing tests write one uint8/float image once and compare one band; they sample no other type, layout, no-data value or order of operations.',
  [GT + 'geotiff_image.py', GT + 'geotiff_image_factory.py', R + 'image_objects/abstract_image.py', R + 'image_objects/abstract_image_metadata.py',
   R + 'utils/image_utils/image_utils.py'],
  [('GeotiffImage.write_to_disk / create_gdal_dataset', GT + 'geotiff_image.py'), ('from_file, from_numpy_array', GT + 'geotiff_image_factory.py')],
  'Exhaustive within the stated alphabet (up to 2 departures from the default configuration per run, 3 in thorough). GDAL opened directly is the second reader; GDAL and the file system are trusted.',
  ['files written', 'pixel arrays and metadata of the reopened image'])

P('P02', 'Geotiff pixel and world positions follow the geotransform, also after warps',
  'For a GeoTIFF-style image the world position of pixel (x, y) is exactly the affine geotransform applied to (x, y), the pixel of a world position is its exact inverse, both also '
  'when positions are given in another projection, for rotated, sheared and mirrored grids, scalars and arrays, on and off the raster. '
  'Replacing the geotransform changes both directions at once. '
  'A warped image carries the pixels, grid, projection and no-data value of the warp and stays what it was when further images are warped.',
  ['inputs', 'histories'], '9 geotransforms x 2 sources x call forms x projections; all sequences of up to 3 warps from memory, file or into named files',
  'Tests use one north-up image and one warp; a second warp or a rotated grid is never seen.',
  [PC + 'geotiff_point_calc.py', GT + 'geotiff_image.py'],
  [('geotransform and inverse', PC + 'geotiff_point_calc.py'), ('gdalwarp_geotiff_image', GT + 'geotiff_image.py')],
  'Exhaustive over the listed grids and histories; pyproj and a direct GDAL warp are the oracles.', ['pixel and world coordinates', 'warped image'])

P('P03', 'Every sensor model answers scalars, arrays and projections consistently',
  'For every sensor model the answer for a point does not depend on whether it is passed alone, in a 1-d or 2-d array or among other points, on the order of the points, or on earlier calls on the same '
  'model; results keep the shape of the input and input arrays are not changed. '
  'A position given in another projection gets the same pixel as that position in the native projection. '
  'A model with one camera per band uses exactly the camera of the requested band.',
  ['inputs', 'histories'], 'all sensor models x call forms x world projections x altitude forms; all call histories of length 3; all band orders with edits',
  'Tests call each model with one or two fixed arrays in one form and never repeat or interleave calls.',
  [PC + 'abstract_earth_overhead_point_calc.py', PC + 'earth_overhead_sensor_model.py', PC + 'rpc_point_calc.py', PC + 'pinhole_camera.py', PC + 'opencv_point_calc.py',
   PC + 'pix4d_point_calc.py', PC + 'igm_point_calc.py', PC + 'geotiff_point_calc.py', PC + 'ideal_pinhole_fpa_local_utm_point_calc.py'],
  [('lon_lat_alt_to_pixel_x_y', PC + 'abstract_earth_overhead_point_calc.py'), ('per-band dispatch', PC + 'earth_overhead_sensor_model.py')],
  'Exhaustive over models, forms and call histories; each model is compared with an independent pure-python camera equation.', ['pixel coordinates'])

P('P04', 'Pixel to ground is the inverse of ground to pixel',
  'For every sensor model, projecting a ground point to a pixel and back at the same altitude returns the ground point within the requested pixel accuracy, for scalar and array calls, any world projection, any camera heading '
  '(including multiples of 90 degrees) and wherever the approximate image centre lies.',
  ['inputs', 'configurations'], 'models x call forms x projections x altitudes x accuracy thresholds; cameras over a grid of attitudes, flips, start positions',
  'Tests invert one camera at one attitude; the failing headings and start positions are isolated points a sample misses.',
  [PC + 'abstract_earth_overhead_point_calc.py', PC + 'igm_point_calc.py', PC + 'geotiff_point_calc.py'],
  [('pixel_x_y_alt_to_lon_lat and its iteration', PC + 'abstract_earth_overhead_point_calc.py')],
  'Exhaustive over the listed configurations; accuracy is required in pixels at the threshold given by the caller plus rounding.', ['returned ground coordinates', 'pixel residual'])

P('P05', 'Rotation matrices and omega-phi-kappa angles are consistent',
  'The rotation matrix of omega, phi, kappa is the product of the three single-axis rotations in the documented order, is orthonormal with determinant one, and the angles recovered from a matrix rebuild that matrix in every quadrant, '
  'for matrices with rounding errors too. Boresight corrections compose as matrix products.',
  ['inputs'], 'all triples of a 15 value angle grid (quadrants, boundaries, values one rounding error away)',
  'Tests use one small-angle triple, so quadrant and boundary cases are never reached.',
  [R + 'utils/photogrammetry_utils.py'], [('create_M_matrix, solve_for_omega_phi_kappa', R + 'utils/photogrammetry_utils.py')],
  'Exhaustive over the angle grid against independently multiplied axis rotations.', ['matrix', 'angles'])

P('P06', 'Frame cameras project ground points by the collinearity equations',
  'A pinhole or focal-plane camera maps a ground point to the pixel given by the collinearity equations for its position, attitude, focal length, pixel pitch, detector size and axis flips, in every supported unit; '
  'a camera placed by longitude and latitude uses the local UTM zone; field-of-view values follow from detector size and focal length.',
  ['inputs', 'configurations'], 'positions, attitudes, units, detectors and flips, up to 3 departures from the default at a time; 8 sites on the globe',
  'Tests check one camera at nadir with default flips and one site.',
  [PC + 'pinhole_camera.py', PC + 'ideal_pinhole_fpa_local_utm_point_calc.py', R + 'utils/proj_utils.py'],
  [('pinhole projection', PC + 'pinhole_camera.py'), ('focal plane to pixel', PC + 'ideal_pinhole_fpa_local_utm_point_calc.py')],
  'Exhaustive up to 3 (thorough 4) departures; pure-python collinearity reference and pyproj.', ['pixel coordinates', 'fov values'])

P('P07', 'A camera in a fixture gets the composed position and attitude',
  'The camera position is the fixture position plus the fixture rotation applied to the camera offset, and the camera attitude is the boresight composed with the fixture attitude, after any sequence of setting positions, offsets, orientations and '
  'boresights in any units and rotation order; the last setting wins and two fixtures never influence each other.',
  ['histories', 'inputs'], 'all histories of 3 settings (4 thorough) from a menu of 12; all rotation orders on an attitude grid',
  'Tests set a fixture up once in one order of calls.',
  [PC + 'fixtured_camera.py', R + 'utils/photogrammetry_utils.py'], [('FixturedCamera', PC + 'fixtured_camera.py')],
  'Exhaustive over configuration histories; a dictionary model recomputes position and attitude.', ['camera position, rotation matrix, angles'])

P('P08', 'The RPC model evaluates the RPC00B rational polynomials',
  'Given RPC metadata in any supported form, the pixel of (longitude, latitude, height) is the ratio of the RPC00B cubic polynomials in the normalised coordinates, each of the 80 coefficients multiplying exactly its own term, '
  'scaled and offset as the metadata says, and the inverse finds the ground point again.',
  ['inputs'], 'each coefficient isolated; 4 dense sets x offsets and scales; GDAL metadata forms',
  'Tests compare one image at a handful of points with loose tolerance, where most cubic terms are negligible.',
  [PC + 'rpc_point_calc.py', R + 'image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image_factory.py',
   R + 'image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_point_calc.py'],
  [('RPC00B polynomial', PC + 'rpc_point_calc.py')],
  'Exhaustive over the 80 coefficients; oracle is a pure-python RPC00B and the GDAL RPC transformer.', ['pixel coordinates'])

P('P09', 'Distorting cameras apply their published distortion model',
  'Pix4D and OpenCV cameras map ground points to pixels by their published camera model, with each interior, exterior, distortion and offset parameter entering exactly where the model says and with the model chosen '
  '(with or without distortion, axis reversal as configured).',
  ['inputs', 'configurations'], 'each parameter varied on its own and in combinations of up to 2 (3 thorough)',
  'Tests use parameter sets in which high-order terms vanish or only one camera.',
  [PC + 'pix4d_point_calc.py', PC + 'opencv_point_calc.py'], [('distortion polynomials', PC + 'pix4d_point_calc.py'), ('Brown model', PC + 'opencv_point_calc.py')],
  'Exhaustive up to 2 (3) departures against pure-python camera equations.', ['pixel coordinates'])

P('P10', 'Pix4D project files load every parameter of every image',
  'Loading a Pix4D project gives, for every image listed, exactly the interior parameters of its camera, its own exterior orientation and the project offset, independent of line endings, blank lines, missing final newline and the order and number '
  'of images and cameras.',
  ['inputs'], 'projects with 1-4 images, 1-3 cameras, all line ending and file tail variants',
  'Tests need a project on disk that the repository does not ship, so no parsing is tested.',
  [R + 'utils/pix4d_utils.py', PC + 'pix4d_point_calc.py'], [('load_params / make_master_dict', R + 'utils/pix4d_utils.py')],
  'Exhaustive over the listed project shapes, files generated by the check.', ['parameter dictionaries', 'cameras built from them'])

DEM = R + 'photogrammetry/dem/'
P('P11', 'A DEM returns the interpolated elevation of its posts at any position',
  'The elevation of a GeoTIFF DEM at a world position is the bilinear interpolation of the four surrounding posts (posts at whole pixel coordinates of the geotransform), or the post of the containing cell for nearest-neighbour lookup; '
  'positions outside get the nearest edge, positions touching no-data posts are NaN, the result has the shape of the input, in any world projection, data type and grid orientation. '
  'Lowest, mean and highest elevation are those of the valid posts; no-data and interpolation settings count in whatever order they are made, and an unknown method is refused.',
  ['inputs', 'histories'], '5 sizes (incl. one row/column) x 5 data types x 4 grids x methods x projections x no-data; quarter-post lattice past every edge; all histories of settings',
  'Tests look up one elevation in one file; edges, no-data neighbours, orientation and one-post axes are not sampled.',
  [DEM + 'geotiff_dem.py', DEM + 'abstract_dem.py', DEM + 'constant_elevation_dem.py', DEM + 'dem_factory.py'],
  [('GeotiffDem bilinear / nearest lookup', DEM + 'geotiff_dem.py'), ('get_elevations', DEM + 'abstract_dem.py')],
  'Exhaustive up to 3 (4) departures from the default; pure-python interpolation is the oracle.', ['elevations'])

P('P12', 'A pixel ray meets the terrain at its first intersection',
  'The ground position of a pixel over a DEM lies on the ray of the pixel and on the terrain surface, and is the first crossing seen from the camera (not a crossing behind a ridge), within the DEM sample distance, which is in metres for sensor '
  'models in metres and in degrees alike. The answer keeps the form and shape of the input, holds for flat terrain and vertical rays and for any world projection.',
  ['inputs', 'configurations'], '7 terrains x camera attitudes x sample distances x call forms x projections',
  'No baseline test casts rays on non-flat terrain; first-crossing needs a ridge in the sight line.',
  [PC + 'abstract_earth_overhead_point_calc.py', R + 'photogrammetry/dem/abstract_dem.py'],
  [('pixel_x_y_to_lon_lat_alt and ray casting', PC + 'abstract_earth_overhead_point_calc.py')],
  'Exhaustive over the configurations; a fine ray march is the oracle.', ['ground coordinates'])

ORT = R + 'photogrammetry/ortho_tools.py'
P('P13', 'Every ortho pixel shows the image at the ground position of that pixel',
  'Each pixel of an orthorectified image holds the image value at the pixel where the sensor model sees the ground position and elevation of the ortho pixel (nearest or interpolated as asked), in the requested bands and band order, '
  'or the no-data value where the image does not see it, the DEM has no elevation or a mask hides it. Geotransform and projection of the result are those of the grid the pixels were sampled on, '
  'also for full orthos, in degrees and other output projections, and for cameras whose bands have different sensor models.',
  ['inputs', 'configurations'], '6 sensor models x DEMs x polygons x projections x sizes x bands x interpolation x data types, up to 2 departures (3 thorough)',
  'Tests make one ortho and check that it runs; content is not compared.',
  [ORT],
  [('create_ortho_gtiff_image_world_to_sensor, get_pixel_values', ORT)],
  'Exhaustive up to 2 (3) departures; each ortho pixel is recomputed independently (pixels within one pixel of the border are free).', ['ortho pixels', 'geotransform', 'projection'])

P('P14', 'Ground grids, extents and reprojected shapes cover exactly what was asked',
  'A ground grid over an extent has exactly the requested number of pixels, spans the extent, and agrees with its geotransform; pixel counts follow from extent and resolution; shifts move a shape by metres or degrees as asked; '
  'projections made from WKT text give the positions that text describes; '
  'reprojecting any shapely geometry moves each vertex (holes and parts included) by the projection transform; UTM zones are those of the position; '
  'the world extent of an image contains the ground position of every pixel of the image and no more than its outline.',
  ['inputs', 'configurations'], 'extents x grid sizes; all geometry types x projections; zones over the globe; 6 sensor models x terrain x elevations',
  'Tests use single square polygons; one-pixel grids, holes, rotated images and off-origin degrees are not sampled.',
  [ORT, R + 'utils/proj_utils.py', R + 'utils/geom_utils.py', R + 'utils/image_utils/image_utils.py'],
  [('create_ground_grid, get_extent', ORT), ('reproject_geometry, get_utm_zone', R + 'utils/proj_utils.py')],
  'Exhaustive over listed shapes; pyproj and shapely are the oracles.', ['grids', 'geotransforms', 'polygons'])

P('P15', 'Occlusion marks exactly the ground that terrain hides from the camera',
  'A ground position is marked as occluded exactly when terrain lies above the straight line from it to the camera at some sampled distance, whatever the direction to the camera, the ground resolution, the projection or the sensor model.',
  ['inputs', 'configurations'], 'flat, tilted, hill and a wall in 8 directions x cameras x resolutions x projections',
  'No test covers occlusion.',
  [ORT], [('obstruction / occlusion search', ORT)],
  'Exhaustive over terrain, wall direction and camera; a fine line-of-sight march is the oracle; positions grazing an edge are not judged.', ['occlusion mask'])

SP = R + 'spectral/'
P('P16', 'Images with stored ground positions relate pixels to those positions',
  'An image with a ground position per pixel answers for each pixel exactly the stored position (in the asked projection), for a ground position the pixel there, whatever the orientation of the grid, units, data layout, input shape, numeric type of the pixels (whole numbers) or form of the altitudes. '
  'Creating such an image from a sensor model and a terrain stores for each pixel a position which the sensor model sees at that pixel and which lies on the terrain, with the pixels of the source image (loaded or not). '
  'An ortho of it shows on each ground position the pixel found for it.',
  ['inputs', 'configurations'], '6 grids x 6 sizes x places x altitudes x layouts x forms; 3 cameras x 5 terrains; both interpolations',
  'No test creates or reads an image with stored positions.',
  [PC + 'igm_point_calc.py', R + 'image_objects/earth_overhead/igm/igm_image.py', ORT],
  [('IGMPointCalc', PC + 'igm_point_calc.py'), ('create_igm_image', ORT)],
  'Exhaustive up to 3 (4) departures; closed-form grids and camera equations are the oracle. Grids below six pixels are not claimed.', ['pixel and ground coordinates', 'ortho pixels'])

P('P17', 'Chips are exact windows that together cover the image',
  'Each chip holds exactly the pixels of its window in the requested bands, with the data type of the image and memory of its own, and its reported upper left is the one of the window. '
  'Chipping a whole image yields windows in row order which are inside of the image, overlap as asked, and leave no pixel out. Chips at given corners or centres are as close to them as the image allows. '
  'Chip files hold the chips in order under the names asked for.',
  ['inputs', 'configurations'], 'image sizes x chip sizes x overlaps x image kinds x band selections x data types x containers x file formats',
  'Existing tests chip one image with one size and check counts.',
  [R + 'utils/image_utils/image_chipper.py'], [('image_chipper', R + 'utils/image_utils/image_chipper.py')],
  'Exhaustive over the listed configurations; chips larger than the image are not claimed; imageio is trusted to read files.', ['chips', 'upper lefts', 'chip files'])

P('P18', 'ENVI rasters and headers are read and written exactly',
  'A raster written in ENVI format reads back as the same array, in this library and in other software, for every data type, interleave and shape; rasters of other software are read exactly, with their byte order, header offset, interleave and data type. A file whose data ends too soon is refused, and what follows the raster in a file is never taken for its pixels. '
  'Header entries are read whatever the spacing, line endings, order, values in braces or with equal signs and end of file, and reading, writing and reading a header again any number of times keeps all entries.',
  ['inputs', 'histories'], '11 data types x 3 interleaves x shapes x layouts x names; foreign files in 2 byte orders, offsets, header styles; histories of header rewrites',
  'Existing tests write and read one bil float image.',
  [R + 'utils/envi_utils.py', R + 'image_objects/envi/envi_image.py', R + 'image_objects/envi/envi_metadata.py'],
  [('read/write_envi_image, headers', R + 'utils/envi_utils.py'), ('EnviImage', R + 'image_objects/envi/envi_image.py')],
  'Exhaustive up to 3 (4) departures; raw byte sequences and GDAL are the oracles.', ['raster files', 'headers', 'arrays read'])

P('P19', 'Spectral means, covariances and flattening are exact and respect masks',
  'Mean and covariance of an image are those of the unmasked pixels, whatever values masked pixels hold, for the image and for its flattened form alike, in any data type, memory layout and mask type; a demeaned image is the image minus that mean. '
  'Flattened sample y * nx + x is pixel (y, x), and unflattening restores the image. Inputs are not changed.',
  ['inputs', 'configurations'], 'shapes x all masks of small images and named masks of larger ones x data types x mask types x layouts x values of masked pixels',
  'Existing tests compare one masked mean and run the rest on a single image.',
  [SP + 'spectral_image_processing_1d.py', SP + 'spectral_image_processing_2d.py', R + 'utils/spectral_utils.py', R + 'utils/image_utils/image_utils.py'],
  [('mean, covariance, demean', SP + 'spectral_image_processing_1d.py'), ('flatten / unflatten', R + 'utils/spectral_utils.py')],
  'Exhaustive up to 3 (4) departures and over all masks of six pixels; plain python sums are the oracle.', ['statistics', 'arrays'])

P('P20', 'Spectral detectors give each pixel the score of the published formula',
  'RX, ACE and spectral angle scores of each pixel equal the published formulas computed from the spectrum of that pixel, the target and the statistics given or, if not given, those of the unmasked pixels of the image; '
  'image and flattened forms agree, and the score follows the pixel when pixels are reordered. Targets, images and statistics of the caller are not changed.',
  ['inputs', 'configurations'], 'shapes x data types x targets x masks x combinations of given statistics x layouts x pixel orders',
  'Tests check only the location of a maximum in one image.',
  [SP + 'spectral_image_processing_1d.py', SP + 'spectral_image_processing_2d.py'],
  [('rx_anomaly_detector, ace, sam', SP + 'spectral_image_processing_1d.py')],
  'Exhaustive over the listed configurations; per-pixel python formulas are the oracle.', ['score images'])

P('P21', 'Covariance equalization and principal components meet their definitions',
  'The covariance equalization transform of two scenes is cov2^(1/2) cov1^(-1/2) with the covariances of the unmasked pixels, and the equalized scene has the covariance of the other one; '
  'principal components are the projections of the demeaned image on the eigenvectors of its covariance in descending order, of unit variance if whitened. Scenes may differ in size; image and flattened forms agree; inputs are not changed.',
  ['inputs', 'configurations'], 'shapes x sizes of the second scene x masks of both x data types x layouts x correlation x number of components',
  'Tests use one pair of scenes without masks.',
  [SP + 'spectral_image_processing_1d.py', SP + 'spectral_image_processing_2d.py'],
  [('compute_cov_eq_linear_transform_matrix, compute_image_cube_pca', SP + 'spectral_image_processing_1d.py')],
  'Exhaustive up to 2 (3) departures; an independent eigenvector decomposition is the oracle.', ['transform matrices', 'images'])

SF = SP + 'spectrum_factories/'
NV = R + 'photogrammetry/nav/'
P('P22', 'Spectral libraries are read completely, whatever the layout of the text',
  'Spectra read from ENVI ascii plots, SVC .sig files, delimited tables and USGS splib07 folders have every wavelength and value of the file, in order, in the stated columns and units, '
  'with missing values marked as no data, whatever the number of header lines, separators, line endings, blank or missing last lines, case of names or the folder the files lie in.',
  ['inputs', 'configurations'], '4 formats x numbers of samples x number formats x header styles x separators x line endings x tails x paths x units',
  'Existing tests read one sample file per format.',
  [SF + 'spectrum_factory.py', SF + 'envi', SF + 'SVC', SF + 'csv', SF + 'usgs'],
  [('SpectrumFactory', SF + 'spectrum_factory.py')],
  'Exhaustive up to 2 (3) departures per format; the files are generated from known values.', ['wavelengths and values of spectra'])

P('P23', 'Spectra return what was set, and resampling is a response weighted mean',
  'A spectrum returns the wavelengths, widths and values which were set, with no-data values as NaN on a copy of the data (the stored values stay), with units if asked for. '
  'A spectrum resampled to sensor responses has for each band the response weighted mean of the spectrum over the samples, in the order of the bands, whatever the sampling of the spectrum and units of wavelengths; inputs are not changed.',
  ['inputs', 'histories'], '5 data types x 6 no-data values x patterns of missing values x orders of calls; samplings x responses x units x layouts',
  'Existing tests only check that resampling runs.',
  [SP + 'spectrum.py', R + 'utils/spectral_utils.py', R + 'utils/units'], [('Spectrum', SP + 'spectrum.py'), ('resample_spectrum_direct', R + 'utils/spectral_utils.py')],
  'Exhaustive; trapezoid sums in plain python are the oracle. Units given as text and responses which no sample sees are not claimed.', ['spectra', 'resampled values'])

P('P24', 'UTC and GPS times convert exactly around every leap second and time zone',
  'Converting a UTC time to GPS time counts exactly the leap seconds inserted up to that time and converting back returns the same time, for whole and fractional times, for every time from the GPS epoch on, '
  'whatever the time zone of the computer; the GPS week and second of week belong together at week boundaries.',
  ['inputs', 'configurations'], 'all leap seconds x offsets x 8 time zones; every fifth day 1980-2040; 3000 week boundaries',
  'Tests run in one time zone and convert one time.',
  [R + 'utils/time_utils.py'], [('utc / gps conversions', R + 'utils/time_utils.py')],
  'Exhaustive over the table of leap seconds (written out in the check); times inside of an inserted second are not claimed.', ['converted times'])

P('P25', 'Navigation records are interpolated exactly, and angles the shorter way round',
  'Position, altitude, velocity and attitude at a time between two navigation records are the linear interpolation of these two records, angles and longitudes taken the shorter way round; at a record they are that record; outside of the records there is no answer. '
  'Records of EO text files and SBET files are all read and in their units, whatever header, comment or blank lines stand around them; loading another file replaces the records.',
  ['inputs', 'histories'], '2 formats x numbers of records x tracks x call forms x query times; header and line styles; histories of 4 loads',
  'Existing tests only check one record.',
  [NV + 'abstract_nav.py', NV + 'applanix_eo_nav.py', NV + 'applanix_sbet_nav.py', NV + 'nav_factory.py'],
  [('interpolation', NV + 'abstract_nav.py'), ('readers', NV + 'nav_factory.py')],
  'Exhaustive up to 2 (3) departures; interpolation in plain python is the oracle; the PDAL binding is replaced by a reader of the SBET record layout.', ['interpolated records'])

P('P26', 'Display helpers map values to colours, stretches and grids exactly',
  'A colour map gives each pixel the colour of its value between the lowest and highest value (or the limits given), in equal steps or continuously, with no-data pixels in the no-data colour; '
  'a stretched image spans exactly the asked range and keeps the order of values; blended, resized and gridded images have the pixels stated by weights and positions; '
  'a detection image shows at each position the highest score of the chips covering it. Inputs are not changed.',
  ['inputs', 'configurations'], 'image kinds x 7 data types x shapes x palettes x modes x bins x limits x no-data; all grids up to 12 x 12; chips x overlaps',
  'Tests do not check a single output pixel.',
  [R + 'utils/image_utils/image_utils.py'], [('apply_colormap_to_grayscale_image and others', R + 'utils/image_utils/image_utils.py')],
  'Exhaustive up to 2 (3) departures; plain python per pixel is the oracle. Images with NaN pixels are not claimed.', ['pixels'])

P('P27', 'Mutual information and point masks follow their definitions',
  'The mutual information of two images is that of their joint histogram with the asked number of bins, symmetric, never negative, at most the entropy of either image, and highest at the true offset of a chip. '
  'A mask image gives for each colour the positions of exactly the pixels which have that colour.',
  ['inputs', 'configurations'], 'pairs of image kinds x data types x shapes x bins x layouts; all masks of four pixels in four colours',
  'One test compares a single pair.',
  [R + 'utils/image_utils/image_registration.py', R + 'utils/image_utils/image_mask_utils.py'],
  [('MMI.image_mmi', R + 'utils/image_utils/image_registration.py'), ('rgb_image_point_mask_to_pixel_locations', R + 'utils/image_utils/image_mask_utils.py')],
  'Exhaustive up to 2 (3) departures and over all small masks; plain python counts are the oracle.', ['mutual information', 'positions'])

P('P28', 'File, text and table helpers list, write and read exactly what is there',
  'Listings of a folder hold exactly the files of the asked extensions and beginnings, once, sorted, whatever the name of the folder; folders are made with all parents and not emptied; a list of lines or a table written to a file reads back the same; '
  'line endings and names are converted completely; list and array helpers keep order and inputs.',
  ['inputs', 'histories'], 'folders x 13 extensions x 11 beginnings; all texts of up to 6 pieces; all lists of up to 3 lines; tables x cell kinds x delimiters',
  'No test covers them.',
  [R + 'utils/file_utils.py', R + 'utils/string_utils.py', R + 'utils/csv_utils.py', R + 'utils/numpy_and_array_utils.py'],
  [('get_all_files_in_directory and others', R + 'utils/file_utils.py')],
  'Exhaustive over the alphabet; plain python on known folder contents is the oracle.', ['listings', 'file contents'])

MS = R + 'image_objects/earth_overhead/micasense/'
P('P29', 'MicaSense images pair each band with its own file, camera and exposure',
  'Pixels of a band are those of the file of that band, the camera of a band is the one given for that file or band number, whatever the order of file names and parameters, names and folders. '
  'Time and place of the exposure of a band are exactly those in the Exif entries of its file: UTC to GPS second of the week with all digits of the sub second, and degrees, minutes and seconds with fractions in any of them, in all four quadrants, whatever the time zone of the computer. '
  'An image built from an array reads back as that array.',
  ['inputs', 'configurations'], '8 x 8 positions x byte orders x times x sub seconds x zones; 2 camera kinds x 5 name styles x orders; arrays x 4 data types x layouts',
  'No test creates a MicaSense image.',
  [MS + 'micasense_image.py', MS + 'micasense_image_factory.py', MS + 'micasense_metadata.py'],
  [('MicasenseImage', MS + 'micasense_image.py'), ('factories', MS + 'micasense_image_factory.py')],
  'Exhaustive up to 2 (3) departures; files are written byte by byte and cameras are compared to plain python camera equations.', ['bands', 'pixel coordinates', 'time and centre'])

SIM = R + 'utils/physical_camera_simulator.py'
P('P30', 'A simulated camera image shows the geotiff where each ray meets the ground',
  'Each pixel of a simulated image has the (interpolated) value of the first band of the geotiff where the ray of that pixel, from the given position, attitude and boresight and with the given optics and units, meets the ground at altitude zero, and zero off the geotiff. '
  'The sensor model of the image maps that position back to the pixel. Position and attitude are in the world projection and units which were set, and simulating further images leaves earlier ones unchanged.',
  ['inputs', 'configurations'], '4 geotiff grids x cameras x contents x data types x projections x attitudes x boresights x optics x units',
  'No test simulates an image.',
  [SIM, PC + 'fixtured_camera.py', PC + 'ideal_pinhole_fpa_local_utm_point_calc.py'],
  [('PhysicalCameraSimulator', SIM)],
  'Exhaustive up to 2 (3) departures; the ray is intersected in closed form and scipy interpolates at that position. Two source pixels at the border are not judged.', ['pixels', 'pixel coordinates'])

P('P31', 'Image objects keep file, memory and metadata apart over any history',
  'For every kind of image object, reading a band or all bands from disk gives exactly the pixels of the file in order and data type, whatever has been loaded, set, edited or read before on this or another image; '
  'the data in memory is exactly what was set last, band by band; arrays read belong to the caller; metadata describes the file until it is changed, and no file is modified.',
  ['inputs', 'histories'], '5 image kinds x 7 data types x bands x shapes x formats; all histories of 2 (geotiff 3; thorough 3) operations out of 9 on two images',
  'Tests open an image and read it once.',
  [R + 'image_objects/abstract_image.py', R + 'image_objects/earth_overhead/abstract_earth_overhead_image.py', GT + 'geotiff_image.py',
   R + 'image_objects/earth_overhead/physical_camera/physical_camera_image.py', R + 'image_objects/earth_overhead/physical_camera/physical_camera_metadata.py',
   R + 'image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image.py', R + 'image_objects/envi/envi_image.py',
   R + 'image_objects/earth_overhead/igm/igm_image.py', MS + 'micasense_image.py'],
  [('AbstractImage', R + 'image_objects/abstract_image.py'), ('PhysicalCameraImage', R + 'image_objects/earth_overhead/physical_camera/physical_camera_image.py')],
  'A dictionary model is run alongside every history; a physical camera with pixels in memory may answer from memory.', ['arrays', 'metadata', 'files'])

P('P32', 'Changing the vertical reference of terrain shifts each height by the undulation',
  'Converting a terrain file to geoid, ellipsoid or orthometric heights gives at each post the height minus or plus the undulation which the geoid grid has at that position (bilinear), in the projection, grid, and shape of the source; '
  'no-data posts stay no-data, the source file and the grid are not changed, there and back gives the heights one started from, and what cannot be converted is an error, never a file left by an earlier conversion.',
  ['inputs', 'histories'], 'grid formats x 4 projections x 5 data types x shapes x post sizes x no-data; sequences of conversions to one destination',
  'No test converts heights.',
  [DEM + 'geotiff_dem.py', DEM + 'constant_elevation_dem.py'],
  [('convert_to_geoid_heights and others', DEM + 'geotiff_dem.py')],
  'Exhaustive up to 2 (3) departures; geoid grids are written by the check and interpolated in plain python. Spherical web mercator (PROJ applies no shift there) and rotated terrain are not judged.', ['heights', 'files', 'errors'])

P('P33', 'Scores of image chips belong to the chips they are listed for',
  'Scoring an image by chips gives each listed window once, in the order and at the overlap asked, with the scores the model gives for exactly the pixels of that window, normalized, resized and without alpha as asked; '
  'the score of a label is that of its column, for one or many chips and classes, whatever the batch, and the image is not changed.',
  ['inputs', 'configurations'], 'image shapes x bands x data types x chip sizes x overlaps x normalizations x number of classes',
  'No test scores an image: keras is not installed.',
  [R + 'image_recognition/neural_net_model_scoring/keras_image_scoring.py'],
  [('chip_and_score_image', R + 'image_recognition/neural_net_model_scoring/keras_image_scoring.py')],
  'Exhaustive up to 2 (3) departures; the model is a stand-in which scores by exact arithmetic on the chips it is given and records them.', ['chips', 'scores'])

P('P34', 'A file that cannot be written completely is an error, never a damaged file',
  'Whenever writing a GeoTIFF, a warp, ortho or height conversion into a file, an ENVI raster, image chips or a text list returns normally, the files on disk are complete and read back as what was written, '
  'whether files of that name were there before or not. If the disk is full at any byte, or the destination can not be made, the call raises, the image in memory stays what it was, and the same call '
  'writes the complete file once there is space again. A GeoTIFF cut short at any byte, read as image or DEM, is refused or gives the right values, never other ones.',
  ['crash_points', 'inputs'], 'disk full at each of the first and last bytes, page boundaries and evenly in between, of files of every writer, type, size, compression, source and file before; all cut points of GeoTIFFs',
  'Tests write to disks with space; a full disk is never met, and the point where it fills up decides whether the error is noticed.',
  [GT + 'geotiff_image.py', R + 'utils/envi_utils.py', R + 'utils/image_utils/image_chipper.py', R + 'utils/file_utils.py', R + 'photogrammetry/ortho_tools.py', R + 'photogrammetry/dem/geotiff_dem.py'],
  [('write_to_disk, gdalwarp_geotiff_image', GT + 'geotiff_image.py'), ('write_envi_image', R + 'utils/envi_utils.py'), ('write_chips_to_disk', R + 'utils/image_utils/image_chipper.py')],
  'Exhaustive over the listed fault points: the writing call runs in a process of its own whose files can not grow beyond k bytes (the kernel injects the fault), the parent reads the result.',
  ['exceptions', 'files on disk'])

P('P35', 'Calls leave their arguments, the process and later calls as they were',
  'Calling any public function or reader of the library does not change the arrays, lists, dictionaries, objects and files it is given, the arrays it gives belong to the caller, and it leaves the process '
  '(working directory, environment, time zone, locale, random state, warning and floating point settings, GDAL settings, open files) as it was. Its answer depends on its arguments alone: it is '
  'the same when called again and after any other call of the library, in whatever order, and for read-only or strided arrays of the same values.',
  ['histories', 'inputs'], 'about 160 operations x 3 sets of arguments; repeated, in each array form, and after each other operation on the same objects; thorough: all pairs of operations and arguments',
  'Tests make each call once in a fresh fixture; state that leaks from one call into the next needs a pair of calls.',
  [R + 'utils', R + 'photogrammetry', R + 'spectral', R + 'image_objects'],
  [('public functions', R + 'utils'), ('sensor models', R + 'image_objects/earth_overhead')],
  'Exhaustive over the catalogue and pairs; the oracle of each call is the same call in a process forked before any other one.', ['answers', 'arguments', 'process state', 'files'])

P('P36', 'A file which ends too soon is refused or gives only what is completely there',
  'Every kind of file the library reads (ENVI rasters and headers, Pix4D projects, spectral libraries, navigation tables, distance, csv and word lists, RPC files, MicaSense bands, camera and stereo images) may end at any byte: '
  'reading it then raises an error or gives no data, or else gives exactly what is completely there, as from the whole file. Missing pixels are never filled in, bytes are never shared out over other pixels, '
  'and a record of which only a part is left is refused or left out; the whole file is always read.',
  ['crash_points', 'inputs'], 'every byte of every file at which it may end (text tables: every byte not within a number or word), for the shapes, interleaves, types, header styles and layouts listed',
  'Tests read whole files; a copy, transfer or recording which was interrupted ends at a byte nobody chose.',
  [R + 'utils/envi_utils.py', R + 'image_objects/envi/envi_image.py', R + 'utils/pix4d_utils.py', R + 'spectral', R + 'utils/file_utils.py', R + 'utils/spectral_utils.py', R + 'image_objects'],
  [('read_all_image_data_from_disk, read_band_from_disk', R + 'image_objects/envi/envi_image.py'), ('read_envi_image, read_envi_header', R + 'utils/envi_utils.py'), ('Pix4D readers', R + 'utils/pix4d_utils.py')],
  'Exhaustive over the cut points: the real readers are run on the real file cut there, in front of the answer for the whole file.', ['arrays and dictionaries given', 'exceptions'])
