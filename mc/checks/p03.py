"""one calling convention for every sensor model"""
import numpy as np
from pyproj import Proj, Transformer

from mc import zoo
from mc.core import Check
from mc.util import layout
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import \
    EarthOverheadSensorModel
from resippy.photogrammetry import crs_defs

CHECK = Check('P03', 'point calculator interface', [
    'one representative parameter set per sensor model (parameter alphabets are explored by the model specific checks)',
    'projections UTM 18N, EPSG:4326, EPSG:3857 and four without EPSG code; up to 12 points per call'])

SHAPES = {'1d': (12,), '2d': (3, 4), 'row': (1, 12), 'col': (12, 1), '1d1': (1,), '2d11': (1, 1)}


def world_of(kind, m):
    return {'none': None, 'same': m.proj, '4326': crs_defs.PROJ_4326, '3857': crs_defs.PROJ_3857}[kind]


def run_call(c, m, form, world, altk, order, tag=''):
    pts = m.pts if order == 'fwd' else m.pts[::-1]
    if altk != 'array':
        z = {'scalar': 7.25 if m.name != 'rpc' else 180.0, 'none': 0, 'int': 9}[altk]
        pts = [(a, b, z) for a, b, _ in pts]
    wx, wy = m.refs(pts)
    lon = np.array([v[0] for v in pts])
    lat = np.array([v[1] for v in pts])
    alt = np.array([v[2] for v in pts], dtype=float)
    wp = world_of(world, m)
    if world in ('4326', '3857'):
        lon, lat = Transformer.from_proj(m.proj, wp, always_xy=True).transform(lon, lat)
    kw = {} if m.band is None else {'band': m.band}
    if wp is not None:
        kw['world_proj'] = wp
    al_number = {'scalar': 7.25 if m.name != 'rpc' else 180.0, 'none': None, 'int': 9}.get(altk)
    tol = max(m.tol, 1e-4 if world in ('4326', '3857') else 0)
    if form in ('float', 'npfloat'):
        cast = float if form == 'float' else np.float64
        for k in range(0, len(pts), 2):
            a = cast(alt[k]) if altk == 'array' else al_number
            r = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, cast(lon[k]), cast(lat[k]), a, **kw)
            c.require(np.ndim(r[0]) == 0 and np.ndim(r[1]) == 0, '%s%s: scalar in, %s out', tag, m.name, np.shape(r[0]))
            c.same([r[0], r[1]], [wx[k], wy[k]], '%s%s: pixel of point %d' % (tag, m.name, k), atol=tol)
        return
    sh = SHAPES[form]
    n = int(np.prod(sh))
    lo, la, al = [v[:n].reshape(sh).copy() for v in (lon, lat, alt)]
    keep = [v.copy() for v in (lo, la, al)]
    r = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, lo, la, al if altk == 'array' else al_number, **kw)
    c.require(len(r) == 2, '%s%s: result is not an x, y pair', tag, m.name)
    c.same(r[0], wx[:n].reshape(sh), '%s%s: pixel x' % (tag, m.name), atol=tol)
    c.same(r[1], wy[:n].reshape(sh), '%s%s: pixel y' % (tag, m.name), atol=tol)
    for v, k in zip((lo, la, al), keep):
        c.same(v, k, '%s%s: caller array changed' % (tag, m.name))


@CHECK.scenario(bound=(9, 9))
def forms(c):
    """scalar, 1-d, 2-d and list calls of every model in every projection against the scalar reference camera"""
    m = zoo.build(c.choose('model', zoo.NAMES))
    form = c.choose('form', ['float', 'npfloat'] + list(SHAPES))
    world = c.choose('world', ['none', 'same', '4326', '3857'])
    alt = c.choose('alts', ['array', 'scalar', 'none', 'int'])
    order = c.choose('order', ['fwd', 'rev'])
    run_call(c, m, form, world, alt, order)


@CHECK.scenario(bound=(2, 3))
def memory(c):
    """the memory layout of the caller arrays does not matter"""
    m = zoo.build(c.choose('model', zoo.NAMES))
    lays = ['C', 'F', 'strided', 'reversed']
    ks = [c.vary(n, lays) for n in ('lon layout', 'lat layout', 'alt layout')]
    world = c.vary('world', ['none', '4326'])
    lon, lat, alt = [np.array([v[k] for v in m.pts], dtype=float) for k in range(3)]
    wx, wy = m.refs(m.pts)
    kw = {} if m.band is None else {'band': m.band}
    if world == '4326':
        kw['world_proj'] = crs_defs.PROJ_4326
        lon, lat = Transformer.from_proj(m.proj, crs_defs.PROJ_4326, always_xy=True).transform(lon, lat)
    lo, la, al = [layout(np.asarray(v).reshape(3, 4), k) for v, k in zip((lon, lat, alt), ks)]
    keep = [np.array(v) for v in (lo, la, al)]
    x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, lo, la, al, **kw)
    tol = max(m.tol, 1e-4 if world == '4326' else 0)
    c.same(x, wx.reshape(3, 4), m.name + ': pixel x', atol=tol)
    c.same(y, wy.reshape(3, 4), m.name + ': pixel y', atol=tol)
    for v, k in zip((lo, la, al), keep):
        c.same(v, k, m.name + ': caller array changed')


@CHECK.scenario(bound=(9, 9))
def number_types(c):
    """whole coordinates given as integers are the same place as those given as floats"""
    m = zoo.build(c.choose('model', [n for n in zoo.NAMES if n != 'rpc']))
    form = c.choose('form', ['1d', '2d', 'scalar', 'int32', 'float32 alt', 'int alt array', 'one int', 'lon int lat float', 'float32', 'float32 all'])
    altk = c.choose('alts', [7.75, 9, None, 'array'])
    pts = [(float(int(a)), float(int(b)), {'array': round(z) + 0.5, None: 0.0}.get(altk, altk)) for a, b, z in m.pts]
    kw = {} if m.band is None else {'band': m.band}
    wx, wy = m.refs(pts)
    lon, lat, alt = [np.array([p[k] for p in pts]) for k in range(3)]
    if form == 'int alt array':
        alt = np.floor(alt)
        wx, wy = m.refs(list(zip(lon, lat, alt)))
        a = alt.astype(int)
    elif form == 'float32 alt':
        a = alt.astype('float32')
    else:
        a = alt if altk == 'array' else altk
    if form == 'scalar':
        for k in range(0, 12, 4):
            x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, int(lon[k]), int(lat[k]), float(alt[k]) if altk == 'array' else altk, **kw)
            c.same([x, y], [wx[k], wy[k]], m.name + ': pixel of an integer position', atol=m.tol * 10)
        return
    dt = {'int32': 'int32', 'float32': 'float32', 'float32 all': 'float32'}.get(form, 'int64')
    if form == 'float32 all' and isinstance(a, np.ndarray):
        a = a.astype('float32')
    lo, la = lon.astype(dt), lat.astype(dt)
    if form == 'lon int lat float':
        la = lat
    if form == 'one int':
        lo, la, wx, wy = lo[:1], la[:1], wx[:1], wy[:1]
        a = a[:1] if isinstance(a, np.ndarray) else a
    if form == '2d':
        lo, la, wx, wy = [v.reshape(4, 3) for v in (lo, la, wx, wy)]
        a = a.reshape(4, 3) if isinstance(a, np.ndarray) else a
    x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, lo, la, a, **kw)
    c.same(x, wx, m.name + ': pixel x of integer positions', atol=m.tol * 10)
    c.same(y, wy, m.name + ': pixel y of integer positions', atol=m.tol * 10)


@CHECK.scenario(bound=(9, 9))
def call_histories(c):
    """answers do not depend on earlier calls on the same model (lazily built state, cached projections)"""
    m = zoo.build(c.choose('model', zoo.NAMES))
    menu = [('1d', 'none', 'array', 'fwd'), ('2d', '4326', 'scalar', 'fwd'), ('float', 'none', 'array', 'rev'),
            ('row', '3857', 'array', 'rev')]
    for i in range(3):
        run_call(c, m, *c.choose('call%d' % i, menu), tag='call %d ' % i)


@CHECK.scenario(bound=(9, 9))
def band_dispatch(c):
    """a multi-camera model answers each band with that band's camera, in any order of bands and edits"""
    m = zoo.build('model0')
    subs = ['pinhole', 'opencv', 'pix4d']
    cur = list(subs)
    refs = {k: zoo.build(k) for k in subs + ['pinhole_flip', 'pix4d_plain']}
    calc = m.calc
    c.require(calc.get_num_point_calcs() == 3, 'number of cameras')
    for i in range(4):
        op = c.choose('op%d' % i, ['b0', 'b1', 'b2', 'swap', 'update', 'add', 'inverse', 'same'])
        if op == 'swap' and len(cur) >= 2:
            ps = list(calc.get_point_calcs())
            calc.set_point_calcs([ps[1], ps[0]] + ps[2:])
            cur[0], cur[1] = cur[1], cur[0]
        elif op == 'update':
            calc.update_point_calc(1, refs['pinhole_flip'].calc)
            cur[1] = 'pinhole_flip'
        elif op == 'same':
            # one camera serving a second band as well
            calc.add_point_calc(calc.get_point_calc(1))
            cur.append(cur[1])
        elif op == 'add':
            calc.add_point_calc(refs['pix4d_plain'].calc)
            cur.append('pix4d_plain')
        elif op == 'inverse':
            b = len(cur) - 1
            ref = refs[cur[b]]
            pts = ref.pts[:4]
            x, y = ref.refs(pts)
            al = np.array([p[2] for p in pts])
            lo, la = c.op('inverse', calc.pixel_x_y_alt_to_lon_lat, x, y, al, band=b)
            c.same(lo, [p[0] for p in pts], 'inverse of band %d x' % b, atol=0.05)
            c.same(la, [p[1] for p in pts], 'inverse of band %d y' % b, atol=0.05)
        else:
            b = {'b0': 0, 'b1': 1, 'b2': len(cur) - 1}.get(op, 0)
            ref = refs[cur[b]]
            lo, la, al = [np.array([p[k] for p in ref.pts]) for k in range(3)]
            x, y = c.op('to pixel', calc.lon_lat_alt_to_pixel_x_y, lo, la, al, band=b)
            wx, wy = ref.refs(ref.pts)
            c.same(x, wx, 'band %d x' % b, atol=1e-5)
            c.same(y, wy, 'band %d y' % b, atol=1e-5)
            c.require(calc.get_point_calc(b) is calc.get_point_calcs()[b], 'camera accessors disagree')
        c.require(calc.get_num_point_calcs() == len(cur), 'number of cameras after %s', op)


@CHECK.scenario(bound=(9, 9))
def many_points(c):
    """calls with many points give each of them its own pixel"""
    m = zoo.build(c.choose('model', zoo.NAMES))
    sh = c.choose('shape', [(4099,), (70001,), (64, 65), (1025, 3), (2, 5003), (300, 257)])
    world = c.choose('world', ['none', '3857'])
    pts, wx, wy = zoo.many(m)
    n = int(np.prod(sh))
    lon, lat, alt = [np.array([p[k] for p in pts]) for k in range(3)]
    kw = {} if m.band is None else {'band': m.band}
    if world == '3857':
        kw['world_proj'] = crs_defs.PROJ_3857
        lon, lat = Transformer.from_proj(m.proj, crs_defs.PROJ_3857, always_xy=True).transform(lon, lat)
    lo, la, al, wx, wy = [np.resize(v, n).reshape(sh) for v in (lon, lat, alt, wx, wy)]
    keep = [v.copy() for v in (lo, la, al)]
    x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, lo, la, al, **kw)
    tol = max(m.tol, 1e-4 if world == '3857' else 0) * (10 if m.name == 'igm' else 1)
    c.same(x, wx, '%s: pixel x of many points' % m.name, atol=tol)
    c.same(y, wy, '%s: pixel y of many points' % m.name, atol=tol)
    for v, k in zip((lo, la, al), keep):
        c.same(v, k, '%s: caller array changed' % m.name)


# no EPSG code belongs to these; the numbers of the camera models are places in both native ones
CUSTOM = {
    'utm18n': '+proj=utm +zone=18 +datum=WGS84 +units=m +no_defs',
    'tmerc grs80': '+proj=tmerc +lat_0=0 +lon_0=-75.25 +k=0.9997 +x_0=500000 +y_0=1000 +ellps=GRS80 +units=m +no_defs',
    'tmerc other': '+proj=tmerc +lat_0=1.5 +lon_0=-74 +k=1 +x_0=300000 +y_0=-5000 +ellps=GRS80 +units=m +no_defs',
    'lcc': '+proj=lcc +lat_1=38 +lat_2=42 +lat_0=0.5 +lon_0=-76 +x_0=450000 +y_0=0 +ellps=GRS80 +units=m +no_defs',
    'lonlat': '+proj=longlat +datum=WGS84 +no_defs',
    'utm18n nad27': '+proj=utm +zone=18 +datum=NAD27 +units=m +no_defs',
    'utm18n feet': '+proj=utm +zone=18 +datum=WGS84 +units=us-ft +no_defs',
    'lcc shifted': '+proj=lcc +lat_1=38 +lat_2=42 +lat_0=0.5 +lon_0=-76 +x_0=450000 +y_0=250 +ellps=GRS80 +units=m +no_defs',
}


def custom(c):
    """a camera whose world is one of the projections above, and a world to talk to it in"""
    m = zoo.build(c.choose('model', ['geotiff', 'pinhole', 'opencv', 'pix4d', 'igm', 'model1']))
    native = c.choose('native', ['tmerc grs80', 'lcc', 'utm18n'])
    world = c.choose('world', list(CUSTOM))
    m.calc.set_projection(Proj(CUSTOM[native], preserve_units=True))
    lon, lat, alt = [np.array([p[k] for p in m.pts], dtype=float) for k in range(3)]
    there = Transformer.from_proj(Proj(CUSTOM[native]), Proj(CUSTOM[world]), always_xy=True)
    wlon, wlat = there.transform(lon, lat) if native != world else (lon, lat)
    back = (lambda a, b: (a, b)) if native == world else Transformer.from_proj(Proj(CUSTOM[world]), Proj(CUSTOM[native]), always_xy=True).transform
    kw = {} if m.band is None else {'band': m.band}
    kw['world_proj'] = Proj(CUSTOM[world], preserve_units=True)
    # a datum shift there and back is only good to some millimetres
    return m, wlon, wlat, alt, back, kw, 2e-2 if 'nad27' in world else 1e-4


@CHECK.scenario(bound=(9, 9))
def unknown_positions(c):
    """a position without a known coordinate does not touch the others, and is answered in company as it is alone"""
    m = zoo.build(c.choose('model', zoo.NAMES))
    what = c.choose('unknown', ['altitude', 'lon', 'lat', 'lon and lat', 'everything'])
    which = c.choose('where', ['first', 'last', 'every second', 'all'])
    sh = c.choose('shape', [(12,), (3, 4)])
    bad = float('nan')
    if m.name == 'igm' and what != 'altitude':
        return
    pts = np.array(m.pts[:12], dtype=float)
    at = {'first': [0], 'last': [11], 'every second': list(range(0, 12, 2)), 'all': list(range(12))}[which]
    for k, n in enumerate(('lon', 'lat', 'altitude')):
        if n in what or what == 'everything':
            pts[at, k] = bad
    kw = {} if m.band is None else {'band': m.band}
    with np.errstate(all='ignore'):
        x, y = c.op('to image', m.calc.lon_lat_alt_to_pixel_x_y, *[pts[:, k].reshape(sh) for k in range(3)], **kw)
        c.require(np.shape(x) == sh and np.shape(y) == sh, 'shape %s', np.shape(x))
        alone = [c.op('to image', m.calc.lon_lat_alt_to_pixel_x_y, *[float(v) for v in p], **kw) for p in pts]
    good = [k for k in range(12) if k not in at]
    rx, ry = m.refs([m.pts[k] for k in good])
    c.same(np.ravel(x)[good], rx, 'x of the known positions', atol=1e-5)
    c.same(np.ravel(y)[good], ry, 'y of the known positions', atol=1e-5)
    c.same(np.ravel(x), np.array([float(a[0]) for a in alone]), 'x in company and alone', atol=1e-6)
    c.same(np.ravel(y), np.array([float(a[1]) for a in alone]), 'y in company and alone', atol=1e-6)


@CHECK.scenario(bound=(9, 9))
def projections(c):
    """worlds without an EPSG code on either side"""
    m, lon, lat, alt, back, kw, acc = custom(c)
    form = c.choose('form', ['1d', '2d', 'scalar'])
    wx, wy = m.refs(m.pts)
    tol = max(m.tol, acc)
    if form == 'scalar':
        for k in range(0, 12, 3):
            x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, float(lon[k]), float(lat[k]), float(alt[k]), **kw)
            c.same([x, y], [wx[k], wy[k]], m.name + ': pixel', atol=tol)
        return
    sh = (12,) if form == '1d' else (4, 3)
    x, y = c.op('to pixel', m.calc.lon_lat_alt_to_pixel_x_y, lon.reshape(sh), lat.reshape(sh), alt.reshape(sh), **kw)
    c.same(x, wx.reshape(sh), m.name + ': pixel x', atol=tol)
    c.same(y, wy.reshape(sh), m.name + ': pixel y', atol=tol)


@CHECK.scenario(bound=(9, 9))
def whole_model(c):
    """what is set on a multi-camera model is set on each of its cameras"""
    n = c.choose('cameras', [1, 2, 3])
    first = c.choose('projections of the cameras', ['none', 'same', 'others'])
    names = ['pinhole', 'opencv', 'pix4d'][:n]
    calc = EarthOverheadSensorModel()
    subs = [zoo.build(k) for k in names]
    for k, s in enumerate(subs):
        s.calc.set_projection({'none': None, 'same': s.proj, 'others': Proj(CUSTOM[['lcc', 'lonlat', 'tmerc other'][k]], preserve_units=True)}[first])
        calc.add_point_calc(s.calc)
    for key in (c.choose('projection', ['utm18n', 'lcc', 'tmerc grs80']), c.choose('then', ['utm18n', 'tmerc grs80'])):
        p = Proj(CUSTOM[key], preserve_units=True)
        c.op('set_projection', calc.set_projection, p)
        for q in [calc] + list(calc.get_point_calcs()):
            c.require(q.get_projection().srs == p.srs, 'projection %s after %s was set', q.get_projection().srs, p.srs)
        wp = Proj(CUSTOM['lonlat'], preserve_units=True)
        for b, s in enumerate(subs):
            lo, la = Transformer.from_proj(p, wp, always_xy=True).transform([v[0] for v in s.pts], [v[1] for v in s.pts])
            wx, wy = s.refs(s.pts)
            for who, kw in ((calc, {'band': b}), (s.calc, {})):
                x, y = c.op('to pixel', who.lon_lat_alt_to_pixel_x_y, np.array(lo), np.array(la), np.array([v[2] for v in s.pts]), world_proj=wp, **kw)
                c.same(x, wx, 'pixel x of camera %d' % b, atol=1e-4)
                c.same(y, wy, 'pixel y of camera %d' % b, atol=1e-4)
    told = []

    class Camera(object):
        def __init__(self, k):
            self.k = k

        def set_distortion_model(self, distortion_model):
            told.append((self.k, distortion_model))
    calc.set_point_calcs([Camera(k) for k in range(n)])
    kind = c.choose('distortion', ['regular', None])
    c.op('set_distortion_model', calc.set_distortion_model, kind)
    c.require(sorted(told) == [(k, kind) for k in range(n)], 'cameras told of the distortion model: %s', told)
