"""navigation records: Applanix EO text files and SBET files"""
import math
import os
import sys
import types
import json
import struct

import numpy as np

from mc.core import Check
from mc.util import layout


class Pipeline(object):
    """stands in for the PDAL binding, which is not installed: the sbet reader of PDAL"""
    NAMES = ['GpsTime', 'Y', 'X', 'Z', 'XVelocity', 'YVelocity', 'ZVelocity', 'Roll', 'Pitch', 'Azimuth', 'WanderAngle', 'XBodyAccel', 'YBodyAccel',
             'ZBodyAccel', 'XBodyAngRate', 'YBodyAngRate', 'ZBodyAngRate']

    def __init__(self, text):
        q = json.loads(text)
        q = q['pipeline'] if isinstance(q, dict) else q
        self.stage = q[0]

    def validate(self):
        return True

    def execute(self):
        assert self.stage['type'] == 'readers.sbet'
        with open(self.stage['filename'], 'rb') as f:
            b = f.read()
        self.arrays = [np.frombuffer(b, dtype=[(n, '<f8') for n in self.NAMES])]
        return len(self.arrays[0])


try:
    import pdal
except ImportError:
    stub = types.ModuleType('pdal')
    stub.Pipeline = Pipeline
    sys.modules['pdal'] = stub

from resippy.photogrammetry.nav.nav_factory import NavFactory

CHECK = Check('P25', 'navigation records', [
    'files of 2 to 12 records with increasing times; PDAL is not installed and replaced by a reader of SBET records',
    'angles are in degrees'])

EO = ['gps_time', 'easting', 'northing', 'height', 'omega', 'phi', 'kappa', 'lat', 'lon']
SB = ['gps_time', 'y', 'x', 'z', 'x_velocity', 'y_velocity', 'z_velocity', 'roll', 'pitch', 'azimuth', 'wander_angle', 'x_body_accel', 'y_body_accel',
      'z_body_accel', 'x_body_ang_rate', 'y_body_ang_rate', 'z_body_ang_rate']
ANGLES = {'omega', 'phi', 'kappa', 'roll', 'pitch', 'azimuth'}
WRAPPED = ANGLES | {'x', 'lon', 'wander_angle'}
GETTERS = {'EO': [('get_world_xs', 'easting'), ('get_world_ys', 'northing'), ('get_alts', 'height'), ('get_rolls', 'omega'), ('get_pitches', 'phi'), ('get_headings', 'kappa')],
           'SBET': [('get_world_xs', 'x'), ('get_world_ys', 'y'), ('get_alts', 'z'), ('get_rolls', 'roll'), ('get_pitches', 'pitch'), ('get_headings', 'azimuth')]}


def records(cols, n, step, turn, line=None):
    """n records, one dict of column -> value each"""
    t, out = 402345.25, []
    for k in range(n):
        r = {}
        for j, c in enumerate(cols):
            r[c] = round(100.0 * (j + 1) + 3.7 * k + 0.13 * ((k * k * (j + 3)) % 17), 6)
        r[cols[0]] = t
        for c in ANGLES & set(cols):
            r[c] = round(-1.5 + 0.4 * k + {'omega': 0.1, 'phi': 0.2}.get(c, 0.3), 6)
        if turn == 'leaps':
            # everything which is not an angle may jump by any amount
            for j, c in enumerate(cols):
                if j and c not in WRAPPED and c not in ('lat', 'y'):
                    r[c] = round(r[c] + (-1) ** (k + j) * (190.0 + 170.0 * j + 13.0 * k), 6)
        head = {'leaps': 30.0 + 40.0 * k, 'steady': 33.0 + 2.5 * k, 'north': 352.0 + 5.5 * k, 'south': 172.0 + 5.5 * k, 'back': 7.0 - 5.5 * k, 'half turns': 80.0 * k, 'edge': 360.0 * (k % 2), 'lower edge': 360.0 * (k % 2) - 180.0}[turn]
        for c in ('kappa', 'azimuth'):
            if c in r and 'edge' in turn:
                r[c] = head
            elif c in r:
                r[c] = round(head % 360.0 if turn in ('north', 'back', 'half turns', 'leaps') else (head + 180.0) % 360.0 - 180.0, 6)
        if turn == 'north' and 'omega' in r:
            r['omega'] = round((178.0 + 1.5 * k + 180.0) % 360.0 - 180.0, 6)
        if line:
            # across the date line, eastwards or westwards
            for c, v in (('x', 179.995), ('lon', 179.996), ('wander_angle', 178.0)):
                if c in r:
                    r[c] = round(((v if line == 'east' else -v) + (0.004 if c != 'wander_angle' else 1.5) * k * (1 if line == 'east' else -1) + 180.0) % 360.0 - 180.0, 6)
        out.append(r)
        t = round(t + (step if step else (0.5 + (k % 3))), 6)
    return out


def between(recs, cols, col, t):
    for a, b in zip(recs, recs[1:]):
        if a[cols[0]] <= t <= b[cols[0]]:
            f = (t - a[cols[0]]) / (b[cols[0]] - a[cols[0]])
            d = b[col] - a[col]
            if col in WRAPPED:
                d = (d + 180.0) % 360.0 - 180.0
            return a[col] + f * d
    raise AssertionError(t)


def compare(c, got, want, col, what):
    d = np.asarray(got, dtype=float) - want
    if col in WRAPPED:
        d = (d + 180.0) % 360.0 - 180.0
    c.require(abs(d) < 1e-6, '%s is %r, expected %r', what, got, want)


def query(c, nav, recs, cols, fmt, forms, times):
    keep = np.array(times)
    for form in forms:
        for name, col in GETTERS[fmt] + [('get_nav_records', None)]:
            g = getattr(nav, name)
            if form == 'scalar':
                res = [c.op(name, g, float(t)) for t in times]
            elif form == 'one':
                res = [c.op(name, g, np.array([t]))[0] for t in times]
            elif form in ('2d', '2dF', '2dT', 'row', 'column'):
                n = len(times) - len(times) % 2 if form[0] == '2' else len(times)
                a = keep[:n].reshape({'2dT': (-1, 2), 'row': (1, -1), 'column': (-1, 1)}.get(form, (2, -1)))
                a = np.asfortranarray(a) if form == '2dF' else np.ascontiguousarray(a.T).T if form == '2dT' else a
                b = a.copy()
                res = c.op(name, g, a)
                c.require(res.shape == a.shape, '%s of a %s array has shape %s', name, a.shape, res.shape)
                c.same(a, b, 'times changed')
                res = [res[j, i] for j in range(a.shape[0]) for i in range(a.shape[1])]
            else:
                a = layout(keep, form)
                res = c.op(name, g, a)
                c.require(len(res) == len(keep) and np.ndim(res) == 1, '%s: shape', name)
                c.same(a, keep, 'times changed')
            for t, v in zip(times, res):
                if col is None:
                    c.require(set(v) == set(cols), 'fields %s', sorted(v))
                    for k in cols:
                        compare(c, v[k], between(recs, cols, k, t), k, '%s of the record at %r' % (k, t))
                else:
                    compare(c, v, between(recs, cols, col, t), col, '%s at %r' % (name, t))


def times_of(recs, cols):
    ts = [r[cols[0]] for r in recs]
    out = list(ts)
    for a, b in zip(ts, ts[1:]):
        out += [a + (b - a) * f for f in (0.5, 0.25, 0.9)]
    # not in order
    return out[::-2] + out[::2]


@CHECK.scenario(bound=(2, 3))
def interpolation(c):
    """position at times on, between and outside the records against linear interpolation by hand"""
    fmt = c.choose('format', ['EO', 'SBET'])
    n = c.choose('records', [4, 2, 12])
    turn = c.choose('heading', ['steady', 'north', 'south', 'back', 'half turns', 'edge', 'lower edge', 'leaps'])
    step = c.vary('time step', [None, 0.005, 1.0, 100.0])
    form = c.vary('form', ['C', 'scalar', 'one', '2d', '2dF', '2dT', 'row', 'column', 'strided', 'reversed'])
    place = c.vary('projection', ['utm', 'lonlat'])
    line = c.vary('date line', [None, 'east', 'west'])
    cols = EO if fmt == 'EO' else SB
    recs = records(cols, n, step, turn, line)
    d = c.dir()
    f = os.path.join(d, 'nav.' + fmt.lower())
    args = ('utm', 18, 'WGS84', 'WGS84') if place == 'utm' else ('latlong', None, 'WGS84', 'WGS84')
    if fmt == 'EO':
        with open(f, 'w') as s:
            for k, r in enumerate(recs):
                s.write(' '.join(['img_%04d.tif' % k] + ['%.6f' % r[x] for x in cols]) + '\n')
        nav = c.op('load', NavFactory.from_applanix_eo_file, f, *args)
    else:
        with open(f, 'wb') as s:
            for r in recs:
                s.write(struct.pack('<17d', *[r[x] for x in cols]))
        nav = c.op('load', NavFactory.from_applanix_sbet_file, f, *args)
        c.require(nav.get_record_length() == 17, 'record length')
    c.require(nav.get_num_records() == n, 'number of records %s', nav.get_num_records())
    c.require(nav.get_projection().crs.is_geographic == (place == 'lonlat'), 'projection')
    if place == 'utm':
        x, y = nav.get_projection()(-75.0, 10.0)
        c.same([x, y], [500000.0, 1105412.491], 'projection', atol=1e-2)
    query(c, nav, recs, cols, fmt, [form], times_of(recs, cols))
    # outside of the records there is no answer
    t0, t1 = recs[0][cols[0]], recs[-1][cols[0]]
    mixed = [np.array([x if j == k else mid for j in range(4)]) for mid in ((t0 + t1) / 2.0,) for k in range(4) for x in (t0 - 2.0, t1 + 2.0)]
    for t in (t0 - 0.001, t1 + 0.001, t0 - 1e5, t1 + 1e5, np.array([t0, t1 + 1.0]), np.array([t0 - 1.0, t1]), np.array([[t0 - 1.0, t1]]), *mixed, mixed[2].reshape(2, 2), mixed[-1].reshape(2, 2)):
        for name, _ in GETTERS[fmt] + [('get_nav_records', None)]:
            c.require(c.op(name, getattr(nav, name), t) is None, '%s outside of the records', name)


HEADS = {'none': [], 'text': ['POSPac MMS', '', 'Exterior orientation of the images'], 'numbers': ['Version 8 2', 'Boresight tx 0.001 ty -0.002 tz 0.1', 'Mean 1 2 3 4 5'],
         'columns': ['ID EVENT TIME(s) EASTING NORTHING ORTHOMETRIC_HEIGHT OMEGA PHI KAPPA LAT LONG', '  (time in Sec, distance in Meters, position in Meters, orientation in Deg)'],
         'dates': ['Date 2018 06 21 10 20 30 UTC time', 'Zone 18 (78W to 72W)']}


@CHECK.scenario(bound=(2, 3))
def eo_files(c):
    """only full records count, whatever stands around them"""
    head = c.choose('header', list(HEADS))
    broken = c.choose('broken line', ['none', 'first', 'middle', 'last'])
    how = c.choose('broken', ['cut', 'text', 'words', 'blank', 'missing'])
    sep = c.vary('separator', [' ', '\t', '     '])
    eol = c.vary('eol', ['\n', '\r\n'])
    tail = c.vary('end', ['\n', '', '\n\n', '\n \nEnd of file 1 2 3\n'])
    more = c.vary('more columns', [False, True])
    fmt = c.vary('numbers', ['%.6f', '%r', '%.9e'])
    lead = c.vary('indent', ['', '  '])
    recs = records(EO, 6, None, 'steady')
    lines = []
    for k, r in enumerate(recs):
        lines.append(lead + sep.join(['%d' % (k + 1)] + [fmt % r[x] for x in EO] + (['0.1', 'x'] if more else [])))
    if broken != 'none':
        k = {'first': 0, 'middle': 3, 'last': 5}[broken]
        parts = lines[k].split()[:10]
        lines[k] = {'cut': sep.join(parts[:6]), 'text': sep.join(parts[:7] + ['n/a'] + parts[8:]), 'words': 'no solution for this event', 'blank': '',
                    'missing': sep.join(parts[:9])}[how]
        del recs[k]
    f = os.path.join(c.dir(), 'eo.txt')
    with open(f, 'wb') as s:
        s.write(('\n'.join(HEADS[head] + lines) + tail).replace('\n', eol).encode())
    nav = c.op('load', NavFactory.from_applanix_eo_file, f, 'utm', 18, 'WGS84', 'WGS84')
    c.require(nav.get_num_records() == len(recs), '%s records, expected %d', nav.get_num_records(), len(recs))
    query(c, nav, recs, EO, 'EO', ['C'], times_of(recs, EO))


@CHECK.scenario(bound=(9, 9))
def histories(c):
    """loading another file replaces the records; two navs do not share records"""
    seq = [c.choose('step %d' % k, ['a', 'b', 'other']) for k in range(4)]
    d = c.dir()
    data = {}
    for name, n, turn in (('a', 4, 'steady'), ('b', 3, 'north')):
        recs = records(EO, n, None, turn)
        if name == 'b':
            recs = [{k: (v + 50 if k != 'gps_time' else v + 0.125) for k, v in r.items()} for r in recs]
        with open(os.path.join(d, name), 'w') as s:
            s.writelines(' '.join(['x'] + ['%.6f' % r[k] for k in EO]) + '\n' for r in recs)
        data[name] = recs
    nav = NavFactory.from_applanix_eo_file(os.path.join(d, 'a'), 'utm', 18, 'WGS84', 'WGS84')
    now = 'a'
    for s in seq:
        if s == 'other':
            o = 'b' if now == 'a' else 'a'
            oth = c.op('other', NavFactory.from_applanix_eo_file, os.path.join(d, o), 'utm', 17, 'WGS84', 'WGS84')
            query(c, oth, data[o], EO, 'EO', ['C'], times_of(data[o], EO)[:3])
        else:
            c.op('load', nav.load_from_file, os.path.join(d, s), 'utm', 18, 'WGS84', 'WGS84')
            now = s
        c.require(nav.get_num_records() == len(data[now]), 'number of records')
        query(c, nav, data[now], EO, 'EO', ['C', 'scalar'], times_of(data[now], EO)[:4])


@CHECK.scenario(bound=(9, 9))
def long_flights(c):
    """thousands of records, thousands of times in one call"""
    fmt = c.choose('format', ['EO', 'SBET'])
    n = c.choose('records', [1031, 5003])
    q = c.choose('times', [1031, 70001, (300, 257)])
    turn = c.choose('heading', ['north', 'steady'])
    cols = EO if fmt == 'EO' else SB
    k = np.arange(n)
    a = {x: np.round(100.0 * (j + 1) + 3.7 * k + 0.13 * ((k * k * (j + 3)) % 17), 6) for j, x in enumerate(cols)}
    a[cols[0]] = np.round(402345.25 + np.cumsum(0.005 + 0.5 * (k % 3)), 6)
    for x in WRAPPED & set(cols):
        v = 33.0 + (2.5 * k if turn == 'north' else 0.001 * k)
        a[x] = np.round((v + 180) % 360 - 180 if x != 'azimuth' else v % 360, 6)
    f = os.path.join(c.dir(), 'nav')
    if fmt == 'EO':
        with open(f, 'w') as s:
            s.writelines(' '.join(['%d' % (i + 1)] + ['%.6f' % a[x][i] for x in cols]) + '\n' for i in range(n))
        nav = c.op('load', NavFactory.from_applanix_eo_file, f, 'utm', 18, 'WGS84', 'WGS84')
    else:
        np.stack([a[x] for x in cols], axis=1).astype('<f8').tofile(f)
        nav = c.op('load', NavFactory.from_applanix_sbet_file, f, 'utm', 18, 'WGS84', 'WGS84')
    c.require(nav.get_num_records() == n, 'number of records %s', nav.get_num_records())
    t = a[cols[0]]
    m = int(np.prod(q))
    u = (np.arange(m) * 0.6180339887498949) % 1.0
    times = t[0] + (t[-1] - t[0]) * u
    times[::11] = t[(u[::11] * n).astype(int)]
    times[5], times[-1] = t[-1], t[0]
    times = times.reshape(q)
    i = np.clip(np.searchsorted(t, times, side='right') - 1, 0, n - 2)
    w = (times - t[i]) / (t[i + 1] - t[i])
    keep = times.copy()
    for name, col in GETTERS[fmt]:
        d = a[col][i + 1] - a[col][i]
        if col in WRAPPED:
            d = (d + 180) % 360 - 180
        got = c.op(name, getattr(nav, name), times)
        c.require(np.shape(got) == times.shape, '%s: shape %s', name, np.shape(got))
        d = np.asarray(got, dtype=float) - (a[col][i] + w * d)
        if col in WRAPPED:
            d = (d + 180) % 360 - 180
        c.require(np.all(np.abs(d) < 1e-5), '%s is off by up to %s', name, np.abs(d).max())
    c.same(times, keep, 'times changed')


@CHECK.scenario(bound=(9, 9))
def whole_seconds(c):
    """times in whole seconds may be integers of any kind, and are the same times as floats"""
    fmt = c.choose('format', ['EO', 'SBET'])
    step = c.choose('time step', [1.0, 100.0])
    turn = c.choose('heading', ['steady', 'north', 'half turns'])
    kind = c.choose('kind', ['python int', 'int64', 'int32', 'uint32', 'float32', 'numpy int', '0 to n'])
    form = c.choose('form', ['1d', '2d', 'F', 'one'])
    cols = EO if fmt == 'EO' else SB
    recs = records(cols, 6, step, turn)
    f = os.path.join(c.dir(), 'nav')
    base = math.floor(recs[0][cols[0]]) if kind != '0 to n' else 0
    t0 = recs[0][cols[0]]
    for r in recs:
        r[cols[0]] = float(base + round(r[cols[0]] - t0, 6))
    if fmt == 'EO':
        with open(f, 'w') as s:
            s.writelines(' '.join(['%d' % k] + ['%.6f' % r[x] for x in cols]) + '\n' for k, r in enumerate(recs))
        nav = c.op('load', NavFactory.from_applanix_eo_file, f, 'utm', 18, 'WGS84', 'WGS84')
    else:
        with open(f, 'wb') as s:
            for r in recs:
                s.write(struct.pack('<17d', *[r[x] for x in cols]))
        nav = c.op('load', NavFactory.from_applanix_sbet_file, f, 'utm', 18, 'WGS84', 'WGS84')
    a, b = int(math.ceil(recs[0][cols[0]])), int(recs[-1][cols[0]])
    times = sorted({a, b, a + 1, (a + b) // 2, b - 1, a + (b - a) // 3})[:6]
    while len(times) < 6:
        times.append(a)
    times = [t for t in times if float(np.float32(t)) == t] if kind == 'float32' else times
    for name, col in GETTERS[fmt] + [('get_nav_records', None)]:
        g = getattr(nav, name)
        if kind in ('python int', 'numpy int'):
            res = [c.op(name, g, t if kind == 'python int' else np.int64(t)) for t in times]
        else:
            q = np.array(times, dtype='int64' if kind == '0 to n' else kind)
            if form == 'one':
                res = [c.op(name, g, q[k:k + 1])[0] for k in range(len(q))]
            else:
                q = q.reshape(2, -1) if form != '1d' else q
                q = np.asfortranarray(q) if form == 'F' else q
                r = c.op(name, g, q)
                c.require(np.shape(r) == q.shape, '%s: shape %s', name, np.shape(r))
                res = list(np.ravel(r))
        for t, v in zip(times, res):
            if col is None:
                for k in cols:
                    compare(c, v[k], between(recs, cols, k, float(t)), k, '%s of the record at %r' % (k, t))
            else:
                compare(c, v, between(recs, cols, col, float(t)), col, '%s at %r' % (name, t))
