"""calls leave their arguments, the process and each other alone"""
import gc
import locale
import os
import pickle
import random
import sys
import tempfile
import threading
import time
import warnings

import gdal
import numpy as np
import osr
from pyproj import Proj

from mc.core import Check, diff
from mc.ops import NAMES, OPS

CHECK = Check('P35', 'calls on their own', [
    'a catalogue of operations (mc/ops.py) that covers the public functions and readers of the library, three variants of small arguments each',
    'the answer of an operation is compared with that of the same call in a process of its own (forked before any other call)',
    'GDAL caches, in-memory files of GDAL and lazily built indices inside objects may change'])

RTOL, ATOL = 1e-9, 1e-9


def plain(o, depth=0):
    """a copy of what a caller sees of a value"""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
        return o
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, dict):
        return {str(k): plain(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v, depth + 1) for v in o]
    if isinstance(o, Proj):
        return 'proj ' + o.srs
    if hasattr(o, 'exterior'):
        return np.array(o.exterior.coords)
    if hasattr(o, 'get_image_data'):
        m = o.get_metadata()
        return [type(o).__name__, plain(o.get_image_data()), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_nodata_val()]
    if hasattr(o, 'get_wavelengths'):
        return [plain(o.get_wavelengths()), plain(o.get_spectral_data(nodata_to_nan=False)), plain(o.get_fwhm()), o.get_nodata_val()]
    return type(o).__name__


def apart(a, b, exact=False):
    """None or what differs"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return '%s %s, expected %s %s' % (a.dtype, a.shape, b.dtype, b.shape)
        if exact:
            return None if a.tobytes() == b.tobytes() or np.array_equal(a, b) or (a.dtype.kind in 'fc' and np.array_equal(a, b, equal_nan=True)) else diff(a, b) or 'differs'
        return diff(a, b, RTOL, ATOL)
    if type(a) is not type(b):
        return '%s, expected %s' % (type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        if list(a) != list(b):
            return 'keys %s, expected %s' % (list(a), list(b))
        a, b = list(a.values()), list(b.values())
    if isinstance(a, list):
        if len(a) != len(b):
            return '%d entries, expected %d' % (len(a), len(b))
        for k, (p, q) in enumerate(zip(a, b)):
            d = apart(p, q, exact)
            if d:
                return 'entry %d: %s' % (k, d)
        return None
    if isinstance(a, (float, complex, np.floating)) and not exact:
        return diff(a, b, RTOL, ATOL)
    return None if a == b or (a != a and b != b) else '%.80r, expected %.80r' % (a, b)


def arguments(name, k, d):
    """variant k, or variant k[0] with argument k[1] of variant k[2]"""
    o = OPS[name]
    if not isinstance(k, tuple):
        return o.make(k, d)
    for n in (k[0], k[2]):
        os.makedirs(os.path.join(d, str(n)), exist_ok=True)
    a = list(o.make(k[0], os.path.join(d, str(k[0]))))
    b = list(o.make(k[2], os.path.join(d, str(k[2]))))
    a[k[1]] = b[k[1]]
    return a


def mixtures():
    out = []
    for n in NAMES:
        if OPS[n].outs:
            continue
        with tempfile.TemporaryDirectory(dir=os.environ.get('MC_SCRATCH') or None) as d:
            w = len(list(OPS[n].make(0, d)))
        if w > 1:
            out += [(n, (0, j, k)) for j in range(w) for k in (1, 2)]
    return out


def alone(name, k, scratch):
    """the answer of one call, from a child that has made no other"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = ('raised', 'no answer')
        try:
            os.close(r)
            d = tempfile.mkdtemp(dir=scratch)
            out = ('ok', plain(OPS[name].fn(*arguments(name, k, d))))
        except BaseException as e:
            out = ('raised', '%s: %s' % (type(e).__name__, e))
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def references():
    """for every operation and variant; eight children at a time"""
    root = tempfile.mkdtemp(prefix='ref', dir=os.environ.get('MC_SCRATCH') or None)
    jobs = [(n, k) for n in NAMES for k in range(3)] + mixtures()
    out = {}
    try:
        while jobs:
            part, jobs = jobs[:8], jobs[8:]
            kids = [(j,) + alone(j[0], j[1], root) for j in part]
            for j, pid, r in kids:
                with os.fdopen(r, 'rb') as f:
                    b = f.read()
                os.waitpid(pid, 0)
                out[j] = pickle.loads(b) if b else ('raised', 'the process ended')
    finally:
        import shutil
        shutil.rmtree(root, ignore_errors=True)
    return out


REF = references()


def process():
    m = os.umask(0)
    os.umask(m)
    return {'working directory': os.getcwd(), 'environment': dict(os.environ), 'numpy error handling': np.geterr(), 'numpy print options': str(np.get_printoptions()),
            'numpy random state': hash((np.random.get_state()[1].tobytes(),) + np.random.get_state()[2:]), 'random state': hash(random.getstate()), 'time zone': time.tzname,
            'locale': locale.setlocale(locale.LC_ALL), 'recursion limit': sys.getrecursionlimit(), 'gdal exceptions': bool(gdal.GetUseExceptions()),
            'osr exceptions': bool(osr.GetUseExceptions()), 'umask': m, 'module path': list(sys.path), 'threads': threading.active_count(),
            'warnings': len(warnings.filters) > 0 and warnings.filters[0], 'gdal driver count': gdal.GetDriverCount(),
            'gdal configuration': [gdal.GetConfigOption(k) for k in ('GDAL_CACHEMAX', 'GTIFF_POINT_GEO_IGNORE', 'CPL_DEBUG', 'GDAL_DATA', 'GDAL_DISABLE_READDIR_ON_OPEN')]}


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        out[os.path.relpath(p, d) + '/'] = None
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as s:
                out[os.path.relpath(q, d)] = s.read()
    return out


def opened(d):
    out = []
    for k in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + k)
        except OSError:
            continue
        if t.startswith(d):
            out.append(t[len(d):])
    return sorted(out)


def answer(c, name, k, args, what, d=None):
    """one call in this process, judged; returns the raw result"""
    o = OPS[name]
    how, ref = REF[name, k]
    c.require(how == 'ok', '%s, variant %s raised in a process of its own: %s', name, k, ref)
    had = plain(args)
    state = process()
    tree = files(d) if d and o.files else None
    got = c.op('%s (%s)' % (name, what), o.fn, *args)
    bad = apart(plain(got), ref)
    c.require(not bad, '%s, variant %s, %s: %s', name, k, what, bad)
    bad = apart(plain(args), had, exact=True)
    c.require(not bad, '%s, variant %s, %s changed its arguments: %s', name, k, what, bad)
    now = process()
    for q in state:
        if q == 'numpy random state' and name.startswith('spectral'):
            continue    # fractional powers of matrices draw from it in scipy
        c.require(now[q] == state[q], '%s, variant %s, %s changed the %s', name, k, what, q)
    if tree is not None:
        later = files(d)
        for f in tree:
            if f.split('/')[0] in o.outs or (o.outs and f.split('/')[0] == '.'):
                continue
            c.require(f in later and later[f] == tree[f], '%s, variant %s, %s changed the file %s', name, k, what, f)
        for f in later:
            c.require(f in tree or f.split('/')[0] in o.outs, '%s, variant %s, %s made a file %s', name, k, what, f)
    return got


def spoil(o, depth=0):
    """overwrite what a caller may overwrite of a result"""
    if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in 'iufcb' and o.size:
        o[...] = 77 if o.dtype.kind != 'b' else ~o
    elif isinstance(o, list):
        for v in o:
            spoil(v, depth + 1)
        del o[:]
    elif isinstance(o, tuple):
        for v in o:
            spoil(v, depth + 1)
    elif isinstance(o, dict):
        for v in o.values():
            spoil(v, depth + 1)
        o.clear()


def edit(old, new):
    """put the values of new into the objects of old, where they can take them; returns what to pass"""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
        old[...] = new
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = [edit(a, b) for a, b in zip(old, new)] + new[len(old):]
        return old
    if isinstance(old, dict) and isinstance(new, dict):
        for k in list(old):
            if k not in new:
                del old[k]
        for k in new:
            old[k] = edit(old[k], new[k]) if k in old else new[k]
        return old
    if hasattr(old, 'get_image_data') and isinstance(old.get_image_data(), np.ndarray) and type(old) is type(new) and \
            np.shape(old.get_image_data()) == np.shape(new.get_image_data()) and type(old).__name__ == 'PhysicalCameraImage':
        old.get_image_data()[...] = new.get_image_data()
        old.set_point_calculator(new.get_point_calculator())
        return old
    return new


def in_form(o, form):
    if isinstance(o, np.ndarray) and o.size:
        if form == 'read only':
            o = np.array(o)
            o.flags.writeable = False
        elif form == 'column order':
            o = np.asfortranarray(o)
        elif form == 'every other':
            big = np.zeros(tuple(2 * n for n in o.shape), dtype=o.dtype)
            sl = tuple(slice(None, None, 2) for _ in o.shape)
            big[sl] = o
            o = big[sl]
        elif form == 'reversed':
            o = np.ascontiguousarray(o[::-1])[::-1]
    return o


def clean(c, d, what):
    gc.collect() if opened(d) else None
    c.require(not opened(d), '%s left files open: %s', what, opened(d))


@CHECK.scenario(bound=(9, 9))
def repeated(c):
    """each operation called several times: with new, the same, edited and overwritten arguments, after its results were overwritten"""
    name = c.choose('operation', NAMES)
    how = c.choose('calls', ['same arguments again', 'other arguments between', 'arguments edited in place', 'result overwritten'])
    ks = c.choose('variants', [(0, 1, 0), (1, 0, 1), (0, 2, 0), (2, 0, 2), (2, 1, 2), (0, 1, 2)])
    o = OPS[name]
    d = c.dir()
    folder = lambda k: d if not o.files or k == ks[0] or how == 'arguments edited in place' else os.path.join(d, str(k))
    for k in ks:
        os.makedirs(folder(k), exist_ok=True)
    if how == 'same arguments again':
        a = o.make(ks[0], d)
        for n in range(3):
            answer(c, name, ks[0], a, 'call %d with the same arguments' % (n + 1), d)
    elif how == 'other arguments between':
        held = None
        for n, k in enumerate(ks):
            a = o.make(k, folder(k))
            r = answer(c, name, k, a, 'call %d of variants %s' % (n + 1, ks), folder(k))
            if held:
                bad = apart(plain(held[0]), held[1], exact=True)
                c.require(not bad, '%s: the result of an earlier call was changed by a later one: %s', name, bad)
            held = (r, plain(r))
    elif how == 'arguments edited in place':
        if 2 in ks and o.files:
            return
        a = o.make(ks[0], d)
        answer(c, name, ks[0], a, 'first call', d)
        for k in ks[1:]:
            a = edit(a, o.make(k, d))
            answer(c, name, k, a, 'call with edited arguments, variants %s' % (ks,), d)
    else:
        a = o.make(ks[0], d)
        r = answer(c, name, ks[0], a, 'first call', d)
        spoil(r)
        del r
        a = o.make(ks[0], d)
        r = answer(c, name, ks[0], a, 'call after the result of the first was overwritten', d)
        keep = plain(r)
        spoil(answer(c, name, ks[1], o.make(ks[1], folder(ks[1])), 'other call', folder(ks[1])))
        bad = apart(plain(r), keep, exact=True)
        c.require(not bad, '%s: overwriting one result changed another: %s', name, bad)
    a = r = held = None
    clean(c, d, name)


@CHECK.scenario(bound=(9, 9))
def forms(c):
    """arrays that cannot be written to, or that lie in memory in another way, give the same answer"""
    name = c.choose('operation', NAMES)
    form = c.choose('form', ['read only', 'column order', 'every other', 'reversed'])
    k = c.choose('variant', [0, 1, 2])
    o = OPS[name]
    d = c.dir()
    a = o.make(k, d)
    if not any(isinstance(v, np.ndarray) for v in a):
        return
    answer(c, name, k, [in_form(v, form) for v in a], form, d)
    for j, v in enumerate(a):
        if isinstance(v, np.ndarray):
            b = o.make(k, d)
            b[j] = in_form(b[j], form)
            answer(c, name, k, b, '%s argument %d' % (form, j), d)


@CHECK.scenario(bound=(9, 9))
def one_argument(c):
    """calls that differ in one argument only"""
    name = c.choose('operation', [n for n in NAMES if any(q[0] == n and isinstance(q[1], tuple) for q in REF)])
    k = c.choose('mixture', [q[1] for q in REF if q[0] == name and isinstance(q[1], tuple)])
    if REF[name, k][0] != 'ok':
        return      # these arguments do not go together
    d = c.dir()
    n = 0
    for seq in c.choose('order', [[0, k, 0], [k, 0, k]]):
        n += 1
        p = os.path.join(d, str(n))
        os.makedirs(p)
        answer(c, name, seq, arguments(name, seq, p), 'call %d of variants %s' % (n, k), p)


def sequence(c, names, ks):
    d = c.dir()
    made = []
    for n, (name, k) in enumerate(zip(names, ks)):
        p = os.path.join(d, str(n))
        os.makedirs(p)
        a = OPS[name].make(k, p)
        r = answer(c, name, k, a, 'after %s' % ', '.join('%s %d' % q for q in zip(names[:n], ks)) if n else 'first', p)
        for m, (r0, keep) in enumerate(made):
            bad = apart(plain(r0), keep, exact=True)
            c.require(not bad, '%s changed the result of %s: %s', name, names[m], bad)
        made.append((r, plain(r)))
        a = r = None


@CHECK.scenario(bound=(9, 9), tiers=('quick',))
def pairs(c):
    """every operation after every other one, and itself again"""
    a = c.choose('first', NAMES)
    b = c.choose('second', NAMES)
    sequence(c, [a, b, a], [0, 1, 2 if a == b else 1])


@CHECK.scenario(bound=(9, 9), tiers=('thorough',))
def pairs_of_all_variants(c):
    """every variant of every operation after every variant of every other one, and the first one again"""
    a = c.choose('first', NAMES)
    b = c.choose('second', NAMES)
    k = c.choose('variants', [(0, 1, 0), (0, 1, 1), (1, 0, 0), (0, 2, 1), (2, 0, 1), (1, 2, 2), (2, 2, 0)])
    sequence(c, [a, b, a], k)
