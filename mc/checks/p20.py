"""anomaly and target detectors"""
import math

import numpy as np

from mc.core import Check
from mc.spec import MASKS, big_cube, big_mask, cube, mask_as, mask_of, ref_cov, ref_mean
from mc.util import layout
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2

CHECK = Check('P20', 'spectral detectors', [
    'cubes up to 7x6 pixels and 5 bands with well conditioned covariance; scores compared to the formulas of the cited papers pixel by pixel'])

SHAPES = [(5, 4, 3), (1, 9, 2), (8, 2, 4), (3, 7, 1), (7, 6, 5)]


def quad(a, inv, b):
    n = len(a)
    return math.fsum(float(a[i]) * float(inv[i][j]) * float(b[j]) for i in range(n) for j in range(n))


def ref_rx(flat, mean, inv):
    return np.array([quad(p - mean, inv, p - mean) for p in flat.astype(float)])


def ref_ace(flat, t, mean, inv):
    d = np.asarray(t, dtype=float) - mean
    tt = quad(d, inv, d)
    return np.array([quad(d, inv, p - mean) ** 2 / (tt * quad(p - mean, inv, p - mean)) for p in flat.astype(float)])


def ref_sam(flat, t):
    t = [float(v) for v in t]
    out = []
    for p in flat:
        p = [float(v) for v in p]
        out.append(math.fsum(a * b for a, b in zip(p, t)) / math.sqrt(math.fsum(a * a for a in p)) / math.sqrt(math.fsum(b * b for b in t)))
    return np.array(out)


def setup(c):
    shape = c.choose('shape', SHAPES)
    dt = c.choose('dtype', ['float64', 'uint8', 'int16', 'uint16', 'float32'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    a = cube(shape, dt)
    if a.dtype.kind == 'u':
        a[a == 0] = 1
    elif dt == 'float64':
        a *= c.vary('unit', [1.0, 2.0 ** -20, 2.0 ** 20])
    return shape, a, layout(a, lay), a.reshape(-1, shape[2]), (1e-7 if dt != 'float32' else 2e-3)


TARGETS = ['spectrum', 'pixel', 'scaled pixel', 'integers', 'list']


def target(kind, a):
    nb = a.shape[2]
    t = np.array([30.0 + 17.0 * math.cos(3.0 * k + 1) + 5 * k for k in range(nb)])
    if a.dtype.kind in 'iu':
        t = t * (np.iinfo(a.dtype).max / 300.0)
    return {'spectrum': t, 'pixel': a[0, -1].copy(), 'scaled pixel': a[0, -1] * 0.37, 'integers': np.round(t).astype(a.dtype if a.dtype.kind in 'iu' else int),
            'list': t.astype('float32')}[kind]


@CHECK.scenario(bound=(2, 3))
def rx(c):
    """RX scores against the quadratic form by hand"""
    shape, a, src, flat, tol = setup(c)
    stats = c.choose('statistics', ['own', 'given mean', 'given covariance', 'given', 'of other pixels', 'any matrix', 'mean of zero', 'whole numbers'])
    ny, nx, nb = shape
    keep = np.ones(ny * nx, bool)
    if stats == 'of other pixels':
        keep = ~mask_of('scattered', *shape).ravel()
    mean = ref_mean(flat, keep)
    inv = np.linalg.inv(ref_cov(flat, keep))
    kw = {}
    if stats in ('given mean', 'given', 'of other pixels', 'mean of zero', 'whole numbers'):
        if stats == 'given mean':
            mean = mean * 1.1 + 1
        elif stats == 'mean of zero':
            mean = mean * 0
        elif stats == 'whole numbers':
            mean = np.round(mean).astype(np.int64)
        kw['spectral_mean'] = mean
    if stats in ('given covariance', 'given', 'of other pixels', 'any matrix'):
        if stats == 'given covariance':
            inv = inv + np.eye(nb) * abs(inv).max()
        elif stats == 'any matrix':
            inv = inv - np.diag([(-1.0) ** k for k in range(nb)]) * abs(inv).max()
        kw['inverse_covariance'] = inv
    want = ref_rx(flat, mean, inv)
    keep_kw = {k: v.copy() for k, v in kw.items()}
    got = c.op('rx', s2.rx_anomaly_detector, src, **kw)
    at = tol * (1 + abs(want).max())
    c.same(got, want.reshape(ny, nx), '2d rx', rtol=tol, atol=at)
    c.same(c.op('rx', s1.rx_anomaly_detector, flat, **kw), want, '1d rx', rtol=tol, atol=at)
    c.same(src, a, 'caller cube changed')
    for k in kw:
        c.same(kw[k], keep_kw[k], k + ' changed')


@CHECK.scenario(bound=(2, 3))
def ace(c):
    """ACE scores against the ratio of quadratic forms by hand"""
    shape, a, src, flat, tol = setup(c)
    ny, nx, nb = shape
    t = target(c.choose('target', TARGETS), a)
    mk = c.choose('mask', ['none', 'one', 'scattered', 'most'])
    form = c.vary('mask form', ['bool', 'int', 'float', 'F'])
    stats = c.vary('statistics', ['own', 'given mean', 'given covariance', 'given', 'mean of zero', 'whole numbers'])
    m = mask_of(mk, *shape)
    keep = ~m.ravel() if mk != 'none' else np.ones(ny * nx, bool)
    mean = ref_mean(flat, keep)
    inv = np.linalg.inv(ref_cov(flat, keep))
    kw = {}
    if stats in ('given mean', 'given', 'mean of zero', 'whole numbers'):
        mean = {'mean of zero': mean * 0, 'whole numbers': np.round(mean).astype(np.int64)}.get(stats, mean * 1.05 - 2)
        kw['spectral_mean'] = mean
    if stats in ('given covariance', 'given'):
        inv = inv + np.eye(nb) * abs(inv).max()
        kw['inverse_covariance'] = inv
    if mk != 'none':
        kw['image_mask'] = mask_as(m, form)
    want = ref_ace(flat, t, mean, inv)
    t0 = t.copy()
    got = c.op('ace', s2.ace, src, t, **kw)
    at = 10 * tol
    c.same(got, want.reshape(ny, nx), '2d ace', atol=at)
    if mk != 'none':
        kw['image_mask'] = kw['image_mask'].reshape(-1)
    c.same(c.op('ace', s1.ace, flat, t, **kw), want, '1d ace', atol=at)
    c.same(t, t0, 'caller target changed')
    c.same(src, a, 'caller cube changed')
    d = flat - mean
    dt = t - mean
    c.same(c.op('ace', s1.ace_demeaned, d, dt, inv), want, '1d ace of demeaned data', atol=at)
    c.same(c.op('ace', s2.ace_demeaned, d.reshape(shape), dt, inv), want.reshape(ny, nx), '2d ace of demeaned data', atol=at)
    c.require(np.all(want >= -1e-9) and (nb == 1 or stats != 'own' or np.all(np.asarray(got) <= 1 + 1e-3)), 'ace scores lie between 0 and 1')


@CHECK.scenario(bound=(2, 3))
def sam(c):
    """spectral angles against the arc cosine by hand"""
    shape, a, src, flat, tol = setup(c)
    ny, nx, nb = shape
    t = target(c.choose('target', TARGETS), a)
    scale = c.vary('illumination', [1, 3, 1000])
    if scale != 1 and a.dtype.kind == 'f':
        # brightness of a pixel does not change its angle
        src = src * a.dtype.type(scale)
    t0 = t.copy()
    want = ref_sam(flat, t)
    got = c.op('sam', s2.sam, src, t)
    c.same(got, want.reshape(ny, nx), '2d sam', atol=max(tol, 1e-9))
    c.same(c.op('sam', s1.sam, flat, t), want, '1d sam', atol=max(tol, 1e-9))
    c.same(t, t0, 'caller target changed')


@CHECK.scenario(bound=(9, 9))
def uneven_bands(c):
    """bands of very different size: RX and ACE scores do not change when a band is given in other units"""
    det = c.choose('detector', ['rx', 'ace', 'ace masked'])
    shape = c.choose('shape', [(5, 4, 3), (1, 9, 2), (7, 6, 5)])
    down = c.choose('first band', [0, -10, -20, 10])
    up = c.choose('last band', [0, 10, -4])
    ny, nx, nb = shape
    a = cube(shape, salt=5)
    unit = np.ones(nb)
    unit[0] *= 2.0 ** down
    unit[-1] *= 2.0 ** up
    t = target('spectrum', a)
    m = mask_of('scattered', *shape)
    keep = ~m.ravel() if det == 'ace masked' else np.ones(ny * nx, bool)
    flat = a.reshape(-1, nb)
    mean, inv = ref_mean(flat, keep), np.linalg.inv(ref_cov(flat, keep))
    want = ref_rx(flat, mean, inv) if det == 'rx' else ref_ace(flat, t, mean, inv)
    kw = {'image_mask': m} if det == 'ace masked' else {}
    for what, mod, img in (('2d', s2, a * unit), ('1d', s1, flat * unit)):
        if det == 'rx':
            got = c.op('rx', mod.rx_anomaly_detector, img)
        else:
            got = c.op('ace', mod.ace, img, t * unit, **{k: v.reshape(img.shape[:-1]) for k, v in kw.items()})
        c.same(got, want.reshape(img.shape[:-1]), '%s %s' % (what, det), rtol=1e-7, atol=1e-7)


@CHECK.scenario(bound=(9, 9))
def raised(c):
    """RX and ACE scores do not change when the same level is added to every pixel and to the target"""
    det = c.choose('detector', ['rx', 'ace', 'ace masked', 'rx given', 'ace given'])
    shape = c.choose('shape', [(5, 4, 3), (1, 9, 2), (8, 2, 4)])
    level = c.choose('level', [0.0, 2.0 ** 20, -2.0 ** 18, 2.0 ** 24])
    dt = c.vary('dtype', ['float64', 'int64', 'int32'])
    ny, nx, nb = shape
    a = np.round(cube(shape, salt=5))
    t = np.round(target('spectrum', a))
    m = mask_of('scattered', *shape)
    keep = ~m.ravel() if det == 'ace masked' else np.ones(ny * nx, bool)
    flat = a.reshape(-1, nb)
    mean, inv = ref_mean(flat, keep), np.linalg.inv(ref_cov(flat, keep))
    want = ref_rx(flat, mean, inv) if det.startswith('rx') else ref_ace(flat, t, mean, inv)
    stats = {'spectral_mean': mean + level, 'inverse_covariance': inv} if det.endswith('given') else {}
    for what, mod, img in (('2d', s2, (a + level).astype(dt)), ('1d', s1, (flat + level).astype(dt))):
        if det.startswith('rx'):
            got = c.op('rx', mod.rx_anomaly_detector, img, **stats)
        else:
            kw = {'image_mask': m.reshape(img.shape[:-1])} if det == 'ace masked' else {}
            got = c.op('ace', mod.ace, img, t + level, **stats, **kw)
        c.same(got, want.reshape(img.shape[:-1]), '%s %s' % (what, det), rtol=1e-5, atol=1e-6)


@CHECK.scenario(bound=(9, 9))
def order(c):
    """the score of a pixel does not depend on where it is, and other pixels only matter through the statistics"""
    det = c.choose('detector', ['rx', 'ace', 'sam', 'ace given', 'rx given'])
    perm = c.choose('order', ['reverse', 'rotate', 'transpose', 'swap first last'])
    shape = c.choose('shape', [(4, 5, 3), (2, 7, 2), (9, 2, 4)])
    ny, nx, nb = shape
    a = cube(shape, salt=3)
    flat = a.reshape(-1, nb)
    n = ny * nx
    p = {'reverse': list(range(n))[::-1], 'rotate': list(range(1, n)) + [0], 'transpose': [y * nx + x for x in range(nx) for y in range(ny)],
         'swap first last': [n - 1] + list(range(1, n - 1)) + [0]}[perm]
    inv = np.linalg.inv(ref_cov(flat, [True] * n))
    mean = ref_mean(flat, [True] * n)
    t = target('spectrum', a)
    f = {'rx': lambda v: s1.rx_anomaly_detector(v), 'ace': lambda v: s1.ace(v, t), 'sam': lambda v: s1.sam(v, t),
         'ace given': lambda v: s1.ace(v, t, mean, inv), 'rx given': lambda v: s1.rx_anomaly_detector(v, mean, inv)}[det]
    base = c.op(det, f, flat)
    c.same(c.op(det, f, flat[p]), base[p], det + ' of reordered pixels', rtol=1e-9, atol=1e-9)
    if det in ('sam', 'ace given', 'rx given'):
        for k in range(n):
            c.same(c.op(det, f, flat[k:k + 1]), base[k:k + 1], det + ' of one pixel alone', rtol=1e-9, atol=1e-9)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """scores of images of tens of thousands of pixels"""
    det = c.choose('detector', ['rx', 'ace', 'sam', 'ace given', 'rx given'])
    shape = c.choose('shape', [(300, 257, 3), (1, 70001, 2), (1100, 4, 5), (33, 32, 12)])
    mk = c.choose('mask', ['none', 'half']) if det == 'ace' else 'none'
    dt = c.choose('dtype', ['float64', 'uint8', 'int16'])
    ny, nx, nb = shape
    a = big_cube(shape, dt)
    m = big_mask(mk, shape)
    src = a.copy()
    flat = src.reshape(-1, nb)
    v = flat.astype(float)
    k = v[~m.ravel()]
    mean = k.mean(0)
    cov = (k - mean).T @ (k - mean) / (len(k) - 1)
    if det.endswith('given'):
        mean, cov = mean * 1.1 + 1, cov + np.eye(nb) * 7
    inv = np.linalg.inv(cov)
    t = np.array([90.0 + 17 * math.cos(3.0 * b + 1) + 5 * b for b in range(nb)])
    d, dt_ = v - mean, t - mean
    quad_ = lambda p, q: ((p @ inv) * q).sum(-1)
    want = {'rx': lambda: quad_(d, d), 'ace': lambda: quad_(d, dt_) ** 2 / (quad_(dt_, dt_) * quad_(d, d)),
            'sam': lambda: v @ t / np.sqrt((v * v).sum(1) * (t * t).sum())}[det.split()[0]]()
    args = (mean, inv) if det.endswith('given') else ()
    kw = {} if mk == 'none' else {'image_mask': m}
    for what, mod, img, g in (('2d', s2, src, m), ('1d', s1, flat, m.ravel())):
        kw = {} if mk == 'none' else {'image_mask': g}
        if det.startswith('rx'):
            got = c.op('rx', mod.rx_anomaly_detector, img, *args)
        elif det == 'sam':
            got = c.op('sam', mod.sam, img, t)
        else:
            got = c.op('ace', mod.ace, img, t, *args, **kw)
        c.same(got, want.reshape(img.shape[:-1]), '%s %s' % (what, det), rtol=1e-6, atol=1e-7)
    c.same(src, a, 'caller cube changed')
