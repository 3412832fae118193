"""spectral cubes and slow reference statistics shared by P19 - P21"""
import math

import numpy as np


def cube(shape, dtype='float64', salt=0):
    """well conditioned, position coded values"""
    n = int(np.prod(shape))
    v = [math.sin(1.0 + 12.9898 * (k + 1) + 78.233 * salt) * 43758.5453 for k in range(n)]
    v = np.array([x - math.floor(x) for x in v]).reshape(shape)
    dt = np.dtype(dtype)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        hi = min(int(info.max), 60000)
        lo = max(int(info.min), -30000)
        return (lo + v * (hi - lo)).astype(dt)
    return (v * 100 - 20).astype(dt)


def ref_mean(flat, keep):
    rows = [flat[i] for i in range(len(flat)) if keep[i]]
    return np.array([math.fsum(float(r[b]) for r in rows) / len(rows) for b in range(flat.shape[1])])


def ref_cov(flat, keep):
    m = ref_mean(flat, keep)
    rows = [[float(v) - m[b] for b, v in enumerate(flat[i])] for i in range(len(flat)) if keep[i]]
    nb = flat.shape[1]
    return np.array([[math.fsum(r[a] * r[b] for r in rows) / (len(rows) - 1) for b in range(nb)] for a in range(nb)])


MASKS = ['none', 'one', 'row', 'most', 'first', 'last', 'scattered', 'empty']


def mask_of(kind, ny, nx, nb):
    """True = pixel left out"""
    m = np.zeros((ny, nx), bool)
    if kind == 'one':
        m[ny // 2, nx // 2] = True
    elif kind == 'row':
        m[ny - 1, :] = True
    elif kind == 'first':
        m[0, 0] = True
    elif kind == 'last':
        m[-1, -1] = True
    elif kind == 'scattered':
        m.ravel()[::4] = True
    elif kind == 'most':
        m.ravel()[nb + 3:] = True
    if m.size - m.sum() < nb + 2:
        m[...] = False
        m[0, 0] = m.size > nb + 3
    return m


def mask_as(m, form):
    return {'bool': m, 'int': m.astype(int), 'float': m.astype(float), 'uint8': m.astype('uint8') * 255, 'F': np.asfortranarray(m)}[form]


def big_cube(shape, dt='float64'):
    """like cube, for large images"""
    k = np.arange(shape[0] * shape[1]).reshape(shape[:2])
    a = np.stack([120 + 90 * np.sin(0.7 * (b + 1) * k + b * b) + 15 * np.cos(k * 0.011 * (b + 2)) for b in range(shape[2])], axis=2)
    if np.dtype(dt).kind in 'iu':
        a = np.round(a)
    return a.astype(dt)


def big_mask(kind, shape):
    k = np.arange(shape[0] * shape[1]).reshape(shape[:2])
    return {'none': np.zeros(shape[:2], bool), 'scattered': (k * 7) % 13 == 4, 'half': k >= k.size // 2, 'columns': np.arange(shape[1])[None, :] % 3 + 0 * k == 1}[kind]
