"""helpers shared by the checks: bounded alphabets and tiny reference models"""
import math

import numpy as np
from pyproj import Proj

INT_TYPES = [np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64, np.int64]
FLOAT_TYPES = [np.float32, np.float64]
COMPLEX_TYPES = [np.complex64, np.complex128]


def name(dt):
    return np.dtype(dt).name


def pattern(shape, dtype, salt=0):
    """position coded raster: neighbours differ along every axis, extremes of the type included"""
    dt = np.dtype(dtype)
    n = int(np.prod(shape))
    idx = np.indices(shape).reshape(len(shape), -1)
    mult = [101, 7, 53, 19][:len(shape)]
    v = np.zeros(n, dtype=np.int64) + salt * 29
    for m, ix in zip(mult, idx):
        v = v + m * ix + (ix * ix) % 13
    if dt.kind == 'f':
        out = (v % 9973).astype(dt) / dt.type(7) - dt.type(300)
        if n > 3:
            out[1] = np.finfo(dt).max
            out[2] = -np.finfo(dt).tiny
    elif dt.kind == 'c':
        out = (v % 997).astype(dt) / dt.type(7) - dt.type(30) + dt.type(1j) * ((v * 3) % 991).astype(dt)
    elif dt.kind == 'b':
        out = (v % 3) == 0
    else:
        info = np.iinfo(dt)
        span = int(info.max) - int(info.min)
        w = [int(info.min) + (int(x) * 2654435761 >> 3) % (span + 1) if info.bits > 16 else
             int(info.min) + int(x) % (span + 1) for x in v]
        if n > 2:
            w[0] = int(info.max)
            w[-1] = int(info.min)
        out = np.array(w, dtype=dt)
    return out.reshape(shape)


UTM18N = '+proj=utm +zone=18 +datum=WGS84 +units=m +no_defs'
UTM33S = '+proj=utm +zone=33 +south +datum=WGS84 +units=m +no_defs'
MERC = '+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +units=m +nadgrids=@null +wktext +no_defs'
TMERC = '+proj=tmerc +lat_0=10 +lon_0=-77.25 +k=0.9999 +x_0=250000 +y_0=-1000 +datum=WGS84 +units=m +no_defs'
LONLAT = '+proj=longlat +datum=WGS84 +no_defs'
PROJS = {'utm18n': UTM18N, 'utm33s': UTM33S, 'tmerc': TMERC, 'lonlat': LONLAT, 'merc': MERC}


def proj(key):
    return Proj(PROJS[key], preserve_units=True)


def layouts(a):
    """the same values in different memory layouts"""
    out = {'C': np.ascontiguousarray(a), 'F': np.asfortranarray(a)}
    big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
    sl = tuple(slice(None, None, 2) for _ in a.shape)
    big[sl] = a
    out['strided'] = big[sl]
    out['reversed'] = np.ascontiguousarray(a[::-1])[::-1]
    return out


def layout(a, kind):
    return layouts(a)[kind]
