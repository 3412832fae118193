"""mutual information of images and point masks"""
import math

import numpy as np

from mc.core import Check
from mc.util import layout, pattern
from resippy.utils.image_utils import image_mask_utils
from resippy.utils.image_utils.image_registration import MMI

CHECK = Check('P27', 'mutual information and point masks', [
    'images up to 12x11 pixels, 1 to 100 bins; masks of up to 7x6 pixels and all masks of four pixels',
    'for float images with values on bin edges only the bounds are checked'])


def image(kind, shape, salt, dt):
    n = shape[0] * shape[1]
    k = np.arange(n)
    v = {'noise': (k * (37 + 2 * salt) + 11 * salt) % 251, 'ramp': k % 250, 'steps': (k // shape[1]) * 17 % 250, 'binary': ((k * (7 + salt)) % 5 == 0) * 200,
         'constant': np.full(n, 9), 'negative': (k * (29 + salt)) % 97 - 48,
         'large': (k * (31 + salt)) % 89 + (2 ** 27 if np.dtype(dt).itemsize > 2 and dt != 'float32' else 0)}[kind]
    if np.dtype(dt).kind == 'u':
        v = v - min(0, v.min())
    v = v.reshape(shape).astype(dt)
    if np.dtype(dt).kind == 'f':
        v = v * np.dtype(dt).type(0.37) + np.dtype(dt).type(0.013)
    return v


def bin_of(v, lo, hi, n):
    if hi == lo:
        lo, hi = lo - 0.5, hi + 0.5
    return min(int(math.floor((v - lo) / (hi - lo) * n + 1e-9)), n - 1)


def ref(a, b, n):
    a = [float(v) for v in a.ravel()]
    b = [float(v) for v in b.ravel()]
    la, ha, lb, hb = min(a), max(a), min(b), max(b)
    ia = [bin_of(v, la, ha, n) for v in a]
    ib = [bin_of(v, lb, hb, n) for v in b]
    j, h, g = {}, {}, {}
    for x, y in zip(ia, ib):
        j[x, y] = j.get((x, y), 0) + 1
        h[x] = h.get(x, 0) + 1
        g[y] = g.get(y, 0) + 1
    return math.fsum(q * math.log(q / float(h[x] * g[y])) for (x, y), q in j.items())


KINDS = ['noise', 'ramp', 'steps', 'binary', 'constant', 'negative', 'large']


@CHECK.scenario(bound=(2, 3))
def mmi(c):
    """mutual information of image pairs against the sum over the joint histogram by hand; symmetric, highest for equal images"""
    k1 = c.choose('image 1', KINDS)
    k2 = c.choose('image 2', KINDS + ['same', 'shifted', 'inverted'])
    n = c.choose('bins', [None, 16, 2, 1, 7])
    shape = c.vary('shape', [(12, 11), (1, 30), (40, 1), (3, 3), (1, 1)])
    d1 = c.vary('dtype 1', ['uint8', 'float64', 'int16', 'float32', 'uint16'])
    d2 = c.vary('dtype 2', ['uint8', 'float64', 'int16', 'int8' if k2 == 'negative' else 'int32'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    a = image(k1, shape, 1, d1)
    b = a.copy() if k2 == 'same' else np.roll(a, 1, axis=1) if k2 == 'shifted' else (a.max() - a) if k2 == 'inverted' else image(k2, shape, 2, d2)
    args = [] if n is None else [n]
    la, lb = layout(a, lay), layout(b, lay)
    nb = 100 if n is None else n
    # values on bin edges can fall on either side: only what holds for any choice is asked then
    edges = False
    for v in (a, b):
        x = np.unique(v.astype(float))
        lo, hi = x.min(), x.max()
        if hi > lo and v.dtype.kind == 'f':
            f = (x[1:-1] - lo) / (hi - lo) * nb
            edges = edges or bool(np.any(np.abs(f - np.round(f)) < 1e-4))
    got = c.op('mmi', MMI.image_mmi, la, lb, *args)
    total = a.size * math.log(a.size)
    c.require(-total - 1e-6 <= got <= 1e-6, 'mutual information is %s, not between %s and 0', got, -total)
    own = c.op('mmi', MMI.image_mmi, a, a, *args)
    c.require(own >= got - 1e-6, 'an image shares less with itself (%s) than with another one (%s)', own, got)
    if edges:
        return
    want = ref(a, b, nb)
    c.same(float(got), want, 'mutual information', rtol=1e-9, atol=1e-9)
    c.same(la, a, 'caller image changed')
    c.same(lb, b, 'caller image changed')
    back = c.op('mmi', MMI.image_mmi, lb, la, *args)
    c.same(float(back), want, 'mutual information is symmetric', rtol=1e-9, atol=1e-9)
    # the order of the pixels and brightness scaling do not matter
    c.same(float(c.op('mmi', MMI.image_mmi, a[::-1, ::-1].copy(), b[::-1, ::-1].copy(), *args)), want, 'mutual information of turned images', rtol=1e-9, atol=1e-9)
    c.same(float(c.op('mmi', MMI.image_mmi, a.astype(float) * 4.0, b, *args)), ref(a.astype(float) * 4.0, b, nb), 'mutual information of a brighter image', rtol=1e-9, atol=1e-9)


@CHECK.scenario(bound=(9, 9))
def alignment(c):
    """the true offset of a chip scores highest"""
    oy, ox = c.choose('dy', [0, 1, 3]), c.choose('dx', [0, 2, 4])
    inv = c.choose('contrast', ['same', 'inverted', 'scaled'])
    bins = c.choose('bins', [None, 8])
    y, x = np.mgrid[0:14, 0:15]
    big = ((x * x * 7 + y * 13 + x * y * 5) % 61).astype('uint8')
    chip = big[oy:oy + 9, ox:ox + 10]
    chip = {'same': chip, 'inverted': 200 - chip, 'scaled': chip * 1.7 + 3}[inv]
    scores = {(i, j): c.op('mmi', MMI.image_mmi, big[i:i + 9, j:j + 10], chip, *([] if bins is None else [bins])) for i in range(5) for j in range(5)}
    c.require(max(scores, key=scores.get) == (oy, ox), 'offset %s scores highest, the chip is from %s', max(scores, key=scores.get), (oy, ox))


COLOURS = {'#ff0000': (255, 0, 0), '#00FF00': (0, 255, 0), '#0a141e': (10, 20, 30), '#ffffff': (255, 255, 255), '#010000': (1, 0, 0), '#000000': (0, 0, 0)}


@CHECK.scenario(bound=(2, 3))
def masks(c):
    """colour masks against a pixel by pixel comparison"""
    shape = c.choose('shape', [(5, 6), (1, 7), (6, 1), (7, 3)])
    alpha = c.choose('alpha', ['none', 'opaque', 'transparent'])
    points = c.choose('points', ['none', 'corners', 'many', 'all'])
    use = c.choose('colours', [None, ['#ff0000'], list(COLOURS), ['#00FF00', '#0a141e']])
    dt = c.vary('dtype', ['uint8', 'int32', 'float64', 'uint16'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    ny, nx = shape
    a = np.zeros(shape + (3,), dtype=dt)
    pos = {'none': [], 'corners': [(0, 0), (0, nx - 1), (ny - 1, 0), (ny - 1, nx - 1)], 'many': [(k // nx, k % nx) for k in range(0, ny * nx, 2)],
           'all': [(k // nx, k % nx) for k in range(ny * nx)]}[points]
    cols = list(COLOURS.values()) + [(255, 255, 0), (20, 10, 30), (255, 0, 1), (0, 0, 2)]
    for k, (y, x) in enumerate(pos):
        a[y, x] = cols[k % len(cols)]
    if alpha != 'none':
        a = np.concatenate([a, np.full(shape + (1,), 255 if alpha == 'opaque' else 0, dtype=dt)], axis=2)
    src = layout(a, lay)
    pairs = lambda r: sorted(zip([int(v) for v in r[0]], [int(v) for v in r[1]]))
    if use is None:
        got = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, src)
        want = sorted((y, x) for y in range(ny) for x in range(nx) if any(a[y, x, :3] > 0))
        c.require(pairs(got) == want, 'points %s, expected %s', pairs(got), want)
    else:
        got = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, src, {k: 'class ' + k for k in use})
        c.require(set(got) == {'class ' + k for k in use}, 'classes %s', sorted(got))
        for k in use:
            want = sorted((y, x) for y in range(ny) for x in range(nx) if tuple(int(v) for v in a[y, x, :3]) == COLOURS[k])
            c.require(pairs(got['class ' + k]) == want, 'points of %s are %s, expected %s', k, pairs(got['class ' + k]), want)
    c.same(src, a, 'caller image changed')


@CHECK.scenario(bound=(9, 9))
def every_mask(c):
    """all masks of 2x2 pixels with four colours"""
    v = [c.choose('pixel %d' % k, [(0, 0, 0), (255, 0, 0), (0, 0, 1), (255, 255, 255)]) for k in range(4)]
    a = np.array(v, dtype='uint8').reshape(2, 2, 3)
    y, x = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, a)
    c.require(sorted(2 * y + x) == [k for k in range(4) if v[k] != (0, 0, 0)], 'points %s %s', y, x)
    got = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, a, {'#ff0000': 1, '#000001': 'blue'})
    for key, col in ((1, (255, 0, 0)), ('blue', (0, 0, 1))):
        y, x = got[key]
        c.require(sorted(2 * y + x) == [k for k in range(4) if v[k] == col], 'points of %s: %s %s', col, y, x)


@CHECK.scenario(bound=(9, 9))
def large(c):
    """images of tens of thousands of pixels"""
    shape = c.choose('shape', [(300, 257), (1, 70001), (1100, 7)])
    k1, k2 = c.choose('image 1', ['noise', 'ramp', 'steps']), c.choose('image 2', ['noise', 'binary', 'same', 'constant'])
    n = c.choose('bins', [None, 16, 256])
    a = image(k1, shape, 1, 'int32')
    b = a.copy() if k2 == 'same' else image(k2, shape, 2, 'uint8')
    got = c.op('mmi', MMI.image_mmi, a, b, *([] if n is None else [n]))
    c.same(float(got), ref(a, b, 100 if n is None else n), 'mutual information', rtol=1e-9, atol=1e-6)
    m = np.zeros(shape + (3,), 'uint8')
    k = np.arange(a.size).reshape(shape)
    m[(k * 7) % 31 == 3] = (255, 0, 0)
    m[(k * 11) % 37 == 5] = (0, 0, 1)
    y, x = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, m)
    q = np.zeros(shape, int)
    np.add.at(q, (y, x), 1)
    c.same(q, m.any(axis=2).astype(int), 'points of the mask')
    r = c.op('mask', image_mask_utils.rgb_image_point_mask_to_pixel_locations, m, {'#ff0000': 'red', '#000001': 'blue'})
    for key, ch in (('red', 0), ('blue', 2)):
        q = np.zeros(shape, int)
        np.add.at(q, tuple(r[key]), 1)
        c.same(q, (m[:, :, ch] > 0).astype(int), 'points of ' + key)
