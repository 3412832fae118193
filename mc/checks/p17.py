"""image chipping"""
import math
import os

import imageio
import numpy as np

from mc.core import Check
from mc.util import layout, pattern
from resippy.utils.image_utils import image_chipper

CHECK = Check('P17', 'image chips', [
    'images up to 17x20 pixels and 7 bands, chips up to the size of the image (chips larger than the image are not claimed), windows on and off the image',
    'imageio is trusted to read chip files back'])


class Ledger(object):
    """progress listener"""

    def __init__(self):
        self.seen = []

    def set_status(self, *a):
        self.seen.append(a)


def band_list(bands, n):
    if bands is None:
        return list(range(n))
    return [int(bands)] if np.ndim(bands) == 0 else [int(b) for b in bands]


def check_chips(c, chips, uls, img, want_uls, cy, cx, bands, what):
    gray = img.ndim == 2
    a = img if not gray else img[:, :, None]
    bl = band_list(bands, a.shape[2])
    c.require([(int(p[0]), int(p[1])) for p in uls] == want_uls, '%s: upper lefts %s, expected %s', what, uls, want_uls)
    sh = (len(want_uls), cy, cx) + (() if gray or len(bl) == 1 else (len(bl),))
    c.require(chips.shape == sh, '%s: chips are %s, expected %s', what, chips.shape, sh)
    want = np.stack([a[y:y + cy, x:x + cx][:, :, bl] for y, x in want_uls]).reshape(sh)
    c.same(chips, want, what, dtype=img.dtype)
    c.require(image_chipper.get_nchips(chips) == len(want_uls), '%s: number of chips', what)


def starts(n, size, overlap):
    step = size - overlap
    k = math.ceil((n - size) / step) + 1
    return [min(i * step, n - size) for i in range(k)]


@CHECK.scenario(bound=(2, 3))
def whole_image(c):
    """the chips that tile an image cover every pixel with the value of that pixel"""
    ny = c.choose('ny', [7, 16, 1])
    nx = c.choose('nx', [6, 20, 1])
    cy = c.choose('chip ny', [k for k in (4, 1, 5, 8, 7, ny) if k <= ny])
    cx = c.choose('chip nx', [k for k in (3, 1, 6, 5, nx) if k <= nx])
    oy = c.choose('overlap y', [k for k in (0, 1, 2, cy - 1) if 0 <= k < cy])
    ox = c.choose('overlap x', [k for k in (0, 1, 3, cx - 1) if 0 <= k < cx])
    kind = c.vary('image', ['rgb', 'gray', 'single', 'seven'])
    dt = c.vary('dtype', ['uint8', 'float32', 'int16', 'bool', 'complex64', 'uint64'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    sh = {'rgb': (ny, nx, 3), 'gray': (ny, nx), 'single': (ny, nx, 1), 'seven': (ny, nx, 7)}[kind]
    bands = c.vary('bands', {'rgb': [None, 2, [1], [2, 0], (0, 1), [1, 1, 0], [1, 1], np.array([0, 2])], 'gray': [None, 0],
                             'single': [None, 0, [0]], 'seven': [None, [6, 3, 5], 4]}[kind])
    keep = c.vary('bounds', [True, False])
    img = pattern(sh, dt)
    copy = img.copy()
    src = layout(img, lay)
    chips, uls = c.op('chip', image_chipper.chip_entire_image_to_memory, src, cy, cx, oy, ox, bands, keep)
    want = [(y, x) for y in starts(ny, cy, oy) for x in starts(nx, cx, ox)]
    check_chips(c, chips, uls, img, want, cy, cx, bands, 'chips of the whole image')
    seen = np.zeros((ny, nx), int)
    for y, x in uls:
        seen[y:y + cy, x:x + cx] += 1
    c.require(seen.min() > 0, 'image positions in no chip: %s', np.argwhere(seen == 0)[:3].tolist())
    c.same(src, copy, 'caller image changed')
    if chips.size and chips.dtype.kind != 'b':
        chips[...] = 1
        c.same(src, copy, 'chips share memory with the image')


@CHECK.scenario(bound=(2, 3))
def windows(c):
    """chips at given corners or centres; windows off the image move onto it"""
    how = c.choose('by', ['corner', 'centre'])
    ny, nx = c.choose('size', [(9, 12), (5, 5), (4, 11)])
    cy = c.choose('chip ny', [k for k in (4, 3, ny, 1) if k <= ny])
    cx = c.choose('chip nx', [k for k in (4, 5, nx, 2) if k <= nx])
    pts = c.choose('points', ['inside', 'edges', 'outside', 'single', 'many', 'none'])
    cont = c.vary('container', ['list', 'array', 'tuple', 'float'] if how == 'centre' else ['list', 'array', 'tuple'])
    kind = c.vary('image', ['rgb', 'gray', 'single'])
    bands = c.vary('bands', {'rgb': [None, 1, [2, 0], [0], [2, 2]], 'gray': [None, 0], 'single': [None, 0]}[kind])
    led = c.vary('listener', [False, True])
    dt = c.vary('dtype', ['uint8', 'float64', 'uint16'])
    ys, xs = {'inside': ([ny // 2, ny // 2 - 1, ny // 2], [nx // 2, nx // 2, nx // 2 - 1]),
              'edges': ([0, ny - 1, 0, ny - 1], [0, nx - 1, nx - 1, 0]),
              'outside': ([-1, ny, -7, ny + 5, 2], [nx + 3, -2, -9, nx, -1]),
              'single': ([1], [2]),
              'many': ([y for y in range(-2, ny + 2, 2) for x in range(-2, nx + 2, 3)], [x for y in range(-2, ny + 2, 2) for x in range(-2, nx + 2, 3)]),
              'none': ([], [])}[pts]
    if pts == 'none' and how == 'centre':
        ys, xs = [2], [2]
    if cont == 'float' and pts != 'none' and c.vary('fraction of centres', [False, True]):
        ys, xs = [y + (0.5, 0.25, 0.75)[k % 3] for k, y in enumerate(ys)], [x + (0.75, 0.5, 0.25, 0.0)[k % 4] for k, x in enumerate(xs)]
    img = pattern((ny, nx) if kind == 'gray' else (ny, nx, 3 if kind == 'rgb' else 1), dt)
    conv = {'list': list, 'array': lambda v: np.array(v, dtype=int), 'tuple': tuple, 'float': lambda v: np.array(v, dtype=float)}[cont]
    if pts == 'none':
        conv = lambda v: np.array(v, dtype=int)
    py, px = conv(ys), conv(xs)
    fn = image_chipper.chip_images_by_pixel_upper_lefts if how == 'corner' else image_chipper.chip_images_by_pixel_centers
    ledger = Ledger() if led else None
    chips, uls = c.op('chip', fn, img, py, px, cy, cx, bands, True, ledger)
    clip = lambda v, n, k: min(max(v, 0), n - k)
    if how == 'corner':
        want = [(clip(y, ny, cy), clip(x, nx, cx)) for y, x in zip(ys, xs)]
    else:
        c.require(len(uls) == len(ys), '%d chips for %d centres', len(uls), len(ys))
        want = [(int(a), int(b)) for a, b in uls]
        for (a, b), y, x in zip(want, ys, xs):
            c.require(0 <= a <= ny - cy and 0 <= b <= nx - cx, 'chip at %s reaches out of the image', (a, b))
            for v, n, k, s in ((y, ny, cy, a), (x, nx, cx, b)):
                # as close as the image allows, within one pixel of the exact centring
                lo = clip(math.floor(v - k / 2.0), n, k)
                hi = clip(math.ceil(v - k / 2.0), n, k)
                c.require(lo <= s <= hi, 'a chip of %d pixels for centre %s starts at %s', k, v, s)
    if want:
        check_chips(c, chips, uls, img, want, cy, cx, bands, 'chips at %ss' % how)
    else:
        c.require(len(chips) == 0 and len(uls) == 0, 'chips without positions')
    c.same(np.array(py), np.array(ys), 'caller positions changed')
    c.same(np.array(px), np.array(xs), 'caller positions changed')


@CHECK.scenario(bound=(2, 3))
def files(c):
    """chip files hold the chips, in order, under the names asked for"""
    kind = c.choose('chips', ['gray', 'rgb', 'rgba'])
    fmt = c.choose('format', ['png', '.png', 'tif', '.tif'])
    names = c.choose('names', ['default', 'base', 'list'])
    alpha = c.choose('remove alpha', [True, False])
    n = c.vary('count', [3, 1, 0, 12, 130])
    size = c.vary('size', [(5, 4), (4, 4), (7, 3), (3, 5)])
    dt = c.vary('dtype', ['uint8'] if 'png' in fmt else ['uint8', 'uint16', 'float32'])
    led = c.vary('listener', [False, True])
    out = c.vary('resize', [None, (6, 9), (size[1], size[0]), (size[0], 9), (6, size[1])]) if dt == 'uint8' else None
    chips = pattern((n,) + size + {'gray': (), 'rgb': (3,), 'rgba': (4,)}[kind], dt) if n else np.zeros((0,) + size, dt)
    if np.dtype(dt).kind == 'f':
        chips = np.round(chips % 1000, 1).astype(dt)
    if out:
        # a chip of one value stays that value at every size
        chips = np.stack([np.full(chips.shape[1:], (10 + 20 * i) % 251, dt) for i in range(n)]) if n else chips
        if kind == 'rgba':
            chips[..., 3] = 255       # colours of translucent pixels are not kept by a resize
    keep = chips.copy()
    d = os.path.join(c.dir(), 'chips_7')
    os.mkdir(d)
    kw = {}
    stem = ['chips_7_%08d' % i for i in range(n)]
    if names == 'base':
        kw['base_chip_fname'] = 'part.1'
        stem = ['part.1_%08d' % i for i in range(n)]
    elif names == 'list':
        kw['fnames_list'] = stem = ['scene-%d.%d' % (n - i, i) for i in range(n)]
    if out:
        kw.update(output_chip_ny=out[0], output_chip_nx=out[1])
    c.op('write', image_chipper.write_chips_to_disk, chips, d, remove_alpha=alpha, output_format=fmt,
         atk_chain_ledger=Ledger() if led else None, **kw)
    ext = '.' + fmt.strip('.')
    c.require(sorted(os.listdir(d)) == sorted(s + ext for s in stem), 'files %s, expected %s', sorted(os.listdir(d)), stem)
    for i, s in enumerate(stem):
        got = np.array(imageio.imread(os.path.join(d, s + ext)))
        want = keep[i][:, :, :3] if kind == 'rgba' and alpha else keep[i]
        if out:
            want = np.broadcast_to(want[0, 0], out + want.shape[2:])
        c.same(got, want, 'chip file %d' % i, dtype=dt)
    c.same(chips, keep, 'caller chips changed')


@CHECK.scenario(bound=(9, 9))
def many_files(c):
    """more than ten thousand chips written to one folder"""
    fmt = c.choose('format', ['png', 'tif'])
    n = 10003
    chips = (np.arange(n)[:, None, None] * 7 + np.arange(2)[:, None] * 3 + np.arange(2)) .astype('uint8')
    d = os.path.join(c.dir(), 'chips')
    os.mkdir(d)
    c.op('write', image_chipper.write_chips_to_disk, chips, d, output_format=fmt)
    c.require(set(os.listdir(d)) == set('chips_%08d.%s' % (i, fmt) for i in range(n)), '%d files', len(os.listdir(d)))
    for i in (0, 1, 9, 99, 100, 999, 1000, 9999, 10000, n - 1):
        c.same(np.array(imageio.imread(os.path.join(d, 'chips_%08d.%s' % (i, fmt)))), chips[i], 'chip file %d' % i, dtype='uint8')


@CHECK.scenario(bound=(9, 9))
def large(c):
    """large images and many chips"""
    size, chip, over = c.choose('layout', [((700, 900), (32, 32), (0, 0)), ((1030, 520), (256, 256), (16, 0)), ((300, 2050), (64, 128), (7, 100)), ((270, 261), (5, 6), (1, 2)), ((2, 1500), (2, 3), (0, 0)), ((1300, 3), (2, 3), (1, 0))])
    kind = c.choose('image', ['gray', 'rgb'])
    bands = c.choose('bands', [None, 0] + ([[2, 1]] if kind == 'rgb' else []))
    led = c.choose('listener', [False, True])
    j, i = np.mgrid[0:size[0], 0:size[1]]
    img = (j * 37 + i * 11 + (i * j) % 251).astype('int32')
    if kind == 'rgb':
        img = np.stack([img, img * 3 + 1, img * 7 + 2], axis=2)
    keep = img.copy()
    want = [(y, x) for y in starts(size[0], chip[0], over[0]) for x in starts(size[1], chip[1], over[1])]
    chips, uls = c.op('chip', image_chipper.chip_entire_image_to_memory, img, chip[0], chip[1], over[0], over[1], bands, True)
    check_chips(c, chips, uls, img, want, chip[0], chip[1], bands, 'chips of a large image')
    k = np.arange(1100)
    py, px = np.floor((k * 0.6180339887498949 % 1.0) * (size[0] + 40) - 20).astype(int), np.floor((k * 0.7548776662466927 % 1.0) * (size[1] + 40) - 20).astype(int)
    py, px = py[:, None].ravel(), px
    cy, cx = min(chip[0], 40), min(chip[1], 30)
    chips, uls = c.op('chip', image_chipper.chip_images_by_pixel_upper_lefts, img, py, px, cy, cx, bands, True, Ledger() if led else None)
    want = list(zip(np.clip(py, 0, size[0] - cy).tolist(), np.clip(px, 0, size[1] - cx).tolist()))
    check_chips(c, chips, uls, img, want, cy, cx, bands, 'many chips')
    c.same(img, keep, 'caller image changed')
