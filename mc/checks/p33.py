"""scoring the chips of an image with a model"""
import math
import sys
import types

import numpy as np

from mc.core import Check
from mc.util import layout, pattern

CHECK = Check('P33', 'scoring of image chips', [
    'keras is not installed: its two names used here (img_to_array, Model) are replaced by stand-ins, the model is a recording one',
    'images of up to 21 x 17 pixels; chips that are resized are constant'])


def keras():
    """img_to_array as documented: a float32 array (ny, nx, bands)"""
    if 'keras' in sys.modules:
        return
    mods = {n: types.ModuleType(n) for n in ('keras', 'keras.preprocessing', 'keras.preprocessing.image', 'keras.models')}
    for n, m in mods.items():
        sys.modules[n] = m
        if '.' in n:
            setattr(mods[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], m)

    def img_to_array(img, data_format=None, dtype='float32'):
        x = np.asarray(img, dtype=dtype)
        return x.copy() if x.ndim == 3 else x[:, :, None].copy()
    mods['keras.preprocessing.image'].img_to_array = img_to_array
    mods['keras.models'].Model = type('Model', (), {})


keras()
try:
    from resippy.image_recognition.neural_net_model_scoring.keras_image_scoring import chip_and_score_image
    IMPORT_ERROR = None
except Exception as e:       # reported as a violation by every execution
    chip_and_score_image, IMPORT_ERROR = None, e


class Model:
    def __init__(self, n):
        self.n, self.seen = n, []

    def predict(self, batch, *a, **k):
        out = []
        for chip in np.array(batch):        # one row of scores for each chip of the batch
            self.seen.append(chip)
            s = float(np.sum(chip * np.arange(1, chip.size + 1).reshape(chip.shape)))
            out.append([s * (j + 1) + j for j in range(self.n)])
        return np.array(out)


class Ledger:
    def __init__(self):
        self.said = []

    def set_status(self, text, percent):
        self.said.append(percent)


def starts(n, size, overlap):
    step = size - overlap
    return [min(i * step, n - size) for i in range(math.ceil((n - size) / step) + 1)]


@CHECK.scenario(bound=(2, 3))
def scores(c):
    """chips of every type scored against the formulas; caller arrays stay"""
    c.require(IMPORT_ERROR is None, 'import failed: %s', IMPORT_ERROR)
    ny, nx = c.choose('image size', [(9, 12), (8, 8), (17, 21), (8, 13)])
    cy, cx = c.choose('chip size', [(8, 8), (4, 6), (5, 3), (8, 4)])
    bands = c.choose('bands', [3, 4])
    oy = c.vary('overlap y', [0.5, 0.0, 0.25, 0.8])
    ox = c.vary('overlap x', [0.5, 0.0, 0.25, 0.8])
    norm = c.vary('normalization', ['divide_by_255', 'min_max_per_chip', 'none'])
    ncl = c.vary('classes', [3, 1, 2])
    find = c.vary('find', [None, 'first', 'last', 'labels only'])
    led = c.vary('ledger', [False, True])
    target = c.vary('target size', ['chip', 'default', 'other'])
    defaults = c.vary('overlaps by default', [False, True])
    lay = c.vary('layout', ['C', 'F', 'strided'])
    if defaults and (oy, ox) != (0.5, 0.5):
        return
    img = pattern((ny, nx, bands), 'uint8')
    dark = c.vary('dark', [None, 'first', 'middle', 'all', 'zeros and ones'])
    if dark == 'zeros and ones':
        if target != 'chip':
            return
        # each chip has both
        img = (img // 3) % 2
        dark = None
    if target == 'chip' and norm != 'min_max_per_chip':
        # chips which are entirely black
        if dark == 'middle':
            img[ny - cy - 1:, :cx + 1] = 0
        elif dark:
            img[:cy if dark == 'first' else ny, :cx if dark == 'first' else nx] = 0
    if target != 'chip':
        img[:, :, :] = np.array([10, 200, 77, 255], 'uint8')[:bands]
    src = layout(img, lay)
    keep = src.copy()
    names = c.vary('names', [['cat', 'dog', 'boat'], ['cat', 'Cat', 'CAT'], ['cat', 'tomcat', 'at'], ['boat', ' boat', 'boat ']])[:ncl]
    kw = {} if defaults else dict(image_overlap_x_percent=ox, image_overlap_y_percent=oy)
    ty, tx = cy, cx
    if target == 'chip':
        kw.update(target_chip_size_x=cx, target_chip_size_y=cy)
    elif target == 'other':
        ty, tx = 7, 11
        kw.update(target_chip_size_x=tx, target_chip_size_y=ty)
    else:
        ty = tx = 224
    if norm != 'divide_by_255':
        kw['normalize_method'] = norm
    thing = None
    if find:
        kw['labels'] = list(names)
        if find != 'labels only':
            thing = names[0] if find == 'first' else names[-1]
            kw['thing_to_find'] = thing
    ledger = Ledger() if led else None
    if led:
        kw['atk_chain_ledger'] = ledger
    m = Model(ncl)
    got, uls = c.op('score', chip_and_score_image, src, m, cx, cy, **kw)
    c.same(src, keep, 'image changed')
    want_ul = [(y, x) for y in starts(ny, cy, int(cy * oy)) for x in starts(nx, cx, int(cx * ox))]
    uls = [(int(a), int(b)) for a, b in uls]
    c.require(uls == want_ul, 'upper lefts %s, expected %s', uls, want_ul)
    c.require(len(m.seen) == len(uls), 'the model was asked %d times for %d chips', len(m.seen), len(uls))
    ref = Model(ncl)
    want = []
    for (y, x), s in zip(uls, m.seen):
        chip = img[y:y + cy, x:x + cx, :3].astype(np.float32)
        if target != 'chip':
            chip = np.zeros((ty, tx, 3), np.float32) + chip[0, 0]
        if norm == 'divide_by_255':
            chip = chip / np.float32(255)
        elif norm == 'min_max_per_chip':
            chip = (chip - chip.min()) / (chip.max() - chip.min())
        c.require(s.shape == chip.shape, 'the model was given %s, not %s', s.shape, chip.shape)
        c.same(s, chip, 'chip at %s given to the model' % ((y, x),), rtol=1e-6, atol=1e-6)
        want.append(ref.predict(s[None])[0])
    want = np.array(want)
    if thing is not None:
        c.same(np.asarray(got), want[:, names.index(thing)], 'scores of %s' % thing, rtol=1e-12)
    else:
        c.same(np.asarray(got).reshape(want.shape), want, 'scores', rtol=1e-12)
    if led:
        c.require(all(a <= b for a, b in zip(ledger.said, ledger.said[1:])) and all(0 <= a <= 100 for a in ledger.said),
                  'progress %s', ledger.said)


@CHECK.scenario(bound=(9, 9))
def many_chips(c):
    """thousands of chips: each is scored once, in order"""
    c.require(IMPORT_ERROR is None, 'import failed: %s', IMPORT_ERROR)
    size, chip, over = c.choose('layout', [((70, 66), (5, 7), (0.5, 0.2)), ((300, 33), (16, 8), (0.0, 0.5)), ((40, 41), (4, 4), (0.8, 0.8))])
    find = c.choose('find', [None, 'dog'])
    j, i, b = np.ogrid[0:size[0], 0:size[1], 0:3]
    img = ((j * 37 + i * 11 + b * 5 + (i * j) % 97) % 251).astype('uint8')
    m = Model(2)
    kw = {} if find is None else dict(labels=['cat', 'dog'], thing_to_find=find)
    got, uls = c.op('score', chip_and_score_image, img, m, chip[1], chip[0], image_overlap_x_percent=over[1], image_overlap_y_percent=over[0],
                    target_chip_size_x=chip[1], target_chip_size_y=chip[0], **kw)
    want = [(y, x) for y in starts(size[0], chip[0], int(chip[0] * over[0])) for x in starts(size[1], chip[1], int(chip[1] * over[1]))]
    c.require([(int(a), int(q)) for a, q in uls] == want and len(m.seen) == len(want), 'chips')
    chips = [img[y:y + chip[0], x:x + chip[1]].astype(np.float32) / np.float32(255) for y, x in want]
    s = np.array([Model(2).predict(v[None])[0] for v in chips])
    c.same(np.asarray(got), s if find is None else s[:, 1], 'scores', rtol=1e-6)
