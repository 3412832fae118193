"""covariance equalization and principal components"""
import math

import numpy as np

from mc.core import Check
from mc.spec import MASKS, big_cube, big_mask, cube, mask_as, mask_of, ref_cov, ref_mean
from mc.util import layout
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2

CHECK = Check('P21', 'covariance equalization and PCA', [
    'cubes up to 7x6 pixels and 5 bands with well conditioned covariance; an eigenvector decomposition of the reference covariance is the oracle'])

SHAPES = [(5, 4, 3), (1, 12, 2), (9, 2, 4), (7, 6, 5), (3, 4, 1)]


def power(m, p):
    w, v = np.linalg.eigh(m)
    return (v * w ** p) @ v.T


def flatten(a):
    return a.reshape(-1, a.shape[2])


@CHECK.scenario(bound=(2, 3))
def equalization(c):
    """covariance equalization: the transform carries the covariance of one image (under its mask) to that of the other"""
    sh = c.choose('shape', SHAPES)
    sh2 = c.choose('other shape', ['same', 'larger', 'one row'])
    ny, nx, nb = sh
    other = {'same': sh, 'larger': (ny + 2, nx + 3, nb), 'one row': (1, 14, nb)}[sh2]
    mk1 = c.choose('mask 1', ['none', 'one', 'scattered'])
    mk2 = c.choose('mask 2', ['none', 'last', 'most'])
    form = c.vary('mask form', ['bool', 'int', 'float', 'F'])
    dt = c.vary('dtype', ['float64', 'float32'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    corr = c.vary('correlation', [0.0, 0.8])
    mix = np.eye(nb) + corr * np.tri(nb, nb, -1)
    u1, u2 = c.vary('units', [(1.0, 1.0), (2.0 ** -17, 2.0 ** -17), (2.0 ** 17, 2.0 ** -10), (2.0 ** -14, 2.0 ** 16)])
    a = (cube(sh, salt=1) @ mix * u1).astype(dt)
    b = (cube(other, salt=2) @ mix.T * 1.7 * u2).astype(dt)
    m1, m2 = mask_of(mk1, *sh), mask_of(mk2, *other)
    k1 = ~m1.ravel() if mk1 != 'none' else np.ones(m1.size, bool)
    k2 = ~m2.ravel() if mk2 != 'none' else np.ones(m2.size, bool)
    g1 = None if mk1 == 'none' else mask_as(m1, form)
    g2 = None if mk2 == 'none' else mask_as(m2, form)
    a = (a - ref_mean(flatten(a), k1)).astype(dt)
    b = (b - ref_mean(flatten(b), k2)).astype(dt)
    cov1, cov2 = ref_cov(flatten(a), k1), ref_cov(flatten(b), k2)
    L = power(cov2, 0.5) @ power(cov1, -0.5)
    la, lb = layout(a, lay), layout(b, lay)
    tol = 1e-7 if dt == 'float64' else 2e-3
    got = c.op('transform', s2.compute_cov_eq_linear_transform_matrix, la, lb, g1, g2)
    c.same(got, L, '2d transform', rtol=tol, atol=tol * abs(L).max())
    f = lambda m: None if m is None else np.array(m).reshape(-1)
    got = c.op('transform', s1.compute_cov_eq_linear_transform_matrix, flatten(a), flatten(b), f(g1), f(g2))
    c.same(got, L, '1d transform', rtol=tol, atol=tol * abs(L).max())
    want = flatten(a).astype(float) @ L.T
    q = c.op('equalize', s2.covariance_equalization_mean_centered, la, lb, g1, g2)
    c.same(q, want.reshape(sh), '2d equalized scene', rtol=tol, atol=tol * abs(want).max())
    q1 = c.op('equalize', s1.covariance_equalization_mean_centered, flatten(a), flatten(b), f(g1), f(g2))
    c.same(q1, want, '1d equalized scene', rtol=tol, atol=tol * abs(want).max())
    # the equalized scene has the statistics of the other scene
    eq = np.asarray(np.ma.getdata(q)).reshape(-1, nb)
    c.same(ref_cov(eq, k1), cov2, 'covariance of the equalized scene', rtol=10 * tol, atol=10 * tol * abs(cov2).max())
    c.same(ref_mean(eq, k1), np.zeros(nb), 'mean of the equalized scene', atol=(1e-3 if dt == 'float32' else 1e-8) * u2)
    c.same(la, a, 'caller scene changed')
    c.same(lb, b, 'caller scene changed')


@CHECK.scenario(bound=(2, 3))
def pca(c):
    """components are the projections on the eigenvectors by falling variance, also whitened; caller cube stays"""
    sh = c.choose('shape', SHAPES)
    k = c.choose('components', [None, 1, 2, 3])
    white = c.choose('whiten', [False, True])
    dt = c.choose('dtype', ['float64', 'float32', 'uint8', 'int16'])
    lay = c.vary('layout', ['C', 'F', 'strided', 'reversed'])
    corr = c.vary('correlation', [0.0, 0.8])
    ny, nx, nb = sh
    if k is not None and k > nb:
        k = nb
    a = cube(sh, dt, salt=5)
    if corr and a.dtype.kind == 'f':
        a = (a @ (np.eye(nb) + corr * np.tri(nb, nb, -1))).astype(dt)
    if dt == 'float64':
        a *= c.vary('unit', [1.0, 2.0 ** -17, 2.0 ** 17])
    src = layout(a, lay)
    kw = {'whiten': True} if white else {}
    got = c.op('pca', s2.compute_image_cube_pca, src, k, **kw)
    c.same(src, a, 'caller cube changed')
    flat = flatten(a).astype(float)
    keep = [True] * (ny * nx)
    w, v = np.linalg.eigh(ref_cov(flat, keep))
    w, v = w[::-1], v[:, ::-1]
    n = nb if k is None else k
    c.require(got.shape == (ny, nx, n), 'shape %s', got.shape)
    want = (flat - ref_mean(flat, keep)) @ v[:, :n]
    if white:
        want = want / np.sqrt(w[:n])
    tol = 1e-8 if dt != 'float32' else 2e-3
    for j in range(n):
        g = got[:, :, j].ravel()
        s = 1.0 if np.dot(g, want[:, j]) >= 0 else -1.0
        c.same(g * s, want[:, j], 'component %d' % j, rtol=tol, atol=tol * 10 * abs(want[:, j]).max())


@CHECK.scenario(bound=(9, 9))
def large(c):
    """images of tens of thousands of pixels"""
    shape = c.choose('shape', [(300, 257, 3), (1, 70001, 2), (1100, 4, 5), (33, 32, 12)])
    what = c.choose('operation', ['equalization', 'pca', 'whitened'])
    mk = c.choose('mask', ['none', 'scattered', 'half']) if what == 'equalization' else 'none'
    ny, nx, nb = shape
    a = big_cube(shape)
    m = big_mask(mk, shape)
    v = flatten(a)
    stat = lambda f: (f.mean(0), (f - f.mean(0)).T @ (f - f.mean(0)) / (len(f) - 1))
    if what == 'equalization':
        b = big_cube((40, 41, nb))[::-1] * 1.7 + big_cube((40, 41, nb))[:, ::-1] * 0.3
        b = b - b.reshape(-1, nb).mean(0)
        a = a - v[~m.ravel()].mean(0)
        v = flatten(a)
        L = power(stat(flatten(b))[1], 0.5) @ power(stat(v[~m.ravel()])[1], -0.5)
        g = None if mk == 'none' else m
        got = c.op('equalize', s2.covariance_equalization_mean_centered, a, b, g, None)
        want = v @ L.T
        c.same(np.ma.getdata(got), want.reshape(shape), 'equalized scene', rtol=1e-6, atol=1e-6 * abs(want).max())
        got = c.op('equalize', s1.covariance_equalization_mean_centered, v, flatten(b), None if g is None else g.ravel(), None)
        c.same(np.ma.getdata(got), want, 'equalized samples', rtol=1e-6, atol=1e-6 * abs(want).max())
        return
    n = c.choose('components', [None, 2])
    got = c.op('pca', s2.compute_image_cube_pca, a, n, **({'whiten': True} if what == 'whitened' else {}))
    n = n or nb
    c.require(got.shape == (ny, nx, n), 'shape %s', got.shape)
    mean, cov = stat(v)
    g = got.reshape(-1, n)
    w = np.linalg.eigvalsh(cov)[::-1]
    gm, gc = stat(g)
    c.same(gm, np.zeros(n), 'mean of the components', atol=1e-6 * math.sqrt(w[0]))
    c.same(gc, np.eye(n) if what == 'whitened' else np.diag(w[:n]), 'covariance of the components', rtol=1e-6, atol=1e-6 * (1 if what == 'whitened' else w[0]))
    # every component is one linear function of the spectrum
    d = v - mean
    q = np.linalg.solve(cov, d.T @ g / (len(d) - 1))
    c.same(g, d @ q, 'components are linear in the spectra', atol=1e-6 * abs(g).max())
