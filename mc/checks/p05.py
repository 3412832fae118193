"""rotation matrices, their inverse problem, boresight offsets"""
import math

import numpy as np

from mc import zoo
from mc.core import Check
from resippy.utils import photogrammetry_utils as pu
from resippy.utils import pix4d_utils
from resippy.utils.units import ureg

CHECK = Check('P05', 'rotation conventions', [
    'angles from a grid that contains 0, quadrant boundaries, +-pi and values a rounding error away from them',
    'recovery of angles from a matrix is required for pitch strictly inside +-90 degrees'])

H = math.pi / 2
ANG = [0.0, 0.3, -0.3, 1e-9, H, -H, 2.0, -2.5, math.pi, -math.pi + 1e-6, 5.0]
PH = [0.0, 0.2, -0.2, 1e-9, 1.2, -1.5, H - 1e-3, -1e-7, 2e-5 - H, H - 1e-4]
ORDERS = ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr']


def wrap(a):
    return math.remainder(a, 2 * math.pi)


@CHECK.scenario(bound=(9, 9))
def matrices(c):
    """matrix of angles on a grid over all quadrants against the product of three axis rotations"""
    om = c.choose('omega', ANG)
    ph = c.choose('phi', ANG)
    ka = c.choose('kappa', ANG)
    for order in ORDERS + [None]:
        kw = {} if order is None else {'order': order}
        m = c.op('matrix', pu.create_M_matrix, om, ph, ka, **kw)
        c.same(m, np.array(zoo.m_matrix(om, ph, ka, order or 'rpy')), 'matrix, order %s' % order, atol=1e-12)
        c.same(m @ m.T, np.eye(3), 'orthonormal, order %s' % order, atol=1e-12)
        c.same(np.linalg.det(m), 1.0, 'proper rotation, order %s' % order, atol=1e-12)
    q = [v * ureg['radians'] for v in (om, ph, ka)]
    for order in ORDERS:
        m = c.op('matrix with units', pu.create_M_matrix, q[0], q[1], q[2], order=order)
        c.same(np.array(m, dtype=float), np.array(zoo.m_matrix(om, ph, ka, order)), 'matrix from quantities, order %s' % order, atol=1e-12)
    ext = [1.0, 2.0, 3.0, math.degrees(om), math.degrees(ph), math.degrees(ka)]
    r = c.op('pix4d matrix', pix4d_utils.create_r_matrix, ext)
    c.same(r, np.array(zoo.m_matrix(om, ph, ka)).T, 'camera to world matrix from degrees', atol=1e-12)
    c.same(c.op('pix4d matrix', pix4d_utils.create_r_matrix, np.array(ext)), r, 'array or list', atol=1e-15)


@CHECK.scenario(bound=(9, 9))
def recovery(c):
    """angles recovered from a matrix, also from a rounded one, rebuild it"""
    om = c.choose('omega', ANG)
    ph = c.choose('phi', PH)
    ka = c.choose('kappa', ANG)
    m = np.array(zoo.m_matrix(om, ph, ka))
    for mm, what in ((m, 'exact'), (c.op('matrix', pu.create_M_matrix, om, ph, ka), 'library'), (np.array(zoo.m_matrix(om, ph, ka)) @ np.eye(3) * (1 + 2e-16), 'rounded')):
        keep = mm.copy()
        o, p, k = c.op('solve', pu.solve_for_omega_phi_kappa, mm)
        tol = 1e-7 if abs(ph) < 1.4 else 1e-5
        c.require(abs(wrap(o - om)) < tol, '%s omega %r from %r', what, o, om)
        c.require(abs(p - ph) < tol, '%s phi %r from %r', what, p, ph)
        c.require(abs(wrap(k - ka)) < tol, '%s kappa %r from %r', what, k, ka)
        c.same(np.array(zoo.m_matrix(float(o), float(p), float(k))), mm, '%s rebuilt matrix' % what, atol=1e-7)
        c.same(mm, keep, 'caller matrix changed')


@CHECK.scenario(bound=(9, 9))
def boresight(c):
    """the offset between a rough and a corrected attitude is the matrix that turns one into the other"""
    a = [c.choose('a%d' % i, [0.0, 0.4, -2.2]) for i in range(3)]
    b = [c.choose('b%d' % i, [0.0, 0.01, -1.3]) for i in range(3)]
    rough = np.array(zoo.m_matrix(*a))
    off = np.array(zoo.m_matrix(*b, order=c.choose('order', ORDERS)))
    got = c.op('offsets', pu.solve_for_boresight_angle_offsets, rough, rough @ off)
    c.same(got, off, 'boresight offsets', atol=1e-10)
