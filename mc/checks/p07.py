"""a camera on a fixture: lever arm and boresight, for every order of configuration calls"""
import math

import numpy as np

from mc import zoo
from mc.core import Check
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera

CHECK = Check('P07', 'fixture composition', ['histories of 3 configuration calls (4 thorough) from a menu of 12; two cameras alive at once'])

DEG = math.pi / 180
FT = 0.3048
EYE = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


class Model(object):
    def __init__(self):
        self.xyz = None
        self.M = None
        self.rel = None
        self.B = None


OPS = {
    'xyz1': (lambda f: f.set_fixture_xyz(10.0, -20.0, 300.0), lambda m: setattr(m, 'xyz', (10.0, -20.0, 300.0))),
    'xyz2': (lambda f: f.set_fixture_xyz(500000.25, 4e6, 1234.5), lambda m: setattr(m, 'xyz', (500000.25, 4e6, 1234.5))),
    'rpy_rad': (lambda f: f.set_fixture_orientation_by_roll_pitch_yaw(0.1, -0.2, 2.3),
                lambda m: setattr(m, 'M', zoo.m_matrix(0.1, -0.2, 2.3))),
    'rpy_mix': (lambda f: f.set_fixture_orientation_by_roll_pitch_yaw(10, 0.3, -95, roll_units='degrees', yaw_units='degrees'),
                lambda m: setattr(m, 'M', zoo.m_matrix(10 * DEG, 0.3, -95 * DEG))),
    'rpy_ypr': (lambda f: f.set_fixture_orientation_by_roll_pitch_yaw(0.4, 20, 100, pitch_units='degrees', yaw_units='milliradian', order='ypr'),
                lambda m: setattr(m, 'M', zoo.m_matrix(0.4, 20 * DEG, 0.1, 'ypr'))),
    'matrix': (lambda f: f.set_fixture_orientation(np.array(zoo.m_matrix(-0.7, 0.2, 0.9))),
               lambda m: setattr(m, 'M', zoo.m_matrix(-0.7, 0.2, 0.9))),
    'rel_m': (lambda f: f.set_relative_camera_xyz(1.0, -2.0, 0.5), lambda m: setattr(m, 'rel', (1.0, -2.0, 0.5))),
    'rel_u': (lambda f: f.set_relative_camera_xyz(3.0, 250.0, -70.0, x_units='feet', y_units='cm', z_units='millimeters'),
              lambda m: setattr(m, 'rel', (3 * FT, 2.5, -0.07))),
    'bore_rad': (lambda f: f.set_boresight_matrix_from_camera_relative_rpy_params(0.02, 0.03, -0.5),
                 lambda m: setattr(m, 'B', zoo.m_matrix(0.02, 0.03, -0.5))),
    'bore_deg': (lambda f: f.set_boresight_matrix_from_camera_relative_rpy_params(
        -5, 100, 45, roll_units='degrees', pitch_units='milliradian', yaw_units='degrees', order='pyr'),
        lambda m: setattr(m, 'B', zoo.m_matrix(-5 * DEG, 0.1, 45 * DEG, 'pyr'))),
    'bore_pitch': (lambda f: f.set_boresight_matrix_from_camera_relative_rpy_params(0, 7, 0, pitch_units='degrees'),
                   lambda m: setattr(m, 'B', zoo.m_matrix(0, 7 * DEG, 0))),
    'bore_m': (lambda f: f.set_boresight_matrix(np.array(zoo.m_matrix(0.3, 0, 0))), lambda m: setattr(m, 'B', zoo.m_matrix(0.3, 0, 0))),
}


def verify(c, f, m, who):
    if m.xyz is not None:
        c.same(f.get_fixture_xyz(), m.xyz, who + ': fixture position', rtol=1e-14)
    if m.xyz is not None and m.M is not None and m.rel is not None:
        want = [m.xyz[j] + sum(m.rel[k] * m.M[k][j] for k in range(3)) for j in range(3)]
        c.same(np.array(c.op('position', f.get_camera_absolute_xyz), dtype=float), want, who + ': camera position', atol=1e-7)
    if m.M is not None and m.B is not None:
        c.same(np.array(c.op('orientation', f.get_camera_absolute_M_matrix), dtype=float), np.array(zoo.mul(m.B, m.M)),
               who + ': camera orientation', atol=1e-10)


DEFAULTS = ['xyz1', 'rpy_rad', 'rel_m', 'bore_rad']


def history(c, depth, pick):
    f, m = FixturedCamera(), Model()
    g, n = FixturedCamera(), Model()
    for k in ('xyz2', 'matrix', 'rel_u', 'bore_m'):
        OPS[k][0](g)
        OPS[k][1](n)
    for i in range(depth):
        k = pick('call%d' % i, list(OPS))
        c.op(k, OPS[k][0], f)
        OPS[k][1](m)
        verify(c, f, m, 'camera after %s' % k)
    verify(c, g, n, 'other camera')
    for k in DEFAULTS:
        OPS[k][0](f)
        OPS[k][1](m)
    verify(c, f, m, 'reconfigured camera')
    # the second camera, mounted the same way, agrees
    for k in DEFAULTS[::-1]:
        OPS[k][0](g)
        OPS[k][1](n)
    verify(c, g, n, 'camera configured in reverse order')


@CHECK.scenario(bound=(9, 9))
def all_histories(c):
    """every sequence of setters and queries up to the depth against a dictionary model of the camera"""
    history(c, 3, c.choose)


@CHECK.scenario(bound=(9, 9), tiers=('thorough',))
def deeper_histories(c):
    """every sequence of 4 setters and queries (thorough)"""
    history(c, 4, c.choose)


@CHECK.scenario(bound=(9, 9))
def shared_matrices(c):
    """cameras given the same matrix objects, and the objects of the caller"""
    A, B, C = [np.array(zoo.m_matrix(*v)) for v in ((0.1, 0.2, 0.3), (-0.4, 0.0, 2.0), (0.0, 0.7, -0.2))]
    keep = A.copy(), B.copy(), C.copy()
    f, g = FixturedCamera(), FixturedCamera()
    mf, mg = Model(), Model()
    for q, m in ((f, mf), (g, mg)):
        q.set_fixture_xyz(10.0, 20.0, 30.0)
        q.set_relative_camera_xyz(1.0, 2.0, 3.0)
        q.set_fixture_orientation(A)
        q.set_boresight_matrix(B)
        m.xyz, m.rel, m.M, m.B = (10.0, 20.0, 30.0), (1.0, 2.0, 3.0), keep[0].tolist(), keep[1].tolist()
    for i in range(3):
        o = c.choose('op%d' % i, ['M=C', 'B=C', 'M=B', 'B=A', 'M rpy', 'B rpy', 'read', 'xyz', 'rel'])
        q, m = (f, mf) if c.choose('who%d' % i, ['first', 'second']) == 'first' else (g, mg)
        if o[1] == '=':
            v, n = {'A': (A, keep[0]), 'B': (B, keep[1]), 'C': (C, keep[2])}[o[2]]
            if o[0] == 'M':
                q.set_fixture_orientation(v)
                m.M = n.tolist()
            else:
                q.set_boresight_matrix(v)
                m.B = n.tolist()
        elif o == 'M rpy':
            q.set_fixture_orientation_by_roll_pitch_yaw(0.5, 0.6, 0.7)
            m.M = zoo.m_matrix(0.5, 0.6, 0.7)
        elif o == 'B rpy':
            q.set_boresight_matrix_from_camera_relative_rpy_params(0.05, 0.06, 0.07)
            m.B = zoo.m_matrix(0.05, 0.06, 0.07)
        elif o == 'xyz':
            q.set_fixture_xyz(1.0, 5.0, 7.0)
            m.xyz = (1.0, 5.0, 7.0)
        elif o == 'rel':
            q.set_relative_camera_xyz(-3.0, 0.5, 2.0)
            m.rel = (-3.0, 0.5, 2.0)
        verify(c, f, mf, 'first camera')
        verify(c, g, mg, 'second camera')
    for v, k in zip((A, B, C), keep):
        c.same(v, k, 'matrix of the caller')


ORDERS = ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr']


@CHECK.scenario(bound=(9, 9))
def attitudes(c):
    """fixture and boresight angles in every rotation order; the lever arm keeps its length"""
    fo = c.choose('fixture_order', ORDERS)
    bo = c.choose('boresight_order', ORDERS)
    a = c.choose('fixture', [(10, 0, 0), (0, 20, 0), (0, 0, 130), (3, -8, 200), (-45, 30, -60), (0, -35, 80), (12, 0, 95), (-15, 50, 0), (0.003, 0.002, -0.004)])
    b = c.choose('boresight', [(1, 0, 0), (0, -2, 0), (0, 0, 90), (5, 6, 7), (0, 6, 70), (5, 0, -40), (5, -60, 0), (0.004, -0.003, 0.002)])
    rel = c.choose('lever', [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-3, 2, 0.5), (0, 0, 0)])
    f, m = FixturedCamera(), Model()
    f.set_fixture_xyz(100.0, 200.0, 300.0)
    u = dict(roll_units='degrees', pitch_units='degrees', yaw_units='degrees')
    c.op('orient', f.set_fixture_orientation_by_roll_pitch_yaw, *a, order=fo, **u)
    c.op('boresight', f.set_boresight_matrix_from_camera_relative_rpy_params, *b, order=bo, **u)
    f.set_relative_camera_xyz(*rel)
    m.xyz, m.rel = (100.0, 200.0, 300.0), rel
    m.M = zoo.m_matrix(*[v * DEG for v in a], order=fo)
    m.B = zoo.m_matrix(*[v * DEG for v in b], order=bo)
    verify(c, f, m, 'camera')
    # rotating the fixture never changes how far the camera is from it
    p = np.array(f.get_camera_absolute_xyz(), dtype=float)
    c.same(np.linalg.norm(p - [100, 200, 300]), np.linalg.norm(rel), 'lever arm length', atol=1e-9)
