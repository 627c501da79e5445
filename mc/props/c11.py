"""Rotation constructors, angles extraction, frames aligned with a vector."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref

META = dict(
    rule='every triple of angles of the alphabet goes through the rotation '
         'constructors, compared with products of elementary rotations, and '
         'through the extraction of the angles, which must rebuild the same '
         'rotation; every rotation of the grid and of the cube group too; '
         'every direction of a grid on the sphere, with its neighbourhood of '
         'the axes and diagonals, is given to the alignment; non-trivial: all',
    bounds='27 angles (all the multiples of pi/4, neighbours of +-pi/2, '
           'beyond 2 pi, tiny): 19683 triples; 6 x 48 directions and 2000 '
           'of a grid',
)
CHUNK = 4
A = [k * np.pi / 4 for k in range(-4, 5)] + \
    [0.3, -0.7, 1.2, 2.5, -2.9, 7.5, -13., 1e-4, -1e-7,
     np.pi / 2 - 1e-4, -np.pi / 2 + 1e-4, np.pi / 2 + 1e-3, np.pi - 1e-5,
     np.pi / 2 - 5e-6, -np.pi / 2 - 4e-7, np.pi / 2 + 3e-8, -np.pi / 2 + 2e-9,
     np.pi / 2 - 1e-10]
EXTRA = [k * np.pi / 12 for k in range(-24, 25)]


def cases(tier):
    for i in range(len(A)):
        yield {'m': 'angles', 'i': i}
    yield {'m': 'cube'}
    for i in range(49):
        yield {'m': 'grid', 'i': i}
    n = 120 if tier == 'thorough' else 40
    for i in range(n + 1):
        yield {'m': 'sphere', 'i': i, 'n': n}
    yield {'m': 'axes'}


def run(case):
    return globals()['run_' + case['m']](case)


def R(axis, a):
    return ref.hom(ref.erot(axis, a).real, np.zeros(3))


def angles_of(Hg, H, what, cov):
    out = Hg.rotzyx_angles(H)
    require(len(out) == 3, what + 'angles: %s' % (out,))
    az, ay, ax = [float(x) for x in out]
    same(what + 'rotation of the angles (%r, %r, %r)' % (az, ay, ax),
         R(2, az).dot(R(1, ay)).dot(R(0, ax))[:3, :3], H[:3, :3], 1e-8)
    cov.check()


def run_angles(case):
    import arboris.homogeneousmatrix as Hg
    cov = Cov()
    a = A[case['i']]
    for axis, f in ((0, Hg.rotx), (1, Hg.roty), (2, Hg.rotz)):
        same('elementary rotation %d, %r' % (axis, a), f(a), R(axis, a), 1e-12)
    for b in A:
        what = 'angles %r, %r: ' % (a, b)
        same(what + 'zy', Hg.rotzy(a, b), R(2, a).dot(R(1, b)), 1e-12)
        same(what + 'zx', Hg.rotzx(a, b), R(2, a).dot(R(0, b)), 1e-12)
        same(what + 'yx', Hg.rotyx(a, b), R(1, a).dot(R(0, b)), 1e-12)
        t = (a, b, a - b)
        H = np.eye(4)
        H[:3, 3] = t
        same(what + 'translation', Hg.transl(*t), H, 0.)
        cov.check(4)
        for c in A:
            what = 'angles %r, %r, %r: ' % (a, b, c)
            H = R(2, a).dot(R(1, b)).dot(R(0, c))
            same(what + 'zyx', Hg.rotzyx(a, b, c), H, 1e-12)
            angles_of(Hg, H, what, cov)
            H[:3, 3] = t
            angles_of(Hg, H, what, cov)
            cov.step()
            cov.state(a, b, c)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_cube(case):
    import arboris.homogeneousmatrix as Hg
    from mc.props.c10 import poses, AXES, ANGLES
    cov = Cov()
    for n, H in enumerate(poses()):
        angles_of(Hg, H, 'pose %d: ' % n, cov)
        cov.step()
        cov.state(H)
    for ax, an in itertools.product(AXES, ANGLES):
        H = ref.hom(ref.rotation_from(ax, an), np.zeros(3))
        angles_of(Hg, H, 'axis %s angle %r: ' % (ax, an), cov)
        cov.step()
        cov.state(H)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_grid(case):
    """All the multiples of pi/12, in the three positions."""
    import arboris.homogeneousmatrix as Hg
    cov = Cov()
    a = EXTRA[case['i']]
    for b, c in itertools.product(EXTRA, EXTRA[::6]):
        what = 'angles %r, %r, %r: ' % (a, b, c)
        H = R(2, a).dot(R(1, b)).dot(R(0, c))
        same(what + 'zyx', Hg.rotzyx(a, b, c), H, 1e-12)
        angles_of(Hg, H, what, cov)
        cov.step()
        cov.state(a, b, c)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def align(Hg, v, cov):
    v0 = v.copy()
    H = Hg.zaligned(v)
    what = 'frame aligned with %s: ' % v.tolist()
    same(what + 'argument', v, v0, 0.)
    same(what + 'z axis', H[:3, 2], v, 1e-12)
    same(what + 'orthonormality', H[:3, :3].T.dot(H[:3, :3]), np.eye(3), 1e-9)
    require(np.linalg.det(H[:3, :3]) > 0, what + 'left-handed')
    same(what + 'origin', H[:3, 3], np.zeros(3), 0.)
    same(what + 'last row', H[3], np.array([0, 0, 0, 1.]), 0.)
    cov.check(5)
    cov.step()
    cov.state(v)


def run_sphere(case):
    import arboris.homogeneousmatrix as Hg
    cov = Cov()
    n = case['n']
    th = np.pi * case['i'] / n
    for k in range(4 * n):
        ph = 2 * np.pi * k / (4 * n) + 0.01 * (k % 2)
        align(Hg, np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph),
                            np.cos(th)]), cov)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_axes(case):
    import arboris.homogeneousmatrix as Hg
    cov = Cov()
    base = [np.array(b, float) for b in itertools.product((-1, 0, 1), repeat=3)
            if any(b)]
    for b in base:
        for e in (0., 1e-12, 1e-9, 1e-6, 1e-3, -1e-7, -1e-4):
            for d in np.eye(3):
                v = b + e * d
                align(Hg, v / np.sqrt(v.dot(v)), cov)
    cov.nontrivial = True
    cov.traces = 1
    return cov
