"""Mass matrices."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref
from mc.props.c10 import poses, null_rotations, null_translations

META = dict(
    rule='every body (mass, center of mass, principal moments and axes) of '
         'the product of the alphabets gives a mass matrix, taken through '
         'every change of frame: acceptance, transport (to and back, and in '
         'two steps) and principal frame are compared with the rigid body '
         'formulas; matrices with one defect each must be refused; '
         'the elementary shapes are compared with numerical integrals of '
         'their volume; non-trivial: positive mass',
    bounds='5 masses x 11 centers x 12 triples of moments (equal, repeated, '
           'distinct, in every order) x 8 orientations x 40 frames '
           'and almost identical ones; every set of null components; 8 '
           'dimensions (down to zero) per axis for the shapes',
)
CHUNK = 10
MASS = [1., 0.003, 2.5, 70., 1e4]
COM = [(0, 0, 0), (0.1, 0, 0), (0, -2., 0.5), (1, 2, 3), (0, 0, 1e-4),
       (-0.3, 0.2, 0.7), (0.2, -0.3, -0.5), (-1, -2, 3), (-0.1, 0.4, -2.),
       (0, 0, -0.3), (0, 0.6, 0)]
MOM = [(1, 1, 1), (1, 1, 1.5), (1.5, 1, 1), (1, 1.5, 1), (1, 1.2, 1.5),
       (1.5, 1.2, 1), (1.2, 1.5, 1), (0.01, 1, 1), (1, 1, 1 + 1e-9),
       (3, 2, 4), (0.7, 0.7, 0.1), (2, 3.1, 2)]
ROT = [np.eye(3)] + [ref.rotation_from(a, t) for a, t in
                     [((1, 0, 0), 0.5), ((0, 1, 0), np.pi / 2),
                      ((0, 0, 1), np.pi / 4), ((1, 1, 1), 2 * np.pi / 3),
                      ((1, 2, 3), 2.2), ((0, 1, 1), np.pi),
                      ((1, 0, 0), 1e-9)]]
DIM = [1., 0.1, 0.25, 2., 3.5, 10., 1e-3, 0.]
# frames that are almost the one of the body
SMALL = [ref.hom(ref.rotation_from(a, t), p) for (a, t, p) in [
    ((1, 0, 0), 5e-4, (0, 0, 0)), ((0, 1, 1), 1e-6, (0.5, 0, -1)),
    ((1, -2, 3), 0.02, (0, 0, 0)), ((0, 0, 1), -3e-3, (0, 1e-5, 0)),
    ((1, 1, 1), 0., (1e-4, 0, 0)), ((0, 0, 1), 1e-8, (2., 1., 0.1))]]


BUFFER, POSE = np.eye(6), np.eye(4)


def bodies():
    for m in range(len(MASS)):
        for c in range(len(COM)):
            for i in range(len(MOM)):
                yield m, c, i


# units of length and of mass
UNITS = [(1e-4, 1e-9), (1e-3, 1e-6), (30., 1e8), (1e-2, 1.)]


def cases(tier):
    for m, c, i in bodies():
        yield {'m': 'body', 'b': [m, c, i], 'fine': tier == 'thorough'}
    yield {'m': 'bad'}
    # every set of null components of the centers of mass, of the products of
    # inertia, and of the changes of frame
    for c in range(27):
        for i in range(8):
            yield {'m': 'body', 'b': [0, c, i], 'null': 1,
                   'fine': tier == 'thorough'}
    for d in itertools.product(range(len(DIM)), repeat=2):
        yield {'m': 'shapes', 'd': list(d)}


def run(case):
    return globals()['run_' + case['m']](case)


def transported(M, H):
    """T* of the same body in another frame, from mass, com and inertia."""
    m = M[5, 5]
    c = np.array([M[2, 4], M[0, 5], M[1, 3]]) / m
    Ic = M[:3, :3] + m * ref.hat(c).dot(ref.hat(c))
    R, p = H[:3, :3], H[:3, 3]
    return ref.spatial_mass(m, R.T.dot(c - p), R.T.dot(Ic).dot(R))


def run_body(case):
    import arboris.massmatrix as mm
    cov = Cov()
    mi, ci, ii = case['b']
    m = MASS[mi]
    if 'null' in case:
        m = 2.
        c = null_translations()[ci]
        NR, NT = null_rotations(), null_translations()
        frames = [ref.hom(NR[(5 * k + ci + ii) % len(NR)], NT[k % 27])
                  for k in range((ci + ii) % 5, 27 * len(NR),
                                 5 if case['fine'] else 20)] + SMALL[:3]
    else:
        c = np.array(COM[ci], float)
        frames = poses()[(mi + ci) % 6::(3 if case['fine'] else 13)] + \
            SMALL[ii % 2::1 if case['fine'] else 2]
    for k, R in enumerate(ROT):
        if 'null' in case:
            D = (0.5, 0.4, 0.6)
            if k > 3:
                break
            R = np.eye(3)
            I = m * np.diag(D[k:] + D[:k] if k < 3 else (0.4, 0.5, 0.5))
            for b, (x, y) in enumerate(((0, 1), (0, 2), (1, 2))):
                if ii >> b & 1:
                    I[x, y] = I[y, x] = m * (0.05, -0.07, 0.03)[b]
        else:
            I = m * 0.1 * R.dot(np.diag(MOM[ii])).dot(R.T)
        M = ref.spatial_mass(m, c, I)
        M = (M + M.T) / 2
        what = 'body %s, orientation %d: ' % (case['b'], k)
        require(mm.ismassmatrix(M) is not False and mm.ismassmatrix(M),
                what + 'refused')
        require(mm.ismassmatrix(M, True), what + 'refused as semi-definite')
        M0 = M.copy()
        # principal frame
        H = mm.principalframe(M)
        # (the content of the array counts, not which array it is)
        BUFFER[...] = np.diag([2., 3., 4., 1., 1., 1.])
        mm.principalframe(BUFFER)
        BUFFER[...] = M
        P = mm.transport(M, mm.principalframe(BUFFER))
        same(what + 'principal frame of an array that held another body',
             P - np.diag(np.diag(P)), np.zeros((6, 6)), 1e-9, np.abs(M).max())
        s = np.abs(M).max()
        same(what + 'center of mass', H[:3, 3], c, 1e-9,
             scale=max(1e-3, np.abs(c).max()))
        same(what + 'principal frame', H[:3, :3].T.dot(H[:3, :3]), np.eye(3),
             1e-9)
        require(np.linalg.det(H[:3, :3]) > 0, what + 'left-handed frame')
        same(what + 'last row', H[3], np.array([0, 0, 0, 1.]), 0.)
        D = H[:3, :3].T.dot(I).dot(H[:3, :3])
        same(what + 'principal inertia', D - np.diag(np.diag(D)),
             np.zeros((3, 3)), 1e-9, np.abs(I).max())
        P = mm.transport(M, H)
        same(what + 'matrix in the principal frame', P - np.diag(np.diag(P)),
             np.zeros((6, 6)), 1e-9, s)
        cov.check(7)
        for n, F in enumerate(frames):
            T = mm.transport(M, F)
            ss = max(s, np.abs(T).max())
            BUFFER[...], POSE[...] = np.eye(6), np.eye(4)
            mm.transport(BUFFER, POSE)
            BUFFER[...], POSE[...] = M, F
            same(what + 'transport in arrays that held others',
                 mm.transport(BUFFER, POSE), T, 1e-12, ss)
            same(what + 'transport %d' % n, T, transported(M, F), 1e-10, ss)
            # (small angles: to their own precision)
            if n >= len(frames) - 3:
                same(what + 'change of frame %d' % n, T - M,
                     transported(M, F) - M, 1e-13, ss)
            require(mm.ismassmatrix(T), what + 'transported %d refused' % n)
            same(what + 'and back', mm.transport(T, ref.hinv(F)), M, 1e-9, ss)
            G = frames[(n + 3) % len(frames)]
            same(what + 'in two steps', mm.transport(T, G),
                 mm.transport(M, F.dot(G)), 1e-9,
                 ss * max(1., np.abs(G).max() ** 2))
            cov.check(4)
            cov.step()
            cov.state(case['b'], k, F)
        same(what + 'argument', M, M0, 0.)
        # half-definite: a mass without inertia, and nothing at all
        for Z in (ref.spatial_mass(m, c, np.zeros((3, 3))), np.zeros((6, 6)),
                  ref.spatial_mass(m, c, m * R.dot(np.diag([1., 1., 0.])).dot(R.T))):
            Z = (Z + Z.T) / 2
            require(mm.ismassmatrix(Z, True), what + 'semi-definite refused')
            cov.check()
        require(not mm.ismassmatrix(np.zeros((6, 6))), 'zero accepted')
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_bad(case):
    """One defect in a valid matrix."""
    import arboris.massmatrix as mm
    from arboris.core import Body
    cov = Cov()
    for m, c, i in bodies():
        M = ref.spatial_mass(MASS[m], COM[c], MASS[m] * np.diag(MOM[i]))
        s = np.abs(M).max()
        bad = [M[:5, :5], M[:, :5], -M]
        for (a, b) in itertools.combinations(range(6), 2):
            X = M.copy()
            X[a, b] += 0.3 * s              # not symmetric
            bad.append(X)
        for a, b in ((3, 4), (3, 5), (4, 5)):
            X = M.copy()
            X[a, b] += 0.3 * MASS[m]        # coupled translations
            X[b, a] += 0.3 * MASS[m]
            bad.append(X)
        for a in (3, 4, 5):
            X = M.copy()
            X[a, a] *= 1.5                  # different masses
            bad.append(X)
        for a in (0, 1, 2):
            X = M.copy()
            X[a, a] = -0.1 * s              # negative inertia
            bad.append(X)
        for n, X in enumerate(bad):
            for semi in (False, True):
                require(not mm.ismassmatrix(X, semi), 'defect %d accepted '
                        '(semi=%s): %s' % (n, semi, X.tolist()))
                cov.check()
            try:
                Body(mass=X)
            except AssertionError:
                pass
            else:
                require(False, 'body created with defect %d: %s' % (
                    n, X.tolist()))
            cov.step()
        cov.state(M)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def integral(kind, d):
    """Second moments by the Gauss-Legendre rule, exact for polynomials."""
    x, w = np.polynomial.legendre.leggauss(24)
    if kind == 'box':
        sec = np.array([(w * (d[i] * x) ** 2).sum() / w.sum()
                        for i in range(3)])
    elif kind == 'cylinder':
        # disc: <x^2> = integral over z of z^2 2 sqrt(r^2 - z^2) / (pi r^2)
        th = (x + 1) * np.pi / 2
        sin2 = (w * np.sin(th) ** 2 * np.cos(th) ** 2).sum() * np.pi / 2
        r = d[1]
        u = 2 * r ** 2 * sin2 / np.pi
        z = (w * (d[0] / 2 * x) ** 2).sum() / 2
        sec = np.array([u, u, z])
    else:
        # ellipsoid: sections of area 1 - x^2
        den = (w * (1 - x ** 2)).sum()
        one = (w * (1 - x ** 2) * x ** 2).sum() / den
        sec = np.array([one * d[i] ** 2 for i in range(3)])
    return sec


def run_shapes(case):
    import arboris.massmatrix as mm
    cov = Cov()
    a, b = DIM[case['d'][0]], DIM[case['d'][1]]
    for c in DIM:
        for m in MASS:
            for kind in ('box', 'ellipsoid', 'cylinder', 'sphere'):
                d = (a, b, c)
                if kind == 'cylinder':
                    M = mm.cylinder(a, b, m)
                elif kind == 'sphere':
                    d = (a, a, a)
                    M = mm.sphere(a, m)
                else:
                    M = getattr(mm, kind)(d, m)
                s = integral(kind, d)
                I = m * np.array([s[1] + s[2], s[0] + s[2], s[0] + s[1]])
                what = '%s %s of %g kg' % (kind, d, m)
                same(what, M, np.diag(np.concatenate((I, [m] * 3))), 1e-12,
                     np.abs(M).max())
                for k in range(3):
                    same(what + ': moment %d' % k, M[k, k], I[k], 1e-11,
                         I[k] or 1.)
                # (a segment or a point is only semi-definite)
                require(mm.ismassmatrix(M, I.min() == 0.),
                        '%s %s refused' % (kind, d))
                # the same body, much smaller or larger, of any density
                for u, r in UNITS:
                    if I.min() == 0.:
                        break
                    e = [x * u for x in d]
                    n = m * r
                    if kind == 'cylinder':
                        X = mm.cylinder(a * u, b * u, n)
                    elif kind == 'sphere':
                        X = mm.sphere(a * u, n)
                    else:
                        X = getattr(mm, kind)(tuple(e), n)
                    Y = np.diag(np.concatenate((I * r * u * u, [n] * 3)))
                    for k in range(6):
                        same('%s, scaled by %g and %g: %d' % (what, u, r, k),
                             X[k, k], Y[k, k], 1e-11, Y[k, k])
                    for semi in (False, True):
                        require(mm.ismassmatrix(X, semi), '%s %s of %g kg '
                                'refused' % (kind, e, n))
                    cov.check(8)
                cov.check(2)
                cov.step()
                cov.state(kind, d, m)
    cov.nontrivial = True
    cov.traces = 1
    return cov
