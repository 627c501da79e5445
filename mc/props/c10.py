"""Rigid motion algebra."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref

META = dict(
    rule='every pose of the alphabet, then every ordered pair (and triple, on '
         'a smaller alphabet) of poses, with every point and twist of the '
         'alphabets, goes through the functions; the results are compared '
         'with matrices built column by column from the definitions; twists '
         'are exponentiated over every direction, every angle regime and '
         'every linear part; non-trivial: all',
    bounds='240 poses (the 24 rotations of the cube and general ones, at 6 '
           'positions), all ordered pairs of 48 of them, 7 points, 12 '
           'twists; exponential: 14 directions x 26 angles (0 to 40 rad, '
           'including both sides of 1e-3, pi and 2 pi) x 7 linear parts; every set of null components of '
           'the twists, rotations and translations',
)
CHUNK = 10

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (1, 1, 0), (0, -1, 1),
        (1, 0, -1), (1, 1, 1), (-1, 1, 1), (1, 2, 3), (-3, 1, 0.2),
        (0.001, 1, 0), (0.3, -0.2, -0.9), (1e-7, 0, -1)]
ANGLES = [0., 1e-12, 1e-8, 1e-5, 9e-4, 9.99e-4, 1e-3, 1.001e-3, 2e-3, 0.01,
          0.1, 0.5, 1., np.pi / 2, 2., 3., np.pi - 1e-9, np.pi, np.pi + 1e-4,
          4., 5.5, 2 * np.pi - 1e-6, 2 * np.pi, 7., 13., 40.]
LIN = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0, 0, 1e-6), (1, 2, 3),
       (-0.5, 100., 0.3), (10., 11., 12.)]
TRANS = [(0, 0, 0), (1, 2, 3), (-0.5, 0, 0), (0, 1e-6, 0), (100, -50, 20),
         (0.1, -0.7, 0.4)]
POINTS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 2, 5),
          (1e3, 1e-3, -1), (0.2, 0.3, -0.4)]


BUFFER, BIG = np.eye(4), np.eye(6)


def cube():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, p[i]] = s[i]
            if np.linalg.det(R) > 0:
                out.append(R)
    return out


def rotations():
    return cube() + [ref.rotation_from(a, t) for a, t in
                     itertools.product(AXES[4:], (0.3, 1.7))][:16]


def null_rotations():
    out = [np.eye(3)]
    for x in itertools.product((0, 1), repeat=3):
        if any(x):
            for a in (0.7, -2.2):
                out.append(ref.rotation_from(np.array(x) * (1., -0.6, 0.8), a))
            for a in (np.pi, np.pi / 2):
                out.append(ref.rotation_from(x, a))
    return out


def null_translations():
    return [np.array((0.3, 0.5, -0.8)) * x
            for x in itertools.product((0, 1, -1), repeat=3)]


def poses():
    R = rotations()
    return [ref.hom(R[i], TRANS[k]) for i in range(len(R))
            for k in range(len(TRANS))]


def cases(tier):
    n = len(poses())
    for i in range(n):
        yield {'m': 'one', 'i': i}
    step = 1 if tier == 'thorough' else 5
    for i in range(0, n, step):
        yield {'m': 'pairs', 'i': i, 'step': step}
    for a in range(len(AXES)):
        yield {'m': 'exp', 'a': a}
    yield {'m': 'bad'}
    # every set of null components
    for i in range(len(null_rotations())):
        for j in range(27):
            yield {'m': 'one', 'i': i, 'j': j}
    for x in range(64):
        yield {'m': 'null', 'x': x}


def run(case):
    return globals()['run_' + case['m']](case)


def adjacency(t):
    A = np.zeros((6, 6))
    A[:3, :3] = A[3:, 3:] = ref.hat(t[:3])
    A[3:, :3] = ref.hat(t[3:])
    return A


TWISTS = [np.array(x, float) for x in
          [(0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0),
           (0, 0, 1, 0, 0, 0), (0, 0, 0, 1, 0, 0), (0, 0, 0, 0, 1, 0),
           (0, 0, 0, 0, 0, 1), (1, 2, 3, 10, 11, 12), (-1, .2, .1, 0, 0, 5),
           (1e-6, 0, 0, 3, 4, 5), (30, -20, 7, .1, .2, .3),
           (0, 0, -4, 1, 0, -1)]]


NULL_TWISTS = [np.array((0.7, -1.1, 0.4, 2., -0.3, 1.2)) * x
               for x in itertools.product((0, 1), repeat=6)]


def run_one(case):
    import arboris.homogeneousmatrix as Hg
    import arboris.adjointmatrix as adm
    import arboris.twistvector as T
    cov = Cov()
    if 'j' in case:
        H = ref.hom(null_rotations()[case['i']],
                    null_translations()[case['j']])
        twists = NULL_TWISTS[case['j'] % 3::3]
    else:
        H, twists = poses()[case['i']], TWISTS
    H0 = H.copy()
    Ad = ref.ad_of_pose(H)
    what = 'pose %d: ' % case['i']
    same(what + 'inverse', Hg.inv(H), ref.hinv(H))
    same(what + 'inverse of the inverse', Hg.inv(Hg.inv(H)), H)
    same(what + 'H inv(H)', H.dot(Hg.inv(H)), np.eye(4), 1e-9,
         scale=max(1., np.abs(H).max()))
    same(what + 'adjoint', Hg.adjoint(H), Ad)
    same(what + 'adjoint of the inverse', Hg.iadjoint(H),
         ref.ad_of_pose(ref.hinv(H)))
    same(what + 'inverse of the adjoint', adm.inv(Hg.adjoint(H)),
         ref.ad_of_pose(ref.hinv(H)), 1e-12,
         scale=max(1., np.abs(Ad).max()))
    require(Hg.ishomogeneousmatrix(H), what + 'refused as homogeneous matrix')
    require(adm.isadjointmatrix(Hg.adjoint(H)), what + 'its adjoint refused')
    require(adm.isadjointmatrix(Hg.iadjoint(H)), what + 'its iadjoint refused')
    # the content of the array counts, not which array it is
    for f in (Hg.inv, Hg.adjoint, Hg.iadjoint):
        BUFFER[...] = np.eye(4)
        f(BUFFER)
        BUFFER[...] = H
        same(what + f.__name__ + ' of an array that held another pose',
             f(BUFFER), f(H), 1e-12, max(1., np.abs(Ad).max()))
    BIG[...] = np.eye(6)
    adm.inv(BIG)
    BIG[...] = Ad
    same(what + 'inverse of an array that held another adjoint',
         adm.inv(BIG), adm.inv(Ad), 1e-12, max(1., np.abs(Ad).max()))
    # very near and very far frames
    for u in (1e-9, 1e6, 1e10):
        F = ref.hom(H[:3, :3], H[:3, 3] * u)
        A = ref.ad_of_pose(F)
        sc = max(1., np.abs(A).max())
        require(Hg.ishomogeneousmatrix(F), '%srefused at %g m' % (what, u))
        same('%sinverse at %g m' % (what, u), Hg.inv(F), ref.hinv(F), 1e-12,
             scale=sc)
        same('%sadjoint at %g m' % (what, u), Hg.adjoint(F), A, 1e-12,
             scale=sc)
        require(adm.isadjointmatrix(Hg.adjoint(F)) and
                adm.isadjointmatrix(adm.inv(Hg.adjoint(F))) and
                adm.isadjointmatrix(Hg.iadjoint(F)),
                '%sadjoint refused at %g m' % (what, u))
        cov.check(4)
    for p in POINTS:
        p = np.array(p, float)
        q = H[:3, :3].dot(p)
        same(what + 'vector %s' % p, Hg.vdot(H, p), q)
        same(what + 'point %s' % p, Hg.pdot(H, p), q + H[:3, 3])
        cov.check(2)
    # the twist matrices: [t]^ -> H [t]^ H^-1
    for t in twists:
        M = np.zeros((4, 4))
        M[:3, :3] = ref.hat(t[:3])
        M[:3, 3] = t[3:]
        S = H.dot(M).dot(ref.hinv(H))
        same(what + 'change of frame of %s' % t, Hg.adjoint(H).dot(t),
             np.array([S[2, 1], S[0, 2], S[1, 0], S[0, 3], S[1, 3], S[2, 3]]))
        same(what + 'derivative of the adjoint, %s' % t,
             Hg.dAdjoint(Hg.adjoint(H), t),
             ref.ad_of_pose(H + 1e-30j * H.dot(M)).imag / 1e-30)
        same('adjacency %s' % t, T.adjacency(t), adjacency(t))
        cov.check(3)
        cov.step()
        cov.state(H, t)
    same(what + 'argument', H, H0, 0.)
    cov.check(8)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_pairs(case):
    import arboris.homogeneousmatrix as Hg
    import arboris.adjointmatrix as adm
    cov = Cov()
    L = poses()
    A = L[case['i']]
    for k in range(0, len(L), case['step']):
        B = L[k]
        what = 'poses %d, %d: ' % (case['i'], k)
        C = A.dot(B)
        s = max(1., np.abs(A).max() * np.abs(B).max())
        same(what + 'inverse of the product', Hg.inv(C),
             Hg.inv(B).dot(Hg.inv(A)), 1e-12, s)
        same(what + 'adjoint of the product', Hg.adjoint(C),
             Hg.adjoint(A).dot(Hg.adjoint(B)), 1e-12, s)
        same(what + 'iadjoint of the product', Hg.iadjoint(C),
             Hg.iadjoint(B).dot(Hg.iadjoint(A)), 1e-12, s)
        same(what + 'relative adjoint', Hg.iadjoint(A).dot(Hg.adjoint(B)),
             ref.ad_of_pose(ref.hinv(A).dot(B)), 1e-12, s)
        require(Hg.ishomogeneousmatrix(C), what + 'product refused')
        require(adm.isadjointmatrix(Hg.adjoint(C)), what + 'adjoint refused')
        p = np.array(POINTS[k % 7], float)
        same(what + 'point', Hg.pdot(C, p), Hg.pdot(A, Hg.pdot(B, p)), 1e-12,
             s * max(1., np.abs(p).max()))
        cov.check(7)
        cov.step()
        cov.state(A, B)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_null(case):
    cov = Cov()
    on = [case['x'] >> k & 1 for k in range(6)]
    for s in itertools.product((1, -1), repeat=sum(on)):
        s = list(s)
        t = np.array([x and (0.7, 1.1, 0.4, 2., 0.3, 1.2)[i] * s.pop()
                      for i, x in enumerate(on)], float)
        size = np.sqrt(t[:3].dot(t[:3]))
        for a in (None, np.pi, 1e-3, 1e-5, np.pi / 2, 2 * np.pi, 9.):
            if a is None:
                exponential(t[:3], t[3:], 0., cov)
            elif size:
                exponential(t[:3] * (a / size), t[3:], a, cov)
        if len(s):
            break
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_exp(case):
    cov = Cov()
    u = np.array(AXES[case['a']], float)
    u = u / np.sqrt(u.dot(u))
    for t in ANGLES:
        for v in LIN:
            exponential(t * u, np.array(v), t, cov)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def exponential(w, v, t, cov):
    import arboris.twistvector as T
    import arboris.homogeneousmatrix as Hg
    tw = np.concatenate((w, v))
    E = T.exp(tw)
    what = 'twist %s: ' % tw.tolist()
    R = ref.expm_se3(tw)
    # no function can do better than its rounded argument
    tol = 1e-12 + 1e-15 * t
    same(what + 'exponential', E, R, max(1e-11, tol),
         scale=max(1., np.abs(v).max()))
    # (the relative error of a small displacement is small too)
    same(what + 'rotation - identity', E[:3, :3] - np.eye(3),
         R[:3, :3] - np.eye(3), 1e-12, 1.)
    require(Hg.ishomogeneousmatrix(E), what + 'not a pose')
    same(what + 'exponential of the opposite', T.exp(-tw),
         ref.hinv(R), max(1e-11, tol), scale=max(1., np.abs(v).max()))
    same(what + 'orthonormality', E[:3, :3].T.dot(E[:3, :3]),
         np.eye(3), 1e-12)
    # one-parameter subgroup
    same(what + 'twice half', T.exp(tw / 2).dot(T.exp(tw / 2)), E,
         max(1e-11, tol), scale=max(1., np.abs(v).max()))
    cov.check(6)
    cov.step()
    cov.state(tw)


def run_bad(case):
    """What is not a pose or an adjoint is told apart."""
    import arboris.homogeneousmatrix as Hg
    import arboris.adjointmatrix as adm
    cov = Cov()
    for H in poses()[::7]:
        for f in (lambda H: H[:3, :], lambda H: H[:, :3],
                  lambda H: np.diag([1, 1, -1, 1.]).dot(H),
                  lambda H: np.diag([1.1, 1.1, 1.1, 1.]).dot(H),
                  lambda H: np.vstack((H[:3], [[0, 0, 0, 2.]])),
                  lambda H: np.vstack((H[:3], [[0, 0, 0, 0.]])),
                  lambda H: np.vstack((H[:3], [[0.1, 0, 0, 1.]])),
                  lambda H: np.vstack((H[:3], [[0, 0, -1., 1.]])),
                  lambda H: np.zeros((4, 4))):
            B = f(H)
            require(not Hg.ishomogeneousmatrix(B), 'accepted as homogeneous '
                    'matrix: %s' % B.tolist())
            cov.check()
            cov.step()
            cov.state(B)
            for g in (Hg.inv, Hg.adjoint, Hg.iadjoint,
                      lambda X: Hg.pdot(X, np.zeros(3)),
                      lambda X: Hg.vdot(X, np.zeros(3))):
                try:
                    g(B)
                except Exception:
                    continue
                require(False, 'no error for %s' % B.tolist())
        Ad = ref.ad_of_pose(H)
        for f in (lambda A: A[:5], lambda A: -A, lambda A: A.T if
                  np.abs(A[3:, :3]).max() > 0 else 2 * A,
                  lambda A: 1.1 * A, lambda A: np.zeros((6, 6))):
            B = f(Ad)
            require(not adm.isadjointmatrix(B), 'accepted as adjoint: %s'
                    % B.tolist())
            B = Ad.copy()
            B[3:, 3:] = B[3:, 3:].T.dot(B[3:, 3:].T) + 1.
            require(not adm.isadjointmatrix(B), 'accepted as adjoint: %s'
                    % B.tolist())
            cov.check(2)
    cov.nontrivial = True
    cov.traces = 1
    return cov
