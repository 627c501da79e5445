"""Worlds of the real code built from small JSON descriptors, along the
reference tree."""
import numpy as np
from mc import ref

# ---------------------------------------------------------------- alphabets
PI = float(np.pi)
ANG = [0., 0.3, -0.7, PI / 2, 2.5, -PI / 2, PI, -3., 4.1, 7.5, 1e-4, -1e-8,
       -20.3]
TRA = [0., 0.2, -0.5, 1e-6, 3.1, -40., 0.01]
VEL = [0., 1., -0.4, 0.03, -7.3, 50., 1e-5]


def _pose(axis, ang, p):
    return ref.hom(ref.rotation_from(axis, ang) if ang else np.eye(3),
                   np.array(p, float))


# poses of the free joints
POSES = [
    _pose((1, 0, 0), 0., (0, 0, 0)),
    _pose((1, 2, 3), 0.8, (0.3, -0.4, 0.5)),
    _pose((0, 0, 1), PI / 2, (0, 0, 0)),
    _pose((0, 1, 0), PI, (1., 0, 0)),
    _pose((1, -1, 0.5), 2.9, (-20., 3., 8.)),
    _pose((0, 1, 0), -PI / 2, (0, 0.1, 0)),
    _pose((1, 1, 1), 1e-5, (0, 0, 1e-6)),
]
# anchor frames of the links; None is the frame of the body itself
FRAMES = [
    None,
    _pose((1, 0, 0), 0., (0.3, -0.2, 0.7)),
    _pose((0, 0, 1), 0.6, (0, 0, 0)),
    _pose((1, 2, -1), 1.2, (-0.5, 0.4, 0.1)),
    _pose((1, 0, 0), 0., (0, 0, 0)),
    _pose((1, 0, 0), PI / 2, (0, 5., 0)),
    # (only used on purpose: far away, almost the frame of the body)
    _pose((1, 2, 3), 1.2, (3e3, -5e4, 200.)),
    _pose((1, -2, 0), 2e-4, (0, 1e-5, 1e-3)),
    # (in the worlds of patterns: translations and rotations with null
    # components)
    _pose((1, 0, 0), 0., (0.4, 0, 0)),
    _pose((1, 0, 0), 0., (0, 0.6, 0)),
    _pose((1, 0, 0), 0., (0, 0, -0.3)),
    _pose((1, 0, 0), 0., (0.5, 0.2, 0)),
    _pose((1, 0, 0), 0., (0.5, 0, 0.2)),
    _pose((1, 0, 0), 0., (0, 0.5, 0.2)),
    _pose((1, 0, 0), PI / 2, (0, 0, 0)),
    _pose((0, 1, 0), PI / 2, (0, 0, 0)),
    _pose((0, 0, 1), PI, (0.1, 0, 0)),
    _pose((1, 0, 0), 0.7, (0, 0, 0)),
    _pose((0, 1, 0), 0.7, (0, 0.3, 0)),
    _pose((0, 0, 1), -PI / 2, (0.2, 0.3, 0)),
    _pose((0, 1, 0), PI, (0, 0, 0.7)),
    _pose((1, 1, 0), PI, (0, 0, 0)),
]
PATTERN_FRAMES = [0] + list(range(8, len(FRAMES)))
_I1 = np.diag([0.4, 0.4, 0.4])
_I2 = np.array([[0.9, 0.1, -0.05], [0.1, 0.7, 0.08], [-0.05, 0.08, 0.5]])
# mass, com, inertia at the com
MASSES = {
    'z': (0., (0, 0, 0), np.zeros((3, 3))),
    'a': (1., (0, 0, 0), _I1),
    'b': (2.5, (0.1, -0.2, 0.3), _I2),
    'c': (1e-3, (0.01, 0.02, 0.), 1e-5 * _I2),
    'p': (3., (0.2, 0.5, -0.1), np.zeros((3, 3))),
    'd': (0.7, (0., 0.4, 0.), np.diag([0.02, 0.5, 0.03])),
    'h': (500., (0.3, 0., -1.), 60. * _I2),
    # (in the worlds of patterns)
    'X': (1.3, (0.3, 0, 0), np.diag([0.4, 0.5, 0.6])),
    'Y': (1.3, (0, -0.2, 0), _I1),
    'Z': (1.3, (0, 0, 0.5), np.diag([0.4, 0.5, 0.3])),
    'P': (0.9, (0.3, -0.2, 0), np.array([[0.5, 0.1, 0], [0.1, 0.4, 0],
                                         [0, 0, 0.7]])),
    'Q': (0.9, (0, 0.3, 0.4), np.array([[0.5, 0, 0], [0, 0.4, -0.1],
                                        [0, -0.1, 0.6]])),
    'R': (1.9, (0.2, 0, -0.5), np.array([[0.5, 0, 0.1], [0, 0.6, 0],
                                         [0.1, 0, 0.4]])),
    'I': (1.1, (0.3, 0.2, -0.4), _I1),
    'O': (1.1, (0, 0, 0), _I2),
}
_v = np.array([[1.2, 0.1, 0, 0.2, 0, 0], [0.1, 0.8, 0.1, 0, 0.1, 0],
               [0, 0.1, 0.9, 0, 0, 0.3], [0.2, 0, 0, 2.1, 0.1, 0],
               [0, 0.1, 0, 0.1, 1.1, 0.2], [0, 0, 0.3, 0, 0.2, 1.7]])
_w = _v + 0.3 * np.triu(np.ones((6, 6)), 2)
VISC = {
    'z': None,
    'd': np.diag([0.1, 0.2, 0.3, 0.4, 0.5, 0.6]),
    'g': _v,
    'n': _w,      # not symmetric
    'l': np.pad([[.5, .2, 0], [.2, .3, -.1], [0, -.1, .4]], ((3, 0), (3, 0))),
    'r': np.pad([[.2, 0, .1], [0, .4, .1], [.1, .1, .3]], ((0, 3), (0, 3))),
}


def mass_matrix(key):
    if key == 'z':
        return None
    return ref.spatial_mass(*MASSES[key])


def _custom():
    """A joint defined by the user: rotation about x, then slide along the
    rotated y."""
    from arboris.core import LinearConfigurationSpaceJoint
    import arboris.homogeneousmatrix as Hg

    class RxTyJoint(LinearConfigurationSpaceJoint):
        @property
        def ndof(self):
            return 2

        @property
        def pose(self):
            return np.dot(Hg.rotx(self.gpos[0]),
                          Hg.transl(0., self.gpos[1], 0.))

        @property
        def jacobian(self):
            J = np.zeros((6, 2))
            J[0, 0] = 1.
            J[5, 0] = self.gpos[1]
            J[4, 1] = 1.
            return J

        @property
        def djacobian(self):
            J = np.zeros((6, 2))
            J[5, 0] = self.gvel[1]
            return J
    return RxTyJoint


_joint_cache = {}


def joint_class(name):
    if name not in _joint_cache:
        if name == 'RxTyJoint':
            _joint_cache[name] = _custom()
        else:
            import arboris.joints
            _joint_cache[name] = getattr(arboris.joints, name)
    return _joint_cache[name]


def make_joint(name, q=None, dq=None, label=None):
    cls = joint_class(name)
    if name == 'FixedJoint':
        return cls(name=label)
    kw = {}
    if q is not None:
        kw['gpos'] = q
    if dq is not None:
        kw['gvel'] = dq
    return cls(name=label, **kw)


def qvalue(joint, k, shift=0):
    """k-th position of a joint of the alphabet."""
    if joint == 'FreeJoint':
        return POSES[(k + shift) % len(POSES)].copy()
    res = []
    for j, (kind, _) in enumerate(ref.JOINTS[joint]):
        pool = ANG if kind == 'r' else TRA
        res.append(pool[(k * (2 * j + 1) + 3 * j + shift) % len(pool)])
    return np.array(res, float)


def vvalue(joint, k, shift=0):
    n = ref.ndof(joint)
    return np.array([VEL[(k * (j + 1) + 2 * j + shift) % len(VEL)]
                     for j in range(n)], float)


def null_q(joint, k, bits):
    """A position with some null coordinates."""
    if joint == 'FreeJoint':
        w = np.array([0.8, -0.5, 1.1])
        p = np.array([0.3, 0.4, -0.6])
        if k % 3 == 1:
            w = np.array([PI, PI / 2, -PI / 2])
        for i in range(3):
            if bits >> i & 1:
                w[i] = 0.
            if bits >> (i + 3) & 1:
                p[i] = 0.
        a = float(np.linalg.norm(w))
        return _pose(w, a, p) if a else _pose((1, 0, 0), 0., p)
    res = []
    for j, (kind, _) in enumerate(ref.JOINTS[joint]):
        pool = (0.6, -1.1, PI / 2, PI) if kind == 'r' else (0.3, -0.5, 1.2)
        res.append(0. if bits >> j & 1 else pool[(k + j) % len(pool)])
    return np.array(res, float)


def naming(links):
    """How the elements of a world are named: each its own name, no name,
    all the same one, or one for each body and what is around it."""
    return (True, 'same', True, 'none', 'around')[sum(
        (3 * i + 1) * (l[2] + 2 * l[3] + 5 * len(l[1]) + l[0] + 1)
        for i, l in enumerate(links)) % 5]


class Sim(object):
    """A real world and its reference tree.

    links: [[parent, joint, f0, f1, mass, visc], ...]
    """

    def __init__(self, links, k=0, vk=1, moving=False, names=True,
                 hook=None, init=True):
        from arboris.core import World, Body, SubFrame, MovingSubFrame
        self.spec = links
        self.tree = ref.Tree([
            dict(parent=l[0], joint=l[1],
                 F0=np.eye(4) if FRAMES[l[2]] is None else FRAMES[l[2]],
                 F1=np.eye(4) if FRAMES[l[3]] is None else FRAMES[l[3]])
            for l in links])
        self.world = w = World()
        self.bodies = {-1: w.ground}
        self.joints = {}
        self.frames = []
        self.anchor = {}
        self.q, self.dq = {}, {}
        self.mass = {}
        self.visc = {}
        cls0 = MovingSubFrame if moving else SubFrame

        def name(kind, i):
            if names == 'same':
                return 'x'
            if names == 'none' or (not names and kind in 'bj'):
                return None
            if names == 'around':
                return 'n%d' % i
            return kind + str(i)
        for i, l in enumerate(links):
            if hook is not None:
                hook(self, i)       # before the i-th link is added
            parent, joint, f0, f1, m, b = l
            body = Body(name=name('b', i),
                        mass=mass_matrix(m),
                        viscosity=None if VISC[b] is None else VISC[b].copy())
            self.bodies[i] = body
            fr0 = self.bodies[parent]
            if FRAMES[f0] is not None:
                fr0 = cls0(fr0, FRAMES[f0].copy(), name('f0_', i))
                self.frames.append((fr0, parent, FRAMES[f0]))
                if moving:
                    self.anchor[fr0] = i
            fr1 = body
            if FRAMES[f1] is not None:
                fr1 = SubFrame(body, FRAMES[f1].copy(), name('f1_', i))
                self.frames.append((fr1, i, FRAMES[f1]))
            self.q[i] = qvalue(joint, k, i)
            self.dq[i] = vvalue(joint, vk, i)
            j = make_joint(joint, self.q[i], self.dq[i],
                           name('j', i))
            self.joints[i] = j
            w.add_link(fr0, j, fr1)
            self.mass[i] = MASSES[m]
            self.visc[i] = np.zeros((6, 6)) if VISC[b] is None else VISC[b]
        if moving:
            # frames that move on the ground and on the last body
            for b in (-1, len(links) - 1):
                f = MovingSubFrame(self.bodies[b], FRAMES[3].copy(), 'm%d' % b)
                w.register(f)
                self.frames.append((f, b, FRAMES[3]))
        if init:
            w.init()

    def move_frame(self, n, H):
        f, b, _ = self.frames[n]
        f.bpose = H
        self.frames[n] = (f, b, H.copy())
        if f in self.anchor:
            self.tree.links[self.anchor[f]]['F0'] = H.copy()

    def set_config(self, k, vk, how=0, vscale=1., qm=0, vm=0):
        """Another configuration, written the different ways users do. qm, vm:
        the coordinates and velocities that are null (bits)."""
        d = 0
        for i, l in enumerate(self.spec):
            n = ref.ndof(l[1])
            if qm or vm:
                self.q[i] = null_q(l[1], k, qm >> d)
                self.dq[i] = vscale * np.array(
                    [(0.7, -1.2, 0.4, 2., 0.9, -0.5)[(j + vk) % 6] *
                     (1 - (vm >> (d + j) & 1)) for j in range(n)], float)
            else:
                self.q[i] = qvalue(l[1], k, i)
                self.dq[i] = vscale * vvalue(l[1], vk, i)
            self.write(i, how)
            d += n

    def write(self, i, how=0):
        j = self.joints[i]
        if self.spec[i][1] == 'FixedJoint':
            return
        if how == 0:
            j.gpos[:] = self.q[i]
        else:
            j.gpos = self.q[i].copy()
        # (j.gvel is a view of the velocity of the world)
        j.gvel[:] = self.dq[i]

    def gvel(self):
        return self.tree.gvel(self.dq)

    def body_mass(self, i):
        return ref.spatial_mass(*self.mass[i])

    def read_config(self):
        """Take the configuration of the real world into the reference."""
        for i in self.joints:
            if self.spec[i][1] != 'FixedJoint':
                self.q[i] = np.array(self.joints[i].gpos, float)
                self.dq[i] = np.array(self.joints[i].gvel, float)

    def model(self):
        """Reference M, B, N and jacobians."""
        t = self.tree
        v = self.gvel()
        pose, J = t.jacobians(self.q)
        dJ = t.djacobians(self.q, v)
        n = t.ndof
        M, B, N = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
        for i in t.order:
            Mb = self.body_mass(i)
            w = J[i][:3].dot(v)
            Nb = ref.body_nleffects(*(tuple(self.mass[i]) + (w,)))
            M += J[i].T.dot(Mb).dot(J[i])
            B += J[i].T.dot(self.visc[i]).dot(J[i])
            N += J[i].T.dot(Mb.dot(dJ[i]) + Nb.dot(J[i]))
        return dict(pose=pose, J=J, dJ=dJ, M=M, B=B, N=N, v=v)


# ------------------------------------------------------------ comparisons
def err(a, b, scale=None):
    """Largest difference, relative to the size of the reference."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.
    if not np.isfinite(np.asarray(a, complex)).all():
        return float('inf')
    if scale is None:
        scale = max(1., float(np.abs(b).max()))
    return float(np.abs(a - b).max()) / scale


def same(what, a, b, tol=1e-9, scale=None):
    from mc.engine import Violation
    if a is None:
        raise Violation('%s: None instead of %s' % (what, _show(b)))
    e = err(a, b, scale)
    if not e <= tol:
        raise Violation('%s: %s instead of %s (error %.2g)' % (
            what, _show(a), _show(b), e))


def require(cond, msg):
    from mc.engine import Violation
    if not cond:
        raise Violation(msg)


def _show(a):
    a = np.asarray(a)
    with np.printoptions(precision=6, suppress=False, linewidth=160):
        s = str(a).replace('\n', ' ')
    return s if len(s) < 260 else s[:260] + '...'
