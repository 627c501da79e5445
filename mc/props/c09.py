"""Each joint model on its own."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require, ANG, TRA, VEL, POSES, make_joint
from mc import ref

META = dict(
    rule='every joint type is put in every position and velocity of the '
         'product of the alphabets, as a sequence of writes on one joint '
         'object; after each one, the pose, its inverse, the twists, the '
         'jacobian, its derivative, the adjoints, the adjacencies and the '
         'derivatives of the adjoints are compared with those of the '
         'elementary motions; then the joint is integrated alone; '
         'non-trivial: the joint moves',
    bounds='13 angles (0, +-pi/2, pi, beyond 2 pi, 1e-8...), 7 lengths, 7 '
           'velocities per dof (full product of the positions, 1 to 7 '
           'velocities each), 9 far positions to 1e6 x 4 speeds x 3 steps x 4 steps in a row, 7 poses x 49 twists for the free joint, 4 '
           'constructor forms',
)
CHUNK = 10
# turns and distances of any size (rad or m), steps and speeds of integration
FAR = (3.1, 6.2, 49., 99.9, 314., 999.5, 9999., 1e5, 1e6)


def cases(tier):
    for joint in ref.ALL_JOINTS:
        if joint == 'FixedJoint':
            yield {'j': joint, 'q0': 0, 'nv': 1}
            continue
        if joint == 'FreeJoint':
            for q0 in range(len(POSES)):
                yield {'j': joint, 'q0': q0, 'nv': 49}
            continue
        kinds = ref.JOINTS[joint]
        for q0 in range(len(ANG if kinds[0][0] == 'r' else TRA)):
            yield {'j': joint, 'q0': q0,
                   'nv': 49 if tier == 'thorough' else
                   (7 if len(kinds) < 3 else 3)}
        for form in range(5):
            yield {'j': joint, 'form': form}
    for form in range(5):
        yield {'j': 'FreeJoint', 'form': form}
    # positions and velocities with every set of null components
    for joint in ref.ALL_JOINTS:
        n = ref.ndof(joint)
        if n:
            for bits in range(2 ** n):
                yield {'j': joint, 'bits': bits}
    for joint in ref.ALL_JOINTS:
        if ref.ndof(joint):
            for k in range(4):
                yield {'j': joint, 'small': k}
    for joint in ref.ALL_JOINTS:
        if ref.ndof(joint):
            for k in range(len(FAR)):
                yield {'j': joint, 'far': k}


def reference(joint, q, v):
    """H01, J, dJ by the elementary motions (identity anchors)."""
    t = ref.Tree([dict(parent=-1, joint=joint, F0=np.eye(4), F1=np.eye(4))])
    pose, J = t.jacobians({0: q})
    dJ = t.djacobians({0: q}, v)
    return pose[0], J[0], dJ[0]


def dpose(joint, q, v):
    """Time derivative of the pose (complex step)."""
    h = 1e-30
    if joint == 'FreeJoint':
        T = np.zeros((4, 4))
        T[:3, :3] = ref.hat(v[:3])
        T[:3, 3] = v[3:]
        return q.dot(T)
    H = ref.joint_pose(joint, np.asarray(q) + 1j * h * np.asarray(v))
    return H.imag / h


def check(j, joint, q, v, cov, what):
    H, J, dJ = reference(joint, q, v)
    T = J.dot(v)
    dH = dpose(joint, q, v)
    n = ref.ndof(joint)
    require(j.ndof == n, what + 'ndof %s' % j.ndof)
    same(what + 'pose', j.pose, H)
    same(what + 'inverse pose', j.ipose, ref.hinv(H))
    same(what + 'jacobian', j.jacobian, J)
    same(what + 'twist', j.twist, T)
    same(what + 'derivative of the jacobian', j.djacobian, dJ)
    # the twist is the velocity of the pose
    S = ref.hinv(H).dot(dH)
    same(what + 'twist and variation of the pose', j.twist,
         np.array([S[2, 1], S[0, 2], S[1, 0], S[0, 3], S[1, 3], S[2, 3]]))
    Ad = ref.ad_of_pose(H)
    iH = ref.hinv(H)
    iAd = ref.ad_of_pose(iH)
    iT = -Ad.dot(T)
    same(what + 'inverse twist', j.itwist, iT)
    same(what + 'adjoint', j.adjoint, Ad)
    same(what + 'inverse adjoint', j.iadjoint, iAd)

    def adjacency(t):
        A = np.zeros((6, 6))
        A[:3, :3] = A[3:, 3:] = ref.hat(t[:3])
        A[3:, :3] = ref.hat(t[3:])
        return A
    same(what + 'adjacency', j.adjacency, adjacency(T))
    same(what + 'inverse adjacency', j.iadjacency, adjacency(iT))

    def dad(H, dH):
        h = 1e-30
        return ref.ad_of_pose(H + 1j * h * dH).imag / h
    same(what + 'derivative of the adjoint', j.dadjoint, dad(H, dH))
    diH = -iH.dot(dH).dot(iH)
    same(what + 'derivative of the inverse adjoint', j.idadjoint,
         dad(iH, diH))
    cov.check(14)
    cov.step()
    cov.state(joint, q, v)


def run(case):
    if 'form' in case:
        return run_form(case)
    if 'bits' in case:
        return run_bits(case)
    if 'small' in case:
        return run_small(case)
    if 'far' in case:
        return run_far(case)
    cov = Cov()
    joint = case['j']
    n = ref.ndof(joint)
    if joint == 'FixedJoint':
        j = make_joint(joint)
        check(j, joint, np.zeros(0), np.zeros(0), cov, '')
        j.integrate(np.zeros(0), 0.1)
        check(j, joint, np.zeros(0), np.zeros(0), cov, 'integrated: ')
        cov.nontrivial = True
        return cov
    if joint == 'FreeJoint':
        Q = [POSES[case['q0']]]
    else:
        pools = [ANG if k == 'r' else TRA for k, _ in ref.JOINTS[joint]]
        Q = [np.array((pools[0][case['q0']],) + rest)
             for rest in itertools.product(*pools[1:])]
    j = make_joint(joint)
    m = 0
    for q in Q:
        for k in range(case['nv']):
            m += 1
            kk = m if case['nv'] < 49 else k
            v = np.array([VEL[(kk // 7 ** (i % 2) + i * (1 + kk % 3)) % 7]
                          for i in range(n)])
            if m % 2:
                j.gpos[:] = q
                j.gvel[:] = v
            else:
                j.gpos = q.copy()
                j.gvel = v.copy()
            what = '%s q=%s v=%s: ' % (joint, np.round(q, 9).tolist(), v)
            check(j, joint, q, v, cov, what)
            if m % 3 == 0:
                dt = (0.1, 0.001, 1., 1e-5)[m // 3 % 4]
                v1 = v[::-1].copy()
                j.integrate(v1, dt)
                same(what + 'integrated velocity', j.gvel, v1, 1e-12)
                q1 = q.dot(ref.expm_se3(dt * v1)) if joint == 'FreeJoint' \
                    else q + dt * v1
                same(what + 'integrated (dt=%g)' % dt, j.gpos, q1, 1e-10)
                check(j, joint, q1, v1, cov, what + 'integrated: ')
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_form(case):
    """What the constructors accept, and that they copy it."""
    cov = Cov()
    joint, form = case['j'], case['form']
    n = ref.ndof(joint)
    if joint == 'FreeJoint':
        q = POSES[1].copy()
        if form == 2:
            q = ref.hom(np.diag([1., -1., -1.]), [1., 2., -3.])
    else:
        q = np.array([0.4, -1.1, 2.])[:n]
        if form == 2:
            q = np.array([1., -2., 3.])[:n]
    v = np.array([0.5, -2., 3., 0.1, 7., -1.])[:n]
    if form == 0:
        j = make_joint(joint)
        q = np.eye(4) if joint == 'FreeJoint' else np.zeros(n)
        v = np.zeros(n)
    elif form == 1:
        a, b = q.copy(), v.copy()
        j = make_joint(joint, a, b)
        # the joint keeps its own copy
        j.gpos[:] = 0.
        j.gvel[:] = 0.
        same('array given as position', a, q, 0.)
        same('array given as velocity', b, v, 0.)
        j.gpos[:] = q
        j.gvel[:] = v
        a[:] = 99.
        b[:] = 99.
    elif form == 2:
        # integers
        v = np.array([1., -2., 3., 0., 7., -1.])[:n]
        j = make_joint(joint, q.astype(int).tolist(), v.astype(int).tolist())
    elif form == 3:
        j = make_joint(joint, q.tolist(), tuple(v))
    else:
        if n != 1:
            j = make_joint(joint, q, None)
            v = np.zeros(n)
        else:
            j = make_joint(joint, float(q[0]), float(v[0]))
    same('position', j.gpos, q, 1e-14)
    same('velocity', j.gvel, v, 1e-14)
    check(j, joint, q, v, cov, '%s form %d: ' % (joint, form))
    j.integrate(v + 0.25, 0.1)
    q1 = q.dot(ref.expm_se3(0.1 * (v + 0.25))) if joint == 'FreeJoint' else \
        q + 0.1 * (v + 0.25)
    same('%s form %d: integrated' % (joint, form), j.gpos, q1, 1e-12)
    check(j, joint, q1, v + 0.25, cov, '%s form %d: ' % (joint, form))
    # two joints share nothing
    k = make_joint(joint)
    k2 = make_joint(joint)
    k.gpos[:] = q
    k.gvel[:] = v
    check(k2, joint, np.eye(4) if joint == 'FreeJoint' else np.zeros(n),
          np.zeros(n), cov, '%s: another joint: ' % joint)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_bits(case):
    """Velocities with null components, at positions that are general or have
    null components themselves; steps of integration."""
    cov = Cov()
    joint, bits = case['j'], case['bits']
    n = ref.ndof(joint)
    on = np.array([bits >> i & 1 for i in range(n)], float)
    if joint == 'FreeJoint':
        Q = list(POSES)
    else:
        Q = [np.array([0.4, -1.1, 2.])[:n] * [m >> i & 1 for i in range(n)]
             for m in range(2 ** n)]
    j = make_joint(joint)
    for q in Q:
        for k in range(4):
            v = on * np.array([[0.5, -2., 3., 0.1, 7., -1.], np.ones(6),
                               -0.01 * np.ones(6), [-1., -1, -1, 4., 4, 4]
                               ][k])[:n]
            what = '%s q=%s v=%s: ' % (joint, np.round(q, 9).tolist(), v)
            j.gpos[:] = q
            j.gvel[:] = v
            check(j, joint, q, v, cov, what)
            for v0 in (v, np.zeros(n), v[::-1] + 1.):
                for dt in (0.1, 0.001, 2.):
                    j.gpos = q.copy()
                    j.gvel = v0.copy()
                    j.integrate(v.copy(), dt)
                    q1 = q.dot(ref.expm_se3(dt * v)) if joint == 'FreeJoint' \
                        else q + dt * v
                    same(what + 'integrated velocity', j.gvel, v, 1e-12)
                    same(what + 'integrated (dt=%g)' % dt, j.gpos, q1, 1e-10)
                    cov.check(2)
                    cov.step()
            check(j, joint, q1, v, cov, what + 'integrated: ')
    cov.nontrivial = bool(bits)
    cov.traces = 1
    return cov


def run_small(case):
    """A joint read before and after changes of any size of its position and
    velocity, in place or not."""
    cov = Cov()
    joint, k = case['j'], case['small']
    n = ref.ndof(joint)
    j = make_joint(joint)
    base = POSES[k] if joint == 'FreeJoint' else \
        np.array([0.4, -1.1, 2.])[:n] * (k % 2)
    v0 = np.array([0.5, -2., 3., 0.1, 7., -1.])[:n] * (k // 2)
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.
        for step in (1., 1e-2, 1e-4, 1e-6, 3e-7, 1e-7, 1e-8):
            for sign in (1., -1.):
                d = sign * step * e
                q1 = base.dot(ref.expm_se3(d)) if joint == 'FreeJoint' else \
                    base + d
                for form in range(3):
                    j.gpos = base.copy()
                    j.gvel = v0.copy()
                    what = '%s changed by %s' % (joint, d)
                    H0 = np.array(j.pose)
                    T0 = np.array(j.twist)
                    J0 = np.array(j.jacobian)
                    dJ0 = np.array(j.djacobian)
                    if form == 0:
                        j.gpos[:] = q1
                        j.gvel[:] = v0 + d
                    elif form == 1:
                        j.gpos = q1.copy()
                        j.gvel = v0 + d
                    else:
                        j.integrate(d / 0.125, 0.125)
                        j.gvel = v0 + d
                    H, J, dJ = reference(joint, q1, v0 + d)
                    same(what + ': pose', j.pose, H, 2e-10, 1.)
                    same(what + ': twist', j.twist, J.dot(v0 + d), 2e-10,
                         max(1., np.abs(v0).max()))
                    same(what + ': jacobian', j.jacobian, J, 2e-10, 1.)
                    same(what + ': derivative of the jacobian', j.djacobian,
                         dJ, 2e-10, max(1., np.abs(v0).max()))
                    cov.check(4)
                    cov.step()
    cov.state(case)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_far(case):
    """A joint that goes far: several steps in a row from a far position, in
    both directions, at speeds of any size."""
    cov = Cov()
    joint, far = case['j'], FAR[case['far']]
    n = ref.ndof(joint)
    for sign in (1., -1.):
        for speed in (1e-3, 1., 30., 2e3):
            for dt in (0.001, 0.1, 4.):
                j = make_joint(joint)
                if joint == 'FreeJoint':
                    q = POSES[3].copy()
                    q[:3, 3] = np.array([far, -far, 0.5 * far]) * sign
                    v = speed * np.array([1e-3, 2e-3, -1e-3, 1., -1., 0.5])
                else:
                    q = sign * far * np.array([1., -1., 1.])[:n]
                    v = sign * speed * np.array([1., -1., 0.5])[:n]
                j.gpos[:] = q
                j.gvel[:] = v
                size = far + 4. * dt * speed * 2.
                for k in range(4):
                    what = '%s far=%g v=%g dt=%g, step %d: ' % (
                        joint, sign * far, speed, dt, k)
                    j.integrate(v.copy(), dt)
                    if joint == 'FreeJoint':
                        q = q.dot(ref.expm_se3(dt * v))
                    else:
                        q = q + dt * v
                    same(what + 'position', j.gpos, q, 1e-11, size)
                    same(what + 'velocity', j.gvel, v, 1e-12)
                    H = q if joint == 'FreeJoint' else \
                        ref.joint_pose(joint, q)
                    same(what + 'pose', j.pose, H, 1e-11, size)
                    if k == 3:
                        # the positions that follow are those of the joint
                        Hi, Ji, dJi = reference(joint, q, v)
                        same(what + 'jacobian', j.jacobian, Ji, 1e-10, size)
                        same(what + 'twist', j.twist, Ji.dot(v), 1e-10,
                             size * max(1., speed))
                    cov.check(3)
                    cov.step()
    cov.state(case)
    cov.nontrivial = True
    cov.traces = 1
    return cov
