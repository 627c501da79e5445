"""Ball and socket constraints."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc.users import user_controller
from mc import ref

META = dict(
    rule='every world, set of closures, kind and pose of the two frames, gap, '
         'configuration and pattern of steps, over a sequence of steps; at '
         'each step the velocity is compared with the solution of the '
         'dynamics under the constraint, solved at once in the reference '
         'model, and the gap that remains with the second order term of '
         'the motion; non-trivial: the constraint changes the motion',
    bounds='9 worlds (one to three closures: on the ground, between free '
           'bodies, between branches, planar loops with redundant closures, '
           'hinges), 5 kinds of frames, both orders, 3 gaps, 4 to 13 '
           'configurations, 3 patterns of steps, 6 steps (80 for the long '
           'histories)',
    assumptions=['with several closures the iterative solver is asked for a '
                 'tolerance of 1e-11'],
)
CHUNK = 5

WORLDS = [
    # links, closures (body, body)
    ([[-1, 'FreeJoint', 0, 1, 'b', 'z']], [(-1, 0)]),
    ([[-1, 'FreeJoint', 0, 0, 'b', 'z'], [-1, 'FreeJoint', 3, 0, 'd', 'd']],
     [(0, 1)]),
    ([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'z'],
      [1, 'RyJoint', 3, 1, 'b', 'z'], [2, 'RzJoint', 1, 0, 'd', 'g']],
     [(3, -1)]),
    ([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RzJoint', 1, 0, 'd', 'z'],
      [1, 'RzJoint', 1, 0, 'b', 'z'], [2, 'RzJoint', 1, 0, 'b', 'z']],
     [(-1, 3)]),
    ([[-1, 'FreeJoint', 0, 0, 'h', 'z'], [0, 'RzJoint', 1, 0, 'd', 'z'],
      [1, 'RxJoint', 3, 0, 'b', 'z'], [0, 'RyRxJoint', 3, 0, 'b', 'd'],
      [3, 'RzJoint', 1, 1, 'd', 'z']], [(2, 4)]),
    ([[-1, 'TxTyTzJoint', 2, 0, 'b', 'z'], [0, 'RzRyRxJoint', 0, 1, 'b', 'z']],
     [(1, -1)]),
    # several closures
    ([[-1, 'FreeJoint', 0, 0, 'b', 'z']], [(-1, 0), (0, -1)]),
    ([[-1, 'FreeJoint', 0, 1, 'b', 'z'], [-1, 'FreeJoint', 3, 0, 'd', 'z'],
      [-1, 'FreeJoint', 0, 0, 'b', 'd']], [(-1, 0), (1, 0), (1, 2)]),
    ([[-1, 'RzRyRxJoint', 0, 1, 'b', 'z'], [-1, 'FreeJoint', 1, 0, 'd', 'z'],
      [0, 'RzRyJoint', 1, 0, 'b', 'z'], [2, 'TxJoint', 3, 0, 'a', 'd']],
     [(2, 1), (3, -1)]),
]
GAPS = [(0., 0., 0.), (0.01, -0.02, 0.005), (0., 0., 0.3)]
STEPS = [(0.01,), (0.001, 0.03), (0.02, 0.005, 0.01)]
PUSH = [5., -3., 2., 8., -6., 1., 0.5]


def cases(tier):
    thorough = tier == 'thorough'
    for wn in range(len(WORLDS)):
        for k in range(13 if thorough else 4):
            for kind in range(6):
                for gap in range(3):
                    for swap in range(2):
                        for d in range(3):
                            if not thorough and (k + kind + gap + d) % (
                                    3 if kind < 4 else 6):
                                continue
                            yield {'w': wn, 'k': k, 'f': kind, 'g': gap,
                                   's': swap, 'd': d, 'n': 6}
        # the user moves the joints between the steps, and stops them or not
        for u in range(1, 5):
            for gap in range(3):
                for kind in range(6):
                    yield {'w': wn, 'k': u - 1, 'f': kind, 'g': gap,
                           's': u % 2, 'd': (u + gap + kind) % 3, 'n': 6,
                           'u': u}
        # the frames of the closures are moved on their bodies
        for k in range(4):
            for mv in range(1, 4):
                for kind in range(6):
                    yield {'w': wn, 'k': k, 'f': kind, 'g': (k + mv) % 3,
                           's': (k + kind) % 2, 'd': (k + mv + kind) % 3,
                           'n': 4, 'mv': mv}
        # very slow motions
        for k in range(4):
            for kind in range(6):
                for d in range(2):
                    yield {'w': wn, 'k': k, 'f': kind, 'g': d, 's': k % 2,
                           'd': d, 'n': 3, 'sm': (1e-6, 1e-9)[(k + kind) % 2]}
        for d in range(3):
            for kind in range(2):
                yield {'w': wn, 'k': 1 + d, 'f': kind, 'g': 0, 's': kind,
                       'd': d, 'n': 80 if not thorough else 400}


def local(kind, n):
    """Pose of a frame on its body (None: the body itself)."""
    if kind == 0:
        return ref.hom(np.eye(3), [0.1, 0.4 - 0.7 * n, 0.2])
    if kind == 1:
        return ref.hom(ref.rotation_from((1, 2, -1 - n), 1.2 + n),
                       [-0.3 + 0.5 * n, 0.4, 0.1])
    if kind == 2:
        return ref.hom(ref.rotation_from((0, 1, 1), 2.), [0.2, 0., 0.3 * n])
    if kind == 4:
        return ref.hom(ref.rotation_from((0, 0, 1), 0.9 + n), [0., 0., 0.])
    if kind == 5:
        return ref.hom(np.eye(3), [0., 0., 0.4 - 0.3 * n])
    return None


def run(case):
    cov = Cov()
    walk(case, cov)
    cov.traces = 1
    return cov


def point_jacobian(m, i, p):
    """Velocity of the point p of body i, in the ground frame."""
    H, J = m['pose'][i], m['J'][i]
    Jw = H[:3, :3].dot(J[:3])
    return H[:3, :3].dot(J[3:]) - ref.hat(p - H[:3, 3]).dot(Jw)


def walk(case, cov):
    from arboris.constraints import BallAndSocketConstraint
    from arboris.core import SubFrame, MovingSubFrame
    links, closures = WORLDS[case['w']]
    s = Sim(links, case['k'], 0)
    w = s.world
    n = s.tree.ndof
    sm = case.get('sm', 1.)
    moved = case.get('mv', 0)
    for i, l in enumerate(links):
        # moderate velocities and distances
        s.dq[i] = (0.3 * sm * np.array([1., -2., 1.5, 1., -1., 2.]) *
                   (-1) ** i)[:ref.ndof(l[1])]
        if l[1] == 'FreeJoint':
            s.q[i] = ref.hom(ref.rotation_from((1, 2 + i, 3), 0.4 * case['k']),
                             [0.3 * i, 0.2 - 0.1 * case['k'], 0.1])
        else:
            s.q[i] = np.array([0.4, -0.3, 0.2])[:ref.ndof(l[1])] * (
                1 + i) * (-1) ** (case['k'] // 2) + 0.2 * case['k']
        s.write(i)
    pose, _ = s.tree.fk(s.q)
    cons = []
    for c, (a, b) in enumerate(closures):
        L1 = local((case['f'] + c) % 4 if case['f'] < 4 else case['f'], c)
        H1 = pose[b].dot(np.eye(4) if L1 is None else L1)
        f1 = s.bodies[b] if L1 is None else SubFrame(s.bodies[b], L1)
        # the frame 0 is on body a, at the same place plus the gap
        rot = local((case['f'] + c + 1) % 3, c)[:3, :3]
        if case['f'] > 3:
            rot = ref.rotation_from((case['f'] - 4, 5 - case['f'], 0), 0.7) \
                if case['k'] % 2 else np.eye(3)
        H0 = ref.hom(rot, H1[:3, 3] + sm * np.array(GAPS[case['g']]))
        L0 = ref.hinv(pose[a]).dot(H0)
        cls = MovingSubFrame if case['f'] == 2 or moved & 1 else SubFrame
        f0 = cls(s.bodies[a], L0)
        if moved & 2:
            f1 = MovingSubFrame(s.bodies[b], np.eye(4) if L1 is None else L1)
        L1 = np.eye(4) if L1 is None else L1
        pair = [(f0, a, L0), (f1, b, L1)]
        if case['s']:
            pair.reverse()
        con = BallAndSocketConstraint((pair[0][0], pair[1][0]),
                                      name='c%d' % c)
        w.register(con)
        cons.append((con, pair))
    push = sm * np.array([PUSH[i % 7] for i in range(n)])
    w.register(user_controller([push], [-0.1 * np.eye(n)]))
    w.init()
    dts = STEPS[case['d']]
    size = 1.
    for k in range(case['n']):
        dt = dts[k % len(dts)]
        u = case.get('u', 0)
        for i, l in enumerate(links):
            if u and l[1] != 'FixedJoint':
                if u < 3 or k % 2 == 0:
                    # still
                    s.joints[i].gvel[:] = 0.
                if u != 2 and k:
                    # elsewhere
                    d = 0.02 * (1 + i) * (-1) ** (k // 2)
                    if l[1] == 'FreeJoint':
                        s.joints[i].gpos[:3, 3] += d
                    else:
                        s.joints[i].gpos[:] += d
        for c in range(len(cons) if moved and k else 0):
            con, ((f0, a, L0), (f1, b, L1)) = cons[c]
            D = ref.hom(ref.rotation_from((1, k, -1), 0.1 * k),
                        [0.01 * k, -0.02, 0.005 * (c + 1)])
            if type(f0) is MovingSubFrame:
                L0 = L0.dot(D)
                f0.bpose = L0
            if type(f1) is MovingSubFrame:
                L1 = D.dot(L1)
                f1.bpose = L1
            cons[c] = (con, ((f0, a, L0), (f1, b, L1)))
        s.read_config()
        m = s.model()
        Y = np.linalg.inv(m['M'] / dt + m['B'] + m['N'] + 0.1 * np.eye(n))
        vfree = Y.dot(m['M'].dot(m['v']) / dt + push)
        J, target = [], []
        for con, ((f0, a, L0), (f1, b, L1)) in cons:
            H0, H1 = m['pose'][a].dot(L0), m['pose'][b].dot(L1)
            # velocity of body 1 with regard to body 0, at the origin of the
            # frame 0, in frame 0
            J.append(H0[:3, :3].T.dot(point_jacobian(m, b, H0[:3, 3]) -
                                      point_jacobian(m, a, H0[:3, 3])))
            target.append(-H0[:3, :3].T.dot(H1[:3, 3] - H0[:3, 3]) / dt)
        J, target = np.vstack(J), np.concatenate(target)
        A = J.dot(Y).dot(J.T)
        sv = np.linalg.svd(A, compute_uv=False)
        rank = (sv > 1e-10 * sv[0]).sum()
        clear = rank == len(A) or sv[rank] < 1e-13 * sv[0]
        x = np.linalg.lstsq(A, target - J.dot(vfree), rcond=1e-10)[0]
        rest = abs(A.dot(x) - target + J.dot(vfree)).max()
        # redundant closures that do not agree have no solution; nor do we
        # compare where the number of closures is ill defined
        if not clear or sv[rank - 1] < 1e-7 * sv[0] or \
           rest > 1e-9 * max(1., abs(target).max()):
            cov.tag('left: ill conditioned or incompatible')
            break
        v1 = vfree + Y.dot(J.T.dot(x))
        if abs(v1).max() > 1e3:
            break
        w.update_dynamic()
        w.update_controllers(dt)
        if len(cons) > 1:
            asym = abs(A - A.T).max() / abs(A).max()
            if asym > 0.05 or sv[rank - 1] < 1e-3 * sv[0]:
                cov.tag('left: slow convergence')
                break
            w.update_constraints(dt, maxiters=20000, tol=1e-12)
        else:
            w.update_constraints(dt)
        total = sum(np.array(c.gforce) for c, _ in cons)
        w.integrate(dt)
        what = 'world %d, step %d: ' % (case['w'], k)
        scale = max(1. if sm == 1. else 1e-3, abs(v1).max(),
                    abs(vfree).max())
        tol = (1e-8 if len(cons) == 1 else 1e-6) * \
            max(1., 1e-4 * sv[0] / sv[rank - 1]) * (1. if sm == 1. else 10.)
        same(what + 'velocity', w.gvel, v1, tol, scale)
        same(what + 'effect of the forces', Y.dot(total), v1 - vfree, tol,
             scale)
        same(what + 'closure', J.dot(w.gvel), target, tol * 10, scale)
        # forces act along the closures only
        y = np.linalg.lstsq(J.T, total, rcond=1e-10)[0]
        same(what + 'forces along the closures', J.T.dot(y), total, 1e-6,
             max(1., abs(total).max()))
        s.read_config()
        pose, _ = s.tree.fk(s.q)
        # (what remains is of the second order in dt)
        reach = max(1., max(abs(p[:3, 3]).max() for p in pose.values()),
                    max(abs(p[1][2][:3, 3]).max() for _, p in cons))
        amp = max(max(abs(m['J'][i].dot(v1)).max() for i in m['J']),
                  abs(v1).max())
        for con, ((f0, a, L0), (f1, b, L1)) in cons:
            gap = pose[b].dot(L1)[:3, 3] - pose[a].dot(L0)[:3, 3]
            bound = 4. * n * (amp * dt) ** 2 * reach + 1e-9 + 10 * tol * dt
            require(abs(gap).max() <= bound,
                    '%sgap %s (dt %g, twist %g)' % (what, gap, dt, amp))
        cov.nontrivial |= bool(abs(v1 - vfree).max() > 1e-6 * sm)
        cov.step()
        cov.check(5)
        cov.state(case['w'], w.gvel)
