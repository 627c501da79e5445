"""Frictional contacts."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc.users import user_controller
from mc import ref

META = dict(
    rule='single: every pair of bodies, contact pose, signed distance, '
         'friction coefficient, step and velocity of the product of the '
         'alphabets; the force found is checked against the law itself '
         '(separation, or contact kept with a force in the friction cone, '
         'no sliding inside the cone, force opposite to the sliding on its '
         'border) on the reference model; histories: balls that fall, '
         'bounce no, slide, roll, spin and get stacked, step after step; '
         'non-trivial: the contact force is not zero',
    bounds='5 worlds, 4 contact poses, 5 units of mass, 5 of inertia, 7 distances, 6 friction coefficients, '
           '3 steps, 3^4 to 5^4 relative velocities; 7 to 14 sides of '
           'the cone x 3 forces x 16 offsets from its border; 5 proximities x 7 '
           'distances x 9 normal velocities; 300 histories of 12 '
           'steps with 1 to 4 contacts',
    assumptions=['sliding law claimed where the admittance of the contact is '
                 'regular; for bodies with too few degrees of freedom only '
                 'the friction cone and the absence of adhesion'],
)
CHUNK = 4

# links, bodies in contact
WORLDS = [
    ([[-1, 'FreeJoint', 0, 0, 'b', 'z']], (-1, 0)),
    ([[-1, 'FreeJoint', 0, 0, 'd', 'd']], (0, -1)),
    ([[-1, 'FreeJoint', 0, 1, 'b', 'z'], [-1, 'FreeJoint', 3, 0, 'h', 'z']],
     (0, 1)),
    ([[-1, 'FreeJoint', 0, 1, 'b', 'z'], [0, 'RzJoint', 1, 0, 'd', 'z'],
      [1, 'RxJoint', 1, 0, 'd', 'g']], (-1, 2)),
    ([[-1, 'RzRyRxJoint', 0, 1, 'b', 'z'], [0, 'TxTyTzJoint', 1, 0, 'd', 'z']],
     (1, -1)),
]
POOR = [
    ([[-1, 'RzJoint', 0, 1, 'b', 'z']], (-1, 0)),
    ([[-1, 'RzJoint', 0, 1, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'z']],
     (1, -1)),
    ([[-1, 'RzRyRxJoint', 0, 1, 'b', 'z']], (-1, 0)),
]
DIST = [0., -1e-3, 1e-3, -0.05, 0.01, 0.015, -1e-6]
MU = [0.5, 0., 0.05, 1., 4., 0.2]
DT = [0.01, 0.001, 0.05]
V1 = [0., 1., -0.3]
AGAIN = [(0., 0.3, 0., -20.), (1., -2., 0.5, 30.), (-3., 0.1, 0.2, -8.)]
V2 = [0., 1., -0.3, 0.01, -4.]


def contact_poses():
    return [ref.hom(ref.rotation_from((1, 0, 0), -np.pi / 2), [1., 0.3, 0.2]),
            ref.hom(ref.rotation_from((1, 2, 3), 2.), [-0.4, 0.6, 0.7]),
            ref.hom(np.eye(3), [0.2, -0.1, 0.4]),
            ref.hom(ref.rotation_from((0, 1, 0), np.pi), [0.1, 0., -1.])]


def cases(tier):
    thorough = tier == 'thorough'
    for wn in range(len(WORLDS)):
        for p in range(4):
            for d in range(7):
                for mu in range(6):
                    for dt in range(3):
                        if not thorough and (p + d + mu + dt + wn) % 3:
                            continue
                        yield {'m': 'one', 'w': wn, 'p': p, 'd': d, 'mu': mu,
                               'dt': dt, 'nv': 5 if thorough else 3}
    # other units of mass
    for wn in range(len(WORLDS)):
        for d in range(0, 7, 1 if thorough else 3):
            for mu in range(6):
                for u in range(len(UNITS)):
                    if thorough or (wn + d // 3 + mu + u) % 4 == 0:
                        yield {'m': 'one', 'w': wn, 'p': (d + mu + wn) % 4,
                               'd': d, 'mu': mu, 'dt': (wn + u) % 3, 'nv': 3,
                               'u': UNITS[u]}
    # bodies that are easy, or difficult, to turn
    for wn in range(len(WORLDS)):
        for d in range(0, 7, 1 if thorough else 3):
            for mu in range(6):
                for r in range(len(TURN)):
                    if thorough or (wn + d // 3 + mu + r) % 3 == 0:
                        yield {'m': 'one', 'w': wn, 'p': (d + mu + r) % 4,
                               'd': d, 'mu': mu, 'dt': (wn + r) % 3, 'nv': 3,
                               'r': TURN[r]}
    for wn in range(len(WORLDS)):
        for p in range(4):
            for mu in range(6):
                for dt in range(3):
                    yield {'m': 'border', 'w': wn, 'p': p, 'mu': mu, 'dt': dt,
                           'nd': 14 if thorough else 7}
    for wn in range(len(WORLDS)):
        for p in range(4):
            for x in range(len(PROX)):
                for dt in range(3):
                    yield {'m': 'near', 'w': wn, 'p': p, 'x': x, 'dt': dt,
                           'mu': (wn + p + x + dt) % 6}
    for wn in range(len(POOR)):
        for p in range(4):
            for mu in range(6):
                yield {'m': 'poor', 'w': wn, 'p': p, 'mu': mu}
    for sc in range(5):
        for mu in range(6):
            for v in range(5 if not thorough else 9):
                for d in range(2):
                    yield {'m': 'fall', 's': sc, 'mu': mu, 'v': v, 'd': d,
                           'n': 12 if not thorough else 60}


UNITS = [1e-12, 1e-9, 1e-6, 1e6]
TURN = [1e-4, 1e-2, 1e3, 1e5]


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


def law(what, f, v0, A, sdist, dt, mu, cov, tol=1e-6, sharp=True):
    """The force f = (mz, fx, fy, fz) obeys the law, when the velocity without
    it would be v0."""
    v = v0 + A.dot(f)
    vs = max(1e-3, abs(v0).max(), abs(sdist) / dt)
    fs = max(1e-9, abs(f).max())
    require(np.isfinite(f).all(), what + 'force %s' % f)
    ft = np.sqrt((f[:3] ** 2).sum())
    require(f[3] >= -1e-9 * fs, what + 'adhesion: force %s' % f)
    require(ft <= mu * f[3] * (1 + 1e-5) + 1e-7 * fs,
            what + 'out of the cone: force %s, coefficient %g' % (f, mu))
    free_gap = sdist + dt * v0[3]
    if abs(free_gap) < 1e-9 * dt * vs:
        return
    if free_gap > 0:
        require(abs(A.dot(f)).max() <= tol * vs,
                what + 'force %s without contact' % f)
        return
    cov.nontrivial = True
    if not sharp:
        return
    require(abs(v[3] + sdist / dt) <= tol * vs,
            what + 'normal velocity %g instead of %g' % (v[3], -sdist / dt))
    vt = v[:3]
    if ft < mu * f[3] * (1 - 1e-4) - 1e-7 * fs:
        require(abs(vt).max() <= tol * vs, '%ssliding at %s inside the cone '
                '(force %s, coefficient %g)' % (what, vt, f, mu))
        cov.tag('static')
    else:
        n = np.sqrt(vt.dot(vt))
        if n > 10 * tol * vs and ft > 1e-7 * fs:
            c = vt.dot(f[:3]) / n / ft
            require(c <= -1 + 1e-5, '%sfriction %s not opposite to the sliding '
                    '%s' % (what, f[:3], vt))
        cov.tag('sliding')


def contact_jacobian(m, a, b, H0):
    out = []
    for i in (b, a):
        pose, J = m['pose'][i], m['J'][i]
        R, p = pose[:3, :3], pose[:3, 3]
        Jw = R.dot(J[:3])
        Jv = R.dot(J[3:]) + ref.hat(p - H0[:3, 3]).dot(Jw)
        out.append(np.vstack((H0[:3, :3].T.dot(Jw), H0[:3, :3].T.dot(Jv))))
    return (out[0] - out[1])[2:]


def prepare(spec, p, k=1):
    from arboris.shapes import Sphere
    links, (a, b) = spec
    s = Sim([list(l) for l in links], k, 0)
    for i, l in enumerate(links):
        if l[1] == 'FreeJoint':
            s.q[i] = ref.hom(ref.rotation_from((1, 2 + i, 3), 0.4),
                             [0.3 * i, 0.2, 0.1])
        else:
            s.q[i] = np.array([0.4, -0.3, 0.2])[:ref.ndof(l[1])] * (1 + i)
        s.write(i)
    # close to the body in contact
    pose, _ = s.tree.fk(s.q)
    H0 = contact_poses()[p]
    ib = a if b == -1 else b
    H0 = ref.hom(H0[:3, :3], H0[:3, 3] * 0.4 + pose[ib][:3, 3])
    return s, a, b, H0


def run_one(case, cov):
    from arboris.constraints import SoftFingerContact
    from arboris.shapes import Sphere
    s, a, b, H0 = prepare(WORLDS[case['w']], case['p'])
    w = s.world
    n = s.tree.ndof
    u = case.get('u', 1.)
    for i in s.mass:
        s.mass[i] = s.mass[i][0] * u, s.mass[i][1], s.mass[i][2] * u
        s.visc[i] = s.visc[i] * u
        s.bodies[i].mass[:] *= u
        s.bodies[i].viscosity[:] *= u
        if 'r' in case:
            # bodies that are easy, or difficult, to turn
            m, c, I = s.mass[i]
            s.mass[i] = m, c, I * case['r']
            s.bodies[i].mass[:] = ref.spatial_mass(m, c, I * case['r'])
    sd, mu, dt = DIST[case['d']], MU[case['mu']], DT[case['dt']]
    H1 = H0.copy()
    H1[:3, 3] += sd * H0[:3, 2]
    c = SoftFingerContact((Sphere(s.bodies[a], 1.), Sphere(s.bodies[b], 1.)),
                          mu, collision_solver=lambda sh: (sd, H0, H1),
                          proximity=100.)
    w.register(c)
    push = np.zeros(n)
    force = [push]
    w.register(user_controller(force, [np.zeros((n, n))]))
    w.init()
    m = s.model()
    J = contact_jacobian(m, a, b, H0)
    P = np.linalg.pinv(J)
    V = V2 if case['nv'] == 5 else V1
    for vc in itertools.product(V, repeat=4):
        for extra in (0., 2.):
            # the velocity that has this relative velocity, plus some others
            v = P.dot(np.array(vc))
            x = extra * np.cos(np.arange(n))
            v = v + x - P.dot(J.dot(x))
            for i in s.joints:
                s.dq[i] = v[s.tree.dof[i]]
                s.write(i)
            push[:] = u * extra * np.sin(np.arange(n) + 1.)
            w.update_dynamic()
            mm = s.model()
            Y = np.linalg.inv(mm['M'] / dt + mm['B'] + mm['N'])
            vfree = Y.dot(mm['M'].dot(mm['v']) / dt + push)
            A = u * J.dot(Y).dot(J.T)
            w.update_controllers(dt)
            w.update_constraints(dt)
            g = np.array(c.gforce) / u
            require(np.isfinite(g).all(), 'force %s' % g)
            f = P.T.dot(g)
            what = 'bodies %d %d, relative velocity %s, distance %g, ' \
                'coefficient %g, dt %g: ' % (a, b, list(vc), sd, mu, dt)
            same(what + 'force along the contact', J.T.dot(f), g, 1e-7,
                 max(1e-6, abs(g).max()))
            same(what + 'total force', w.gforce / u, g + push / u, 1e-9)
            law(what, f, J.dot(vfree), A, sd, dt, mu, cov)
            w.integrate(dt)
            same(what + 'velocity', w.gvel, vfree + u * Y.dot(g), 1e-7,
                 max(1., abs(vfree).max(), abs(u * Y.dot(g)).max()))
            # pushed by others, in three ways: the force is found again
            old = f
            for push2 in AGAIN:
                vel = J.dot(vfree) + np.array(push2) + A.dot(old)
                df = np.array(c.solve(vel.copy(), A / u, dt)) / u
                new = P.T.dot(c.gforce) / u
                same(what + 'change of the force, pushed by %s' % (push2,),
                     df, new - old, 1e-7, max(1e-6, abs(new).max(),
                                              abs(old).max()))
                law(what + 'pushed by %s: ' % (push2,), new,
                    J.dot(vfree) + push2, A, sd, dt, mu, cov)
                old = new
                cov.check(4)
            # back to the same place
            for i in s.joints:
                s.write(i)
            cov.step()
            cov.check(8)
            cov.state(case['w'], case['p'], sd, mu, dt, v)


PROX = [None, 0.1, 1e-3, 0., 0.5]
NEAR = [-0.05, -1e-3, 0., 5e-4, 0.01, 0.03, 0.2]
VN = [0., -1., 1., -20., 20., -5., 5., 0.3, -0.1]
TAN = [(0., 0., 0.), (0.5, 1., -0.3), (0., -2., 0.)]


def run_near(case, cov):
    """Close enough or not to be dealt with: the distance at the end of the
    step, at the present velocity, and the proximity of the contact."""
    from arboris.constraints import SoftFingerContact
    from arboris.shapes import Sphere
    s, a, b, H0 = prepare(WORLDS[case['w']], case['p'])
    w = s.world
    n = s.tree.ndof
    mu, dt, prox = MU[case['mu']], DT[case['dt']], PROX[case['x']]
    sd = [0.]

    def solver(sh):
        H1 = H0.copy()
        H1[:3, 3] += sd[0] * H0[:3, 2]
        return sd[0], H0, H1
    kw = {} if prox is None else {'proximity': prox}
    c = SoftFingerContact((Sphere(s.bodies[a], 1.), Sphere(s.bodies[b], 1.)),
                          mu, collision_solver=solver, **kw)
    prox = 0.02 if prox is None else prox
    w.register(c)
    push = np.zeros(n)
    w.register(user_controller([push], [np.zeros((n, n))]))
    w.init()
    J = contact_jacobian(s.model(), a, b, H0)
    P = np.linalg.pinv(J)
    for sd[0] in NEAR:
        for k, vn in enumerate(VN):
            for tan in TAN:
                v = P.dot(np.array(tan + (vn,)))
                for i in s.joints:
                    s.dq[i] = v[s.tree.dof[i]]
                    s.write(i)
                push[:] = 0. if k % 2 else 3. * np.sin(np.arange(n) + 1.)
                w.update_dynamic()
                mm = s.model()
                vn1 = J[3].dot(mm['v'])
                end = sd[0] + dt * vn1 - prox
                if abs(end) < 1e-9:
                    continue
                Y = np.linalg.inv(mm['M'] / dt + mm['B'] + mm['N'])
                vfree = Y.dot(mm['M'].dot(mm['v']) / dt + push)
                A = J.dot(Y).dot(J.T)
                w.update_controllers(dt)
                w.update_constraints(dt)
                what = 'bodies %d %d, distance %g, normal velocity %g, ' \
                    'proximity %g, dt %g: ' % (a, b, sd[0], vn1, prox, dt)
                require(bool(c.is_active()) == (end < 0), '%sactive: %s' % (
                    what, c.is_active()))
                g = np.array(c.gforce)
                if end < 0:
                    law(what, P.T.dot(g), J.dot(vfree), A, sd[0], dt, mu, cov)
                    same(what + 'total force', w.gforce, g + push, 1e-9)
                else:
                    same(what + 'force of the others', w.gforce, push, 1e-12)
                w.integrate(dt)
                for i in s.joints:
                    s.write(i)
                cov.step()
                cov.check(3)
                cov.state(case['w'], case['p'], sd[0], prox, dt, v)


SIDES = [(1., 0, 0), (0, 1., 0), (0, 0, -1.), (0.6, 0.8, 0), (-0.6, 0, 0.8),
         (0.48, -0.6, 0.64), (0, -0.28, 0.96), (-1., 0, 0), (0, -1., 0),
         (0, 0, 1.), (0, 0.6, 0.8), (-0.8, 0.6, 0), (0.36, 0.48, 0.8),
         (-0.64, -0.48, -0.6)]


def run_border(case, cov):
    """Solutions on the border of the cone, where sliding starts: the free
    velocity is chosen so that a given force and a given sliding are the
    solution."""
    from arboris.constraints import SoftFingerContact
    from arboris.shapes import Sphere
    s, a, b, H0 = prepare(WORLDS[case['w']], case['p'])
    w = s.world
    mu, dt = MU[case['mu']], DT[case['dt']]
    sd = [0.]

    def solver(sh):
        H1 = H0.copy()
        H1[:3, 3] += sd[0] * H0[:3, 2]
        return sd[0], H0, H1
    c = SoftFingerContact((Sphere(s.bodies[a], 1.), Sphere(s.bodies[b], 1.)),
                          mu, collision_solver=solver, proximity=100.)
    w.register(c)
    w.init()
    w.update_dynamic()
    w.update_controllers(dt)
    J = contact_jacobian(s.model(), a, b, H0)
    A = J.dot(w.admittance).dot(J.T)
    P = np.linalg.pinv(J)
    for side in SIDES[:case['nd']]:
        for fn in (1., 0.3, 50.):
            for rel in (0., 1e-13, -1e-13, 1e-10, -1e-10, 1e-8, -1e-8, 1e-6,
                        -1e-6, 1e-3, -1e-3):
                for slide in (0., 1e-12, 1e-9, 1e-6, 1e-3, 1.):
                    if rel and slide:
                        continue
                    sd[0] = (0., -1e-3, 1e-3)[int(fn) % 3]
                    f = np.array([mu * (1 + rel) * x * fn for x in side]
                                 + [fn])
                    v = np.concatenate((-slide * np.array(side),
                                        [-sd[0] / dt]))
                    v0 = v - A.dot(f)
                    c.update(dt)
                    df = np.array(c.solve(v0.copy(), A.copy(), dt))
                    g = np.array(c.gforce)
                    what = 'solution at %g of the border, sliding %g: ' % (
                        rel, slide)
                    same(what + 'change of the force', P.T.dot(g), df, 1e-7)
                    law(what, df, v0, A, sd[0], dt, mu, cov)
                    cov.step()
                    cov.check(5)
                    cov.state(case['w'], case['p'], mu, dt, side, fn, rel,
                              slide)


def run_poor(case, cov):
    from arboris.constraints import SoftFingerContact
    from arboris.shapes import Sphere
    s, a, b, H0 = prepare(POOR[case['w']], case['p'])
    w = s.world
    n = s.tree.ndof
    mu = MU[case['mu']]
    box = [0.]

    def solver(sh):
        H1 = H0.copy()
        H1[:3, 3] += box[0] * H0[:3, 2]
        return box[0], H0, H1
    c = SoftFingerContact((Sphere(s.bodies[a], 1.), Sphere(s.bodies[b], 1.)),
                          mu, collision_solver=solver, proximity=100.)
    w.register(c)
    w.init()
    J = contact_jacobian(s.model(), a, b, H0)
    for sd in DIST:
        for dt in DT:
            for k in range(9):
                v = np.array([V2[(k + 2 * i) % 5] for i in range(n)])
                for i in s.joints:
                    s.dq[i] = v[s.tree.dof[i]]
                    s.write(i)
                box[0] = sd
                mm = s.model()
                Y = np.linalg.inv(mm['M'] / dt + mm['B'] + mm['N'])
                A = J.dot(Y).dot(J.T)
                if A[3, 3] < 1e-6 * abs(A).max():
                    continue
                w.update_dynamic()
                w.update_controllers(dt)
                w.update_constraints(dt)
                g = np.array(c.gforce)
                what = 'world %d, distance %g, dt %g, velocity %s: ' % (
                    case['w'], sd, dt, v)
                require(np.isfinite(g).all(), what + 'force %s' % g)
                v0 = J.dot(Y.dot(mm['M'].dot(mm['v'])) / dt)
                if sd + dt * v0[3] > 1e-9:
                    same(what + 'force', g, 0 * g, 1e-12)
                else:
                    cov.nontrivial = True
                w.integrate(dt)
                for i in s.joints:
                    s.write(i)
                cov.step()
                cov.check(2)
                cov.state(case['w'], case['p'], sd, dt, v)


FALL_V = [(0, 0, 0, 0, 0, 0), (0, 0, 3., 2., -1., 0), (1., 5., -2., 0, 0, 0.5),
          (0, 0, 0, 3., -2., 1.), (0, 8., 0, 0, -4., 0), (0, 0, -6., 2., 0, 0),
          (0, 0, 0, 0.01, 0, 0), (3., 3., 3., -3., 1., 0), (9., 0, 0, 0, 0, 9.)]


def listen(c, ci, log):
    """Notes what the contact is given and finds."""
    solve = c.solve

    def heard(vel, admittance, dt):
        vel, A = np.array(vel), np.array(admittance)
        g = np.array(c.gforce)
        P = np.linalg.pinv(c.jacobian.T)
        df = np.array(solve(vel, admittance, dt))
        log.append((ci, P.dot(g), df, vel, A))
        same('contact %d: change of the force' % ci, P.dot(c.gforce - g), df,
             1e-7, max(1., abs(c.gforce).max()))
        return df
    c.solve = heard


def run_fall(case, cov):
    """Balls on planes, with the solvers of arboris."""
    from arboris.core import World, Body, SubFrame
    from arboris.shapes import Plane, Sphere, Point, Box
    from arboris.constraints import SoftFingerContact
    from arboris.controllers import WeightController
    from mc import scen
    w = World()
    mu = MU[case['mu']]
    dt = (0.01, 0.002)[case['d']]
    vel = np.array(FALL_V[case['v']], float)
    balls, conts = [], []
    sc = case['s']
    j, s0 = scen.ball(w, 0.305, 0.3, 'b0', vel)
    balls.append((j, s0))
    floor = Plane(w.ground, (0., 1., 0., 0.), 'floor')
    pairs = [(floor, s0)]
    if sc == 1:
        # a tilted plane on a tilted frame
        R = ref.rotation_from((0, 0, 1), 0.3)
        floor = Plane(SubFrame(w.ground, ref.hom(R, [0, 0, 0])),
                      (0., 2., 0., 0.), 'floor')
        j.gpos[:] = ref.hom(np.eye(3), R.dot([0., 0.301, 0.]))
        pairs = [(s0, floor)]
    if sc == 2:
        j1, s1 = scen.ball(w, 0.91, 0.3, 'b1')
        pairs.append((s0, s1))
        balls.append((j1, s1))
    if sc == 3:
        wall = Plane(w.ground, (1., 0., 0., -0.205), 'wall')
        pairs.append((wall, s0))
    if sc == 4:
        b = Box(w.ground, (2., 0.5, 2.), 'table')
        j.gpos[:] = ref.hom(ref.rotation_from((1, 1, 0), 1.),
                            [0.4, 0.803, -0.3])
        pairs = [(b, s0)]
    for p in pairs:
        c = SoftFingerContact(p, mu)
        before = set(map(id, w.getframes()))
        w.register(c)
        new = [f for f in w.getframes() if id(f) not in before]
        conts.append((c, new))
    w.register(WeightController())
    w.init()
    for k in range(case['n']):
        w.update_dynamic()
        w.update_controllers(dt)
        Y = w.admittance
        v = w.gvel
        vfree = Y.dot(w.mass.dot(v) / dt + w.gforce)
        gw = w.gforce
        # the result of the default settings, then of precise ones
        log = []
        for ci, (c, _) in enumerate(conts):
            listen(c, ci, log)
        w.update_constraints(dt, maxiters=3000, tol=1e-11)
        for n, (ci, f_old, df, vel, A) in enumerate(log):
            (f0, f1) = conts[ci][1]
            sd = f0.pose[:3, 2].dot(f1.pose[:3, 3] - f0.pose[:3, 3])
            law('scene %d, step %d, contact %d, solution %d: ' % (sc, k, ci, n),
                f_old + df, vel - A.dot(f_old), A, sd, dt, mu, cov, 1e-5)
            cov.check()
        for c, _ in conts:
            del c.solve
        same('sum of the forces', w.gforce - gw, sum(
            c.gforce for c, _ in conts), 1e-9)
        w.integrate(dt)
        vn = w.gvel
        for ci, (c, (f0, f1)) in enumerate(conts):
            if not c.is_active():
                continue
            J = c.jacobian
            g = np.array(c.gforce)
            f = np.linalg.lstsq(J.T, g, rcond=None)[0]
            A = J.dot(Y).dot(J.T)
            H0, H1 = f0.pose, f1.pose
            sd = H0[:3, 2].dot(H1[:3, 3] - H0[:3, 3])
            what = 'scene %d, step %d, contact %d: ' % (sc, k, ci)
            law(what, f, J.dot(vn) - A.dot(f), A, sd, dt, mu, cov,
                1e-6 if len(conts) == 1 else 1e-4, len(conts) == 1 or mu == 0.)
        # nobody goes through
        bound = 1e-6 + 4. * (abs(vn).max() * dt) ** 2
        w.update_geometric()
        from arboris.collisions import choose_solver
        for p in pairs:
            sh, solver = choose_solver(*p)
            sdist = solver(sh)[0]
            require(sdist >= -bound, 'scene %d, step %d: %g inside' % (
                sc, k, -sdist))
        cov.step()
        cov.check(4)
        cov.state(sc, case['mu'], case['v'], vn)
