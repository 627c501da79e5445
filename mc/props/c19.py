"""Weight."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc.users import user_controller
from mc import ref
from mc.spaces import kinematic_worlds

META = dict(
    rule='every world of the kinematic space, under every gravity and up axis '
         'of the alphabets, taken through a history of configurations, mass '
         'changes and re-initializations; the generalized force is compared '
         'with the sum of the weights at the centers of mass (position '
         'jacobians of the reference model), and its impedance with zero; '
         'free falls are compared with the ballistic motion; non-trivial: '
         'the force is not zero',
    bounds='kinematic space (1 to 40 bodies), 5 gravities, 7 up axes, 8 kinds '
           'of mass (1e-14 to 1e6 of it), 5 kinds of history',
)
CHUNK = 20
GRAV = [None, -9.81, 0., -1.62, 3.7]
UPS = [None, (0, 0, 1), (1, 0, 0), (0, -1, 0), (0.6, 0, 0.8), (0, 0, -1),
       (2. / 3, -2. / 3, 1. / 3)]


def cases(tier):
    n = 0
    for c in kinematic_worlds(tier):
        if len(c['l']) == 1 and n % 3 and tier != 'thorough':
            n += 1
            continue
        c['g'] = n % 5 if n % 7 else 0
        c['u'] = n % 7
        c['r'] = n // 5 % 5
        n += 1
        yield c
    for u in range(7):
        for g in range(5):
            for k in range(7):
                for m in 'abcdhp':
                    yield {'fall': [u, g, k, m]}


def run(case):
    cov = Cov()
    if 'fall' in case:
        run_fall(case['fall'], cov)
    else:
        run_world(case, cov)
    cov.traces = 1
    return cov


def weight(s, m, up, g):
    f = np.zeros(s.tree.ndof)
    for i in s.tree.order:
        mass, com, _ = s.mass[i]
        H, J = m['pose'][i], m['J'][i]
        R = H[:3, :3]
        Jc = R.dot(J[3:] - ref.hat(com).dot(J[:3]))
        f += mass * g * Jc.T.dot(up)
    return f


def controller(g, name=None):
    from arboris.controllers import WeightController
    if g is None:
        return WeightController(name=name)
    return WeightController(g, name)


def run_world(case, cov):
    from mc.worlds import MASSES, mass_matrix, naming
    s = Sim(case['l'], case['h'][0][0], case['h'][0][1],
            names=naming(case['l']))
    w = s.world
    up = UPS[case['u']]
    if up is not None:
        w.up[:] = up
    up = np.array((0, 1, 0) if up is None else up, float)
    g = GRAV[case['g']]
    c = controller(g)
    w.register(c)
    c2 = None
    if case['r'] == 2:
        c2 = controller(0.5)
        w.register(c2)
    light = 1.
    if case['r'] == 4:
        # bodies of any weight
        light = (1e-7, 1e-14, 1e6)[case['u'] % 3]
        for i in s.mass:
            s.bodies[i].mass[:] *= light
            s.mass[i] = (s.mass[i][0] * light, s.mass[i][1],
                         s.mass[i][2] * light)
    if case['r'] == 2:
        # points at the origin of their body
        for i in s.mass:
            if (i + case['u']) % 2 and s.mass[i][0] > 0:
                s.mass[i] = s.mass[i][0], np.zeros(3), np.zeros((3, 3))
                s.bodies[i].mass = np.diag([0., 0., 0.] + [s.mass[i][0]] * 3)
    # (a world with massless bodies has no dynamics without some damping)
    n = s.tree.ndof
    w.register(user_controller([np.zeros(n)], [-np.eye(n)]))
    w.init()
    gv = -9.81 if g is None else g
    for n, cfg in enumerate(case["h"][:6]):
        s.set_config(*cfg)
        if case['r'] == 1 and n == 1:
            # masses that change (staying positive)
            for i in s.mass:
                if s.mass[i][0] > 0:
                    key = 'bdh'[i % 3]
                    s.mass[i] = MASSES[key]
                    if i % 2:
                        s.bodies[i].mass = mass_matrix(key)
                    else:
                        s.bodies[i].mass[:] = mass_matrix(key)
        if case['r'] == 3 and n == 1:
            # any change of mass, then init
            for i in s.mass:
                key = 'zbpd'[(i + n) % 4]
                s.mass[i] = MASSES[key]
                s.bodies[i].mass[:] = 0.
                if key != 'z':
                    s.bodies[i].mass[:] = mass_matrix(key)
            if case['u'] % 2:
                # on another planet
                c.gravity = gv = (-1.62, 3, 0.)[case['u'] // 2]
            w.init()
        w.update_dynamic()
        m = s.model()
        ref_f = weight(s, m, up, gv)
        what = 'gravity %s, up %s, configuration %d: ' % (g, up.tolist(), n)
        scale = max(light, sum(abs(s.mass[i][0]) for i in s.mass) *
                    max(1., max(abs(m['J'][i]).max(initial=0.) for i in m['J'])))
        f, Z = c.update(0.01)
        same(what + 'weight', f, ref_f, 1e-10, scale)
        same(what + 'impedance', Z, np.zeros((s.tree.ndof,) * 2), 0.)
        if c2 is not None:
            ref_f = ref_f + weight(s, m, up, 0.5)
        w.update_controllers(0.01)
        same(what + 'forces of the world', w.gforce, ref_f, 1e-10, scale)
        cov.check(3)
        cov.step()
        cov.nontrivial |= bool(abs(ref_f).max() > 1e-6 * light) if len(ref_f) else False
        cov.state(case['l'], s.gvel(), ref_f)


def run_fall(p, cov):
    """A free body: its center of mass has a constant acceleration."""
    u, g, k, m = p
    s = Sim([[-1, 'FreeJoint', 0, 0, m, 'z']], k, 0)
    if m == 'p':
        # without inertia, nothing can be said of the rotation
        return
    w = s.world
    up = np.array((0, 1, 0) if UPS[u] is None else UPS[u], float)
    w.up[:] = up
    c = controller(GRAV[g])
    w.register(c)
    w.init()
    gv = -9.81 if GRAV[g] is None else GRAV[g]
    com = np.array(s.mass[0][1])
    v0 = np.array([0., 0, 0, 1., -2., 0.5])     # no rotation
    s.joints[0].gvel[:] = v0
    H = s.q[0].copy()
    vel = H[:3, :3].dot(v0[3:])
    dt = 0.01
    for n in range(10):
        w.update_dynamic()
        w.update_controllers(dt)
        w.update_constraints(dt)
        w.integrate(dt)
        vel = vel + dt * gv * up
        H[:3, 3] += dt * vel
        v = s.joints[0].gvel
        same('fall, angular velocity', v[:3], np.zeros(3), 1e-8,
             max(1., abs(H).max()))
        Hr = s.joints[0].gpos
        same('fall, velocity', Hr[:3, :3].dot(v[3:]), vel, 1e-9)
        same('fall, position', Hr, H, 1e-8)
        cov.check(3)
        cov.step()
        cov.state(p, n)
    cov.nontrivial = gv != 0.
