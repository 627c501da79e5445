"""One time step solves the discretized dynamics, positions stay on the
manifold."""
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, naming
from mc import spaces, ref
from mc.users import user_controller

META = dict(
    rule='every world of the bounded space, with each set of user controllers '
         '(forces, and diagonal, full or non symmetric impedances), is taken '
         'through a history of time steps of different lengths; each '
         'transition is compared with the solution of the documented linear '
         'system written with the matrices of the reference model, and with '
         'the exact integration of the positions; non-trivial: the velocity '
         'changed',
    bounds='worlds of 1 to 4 bodies over the 14 joints, and up to 20 bodies; '
           '5 sets of controllers; worlds with every set of null coordinates, '
           'velocities and components of the frames; 4 steps of 1e-5 to 0.7 s (60 for the '
           'drift histories), and of 1e-10 to 28 s',
    assumptions=['cases whose linear system is conditioned worse than 1e9 are '
                 'compared by their residual only'],
)
CHUNK = 20
DTS = [0.01, 0.002, 0.05, 1e-4, 0.1, 1. / 300., 1.1e-5,
       0.0123456789, 0.7]


def cases(tier):
    for links, n in spaces.dynamic_worlds(tier):
        yield {'l': links, 'c': n % 5, 'k': n % 13, 'v': n % 7, 'n': 4}
        if tier == 'thorough' or n % 7 == 0:
            for c in range(5):
                yield {'l': links, 'c': c, 'k': (n + 5) % 13, 'v': (n + 2) % 7,
                       'n': 4}
        if tier == 'thorough' or n % 3 == 0:
            yield {'l': links, 'c': n % 2, 'k': (n + 3) % 13, 'v': (n + 4) % 7,
                   'n': 3, 'own': 1}
        if n % (5 if tier == 'thorough' else 25) == 0:
            yield {'l': links, 'c': 1, 'k': n % 13, 'v': 3, 'n': 60}
        # very short steps, and very long ones
        if n % (3 if tier == 'thorough' else 11) == 0:
            for u in (1e-5, 40.):
                yield {'l': links, 'c': (n // 11) % 5, 'k': (n + 4) % 13,
                       'v': (n + 1) % 7, 'n': 3, 'u': u}
            # tiny forces and impedances, and huge ones
            for f in (1e-10, 1e9):
                yield {'l': links, 'c': 1 + n // 11 % 4, 'k': (n + 4) % 13,
                       'v': (n + 1) % 7, 'n': 1, 'f': f}
    # null coordinates and velocities, at the beginning
    n = 0
    for c in spaces.pattern_worlds(tier):
        for h in c['h'] if tier == 'thorough' else c['h'][::3]:
            n += 1
            yield {'l': c['l'], 'c': n % 5, 'k': h[0] % 13, 'v': h[1] % 7,
                   'n': 3, 'b': h[4:]}
    # identical bodies, the roles of which are exchanged at every step (by the
    # user, or by the impedances of the controllers): all the permutations,
    # with one length of step
    for i, j in enumerate(ref.ALL_JOINTS):
        if j == 'FixedJoint':
            continue
        for what in (1, 2, 3):
            for f in ((0, 2, 4) if tier == 'thorough' else (2 * (i % 2),)):
                yield {'l': [[-1, j, f, (f + i) % 6, 'ab'[i % 2], 'zg'[i % 2]]
                             for _ in range(3)],
                       'c': 0, 'k': i % 13, 'v': i % 7, 'n': 7, 'pm': what}


PERMS = [(0, 1, 2), (1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0), (2, 0, 1),
         (0, 1, 2)]


def exchanged(n):
    """forces and impedances of a controller, that are exchanged"""
    d = n // 3
    a = np.repeat([-1., -4., -9.], d)
    c = np.add.outer(np.arange(d), np.arange(3 * d)) % 5 * -0.1
    f, z = [], []
    for p in PERMS:
        i = np.concatenate([np.arange(d) + d * k for k in p])
        f.append(np.cos(np.arange(n))[i])
        Z = np.diag(a)
        Z[:d] += c
        z.append(Z[np.ix_(i, i)])
    return f, z


def controls(kind, n):
    """forces and impedances of the controllers"""
    i = np.arange(n)
    f = np.cos(3. * i + 1.) * (1. + i)
    D = np.diag(-0.5 - 0.1 * i)
    F = -0.3 * (np.eye(n) + 0.2 * np.cos(np.add.outer(i, i))
                / max(n, 1))
    U = -np.triu(np.outer(np.sin(i + 1.), np.cos(2. * i))) * 0.1
    if kind == 0:
        return []
    if kind == 1:
        return [([f, -f, 2 * f], [np.zeros((n, n))])]
    if kind == 2:
        return [([f], [D]), ([0 * f], [F, 2 * F])]
    if kind == 3:
        return [([-f], [U, D + U]), ([10 * f], [0 * D]), ([f], [D, F, U])]
    return [([f, 0 * f], [D, F])]


def run(case):
    cov = Cov()
    sim = Sim(case['l'], k=case['k'], vk=case['v'],
              names=naming(case['l']))
    if 'b' in case:
        sim.set_config(case['k'], case['v'], 0, 1., *case['b'])
    w = sim.world
    n = sim.tree.ndof
    ctrls = controls(case['c'], n)
    if case.get('pm', 0) & 2:
        ctrls = [exchanged(n)]
    if 'f' in case:
        ctrls = [([x * case['f'] for x in f], [x * case['f'] for x in z])
                 for f, z in ctrls]
    start = dict(sim.q), dict(sim.dq)
    keep = []
    for k, (f, z) in enumerate(ctrls):
        keep.append(([x.copy() for x in f], [x.copy() for x in z]))
        w.register(user_controller(f, z, name='c%d' % k))
    w.init()
    t = 0.
    moved = 0.
    for step in range(case['n']):
        dt = DTS[(step + case['k']) % len(DTS)] if case['n'] < 10 else 0.01
        dt *= case.get('u', 1.)
        if 'pm' in case:
            dt = 0.05
        if case.get('pm', 0) & 1:
            for i in sim.tree.order:
                sim.q[i] = start[0][PERMS[step][i]].copy()
                sim.dq[i] = start[1][PERMS[step][i]].copy()
                sim.write(i, step % 2)
        m = sim.model()
        v = m['v']
        Z = m['M'] / dt + m['B'] + m['N']
        g = np.zeros(n)
        for f, z in keep:
            g += f[min(step, len(f) - 1)]
            Z = Z - z[min(step, len(z) - 1)]
        D = np.sqrt(np.abs(np.diag(Z))) + 1e-300
        cond = np.linalg.cond(Z / np.outer(D, D)) if n else 1.
        if not cond < 1e12:
            cov.tag('singular')
            break           # a singular position of a joint: no dynamics
        if case.get('own'):
            # the user gives the joints arrays of his own, of the same values
            for i in sim.tree.order:
                j = sim.joints[i]
                j.gvel = np.array(j.gvel)
                j.gpos = np.array(j.gpos)
        w.update_dynamic()
        w.update_controllers(dt)
        same('generalized force', w.gforce, g, 1e-12)
        w.update_constraints(dt)
        w.integrate(dt)
        t += dt
        what = 'step %d (dt=%g): ' % (step, dt)
        rhs = m['M'].dot(v) / dt + g
        v1 = w.gvel
        scale = np.abs(Z).max(initial=1e-300) * np.abs(v1).max(initial=0.) \
            + np.abs(rhs).max(initial=0.) + 1e-12
        require(np.isfinite(v1).all(), what + 'velocity %s' % v1)
        # relative residual of the linear system
        if cond < 1e9:
            same(what + 'residual', Z.dot(v1) - rhs, 0. * rhs,
                 1e-13 * max(cond, 1e3), scale)
            x = np.linalg.solve(Z, rhs) if n else rhs
            # what rounding may do to the solution, when it is computed
            # through the inverse
            xs = max(np.abs(x).max(initial=0.), np.abs(v).max(initial=0.),
                     1e-12)
            Y = np.abs(np.linalg.inv(Z)) if n else Z
            noise = Y.dot(np.abs(Z)).dot(Y.dot(np.abs(rhs))).max(initial=0.)
            full = np.linalg.cond(Z) if n else 1.
            same(what + 'new velocity', v1, x,
                 max(1e-13 * max(cond, 1e4), min(1e-7, 2e-16 * full),
                     min(1e-5, 3e-15 * noise / xs)), scale=xs)
            same(what + 'admittance', w.admittance.dot(Z), np.eye(n),
                 1e-12 * max(cond, 1e3),
                 scale=max(1., np.abs(Z).max(initial=0.) *
                           np.abs(w.admittance).max(initial=0.) * 1e-3))
            cov.check(3)
        if np.abs(v1).max(initial=0.) > 1e3:
            cov.tag('diverged')
            break
        for i in sim.tree.order:
            joint = case['l'][i][1]
            if joint == 'FixedJoint':
                continue
            j = sim.joints[i]
            vi = v1[sim.tree.dof[i]]
            same(what + 'velocity of joint %d' % i, j.gvel, vi, 1e-13)
            if joint == 'FreeJoint':
                q = sim.q[i].dot(ref.expm_se3(dt * vi))
                H = np.array(j.gpos)
                same(what + 'position of free joint %d' % i, H, q, 1e-10,
                     scale=max(1., np.abs(q).max(), dt * np.abs(vi).max()))
                R = H[:3, :3]
                same(what + 'orthonormality', R.T.dot(R), np.eye(3), 1e-9)
                same(what + 'last row', H[3], np.array([0, 0, 0, 1.]), 0.)
                cov.check(2)
            else:
                same(what + 'position of joint %d' % i, j.gpos,
                     sim.q[i] + dt * vi, 1e-13)
            cov.check(2)
        same(what + 'current time', w.current_time, t, 1e-12)
        for (f, z), (f0, z0) in zip(ctrls, keep):
            for a, b in zip(list(f) + list(z), list(f0) + list(z0)):
                same(what + 'arrays of the controllers', a, b, 0.)
        moved = max(moved, np.abs(v1 - v).max(initial=0.))
        sim.read_config()
        cov.step()
        cov.state(v1, [sim.q[i] for i in sim.tree.order])
        if np.abs(v1).max(initial=0.) > 1e5:
            break           # diverged: the scheme is explicit in part
    cov.nontrivial = moved > 0
    cov.traces = 1
    return cov
