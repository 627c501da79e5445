"""Proportional-derivative control."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc import ref

META = dict(
    rule='every world and ordered selection of its joints, with every form of '
         'gains and targets, along a history (steps of changing length, '
         'targets and gains changed by the user, links added and world '
         're-initialized, several controllers); forces and impedances are '
         'compared with the formula on the controlled dofs, and the velocity '
         'after the step with the reference dynamics; non-trivial: more than '
         'one controlled dof',
    bounds='6 worlds of 1 to 6 joints, all the ordered selections of 1 to 3 '
           'joints, 20 forms of gains (none, null, diagonal, symmetric, '
           'not symmetric, lists), 4 forms of targets, 4 forms of lists of joints, 5 histories',
)
CHUNK = 10
WORLDS = [
    [[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'd'],
     [1, 'RyJoint', 3, 0, 'b', 'z']],
    [[-1, 'FreeJoint', 0, 0, 'b', 'z'], [0, 'RzRyRxJoint', 1, 0, 'd', 'z'],
     [0, 'TzJoint', 3, 0, 'b', 'z'], [1, 'RzRxJoint', 1, 1, 'b', 'g']],
    [[-1, 'TxTyTzJoint', 0, 1, 'b', 'z'], [-1, 'RyRxJoint', 1, 0, 'd', 'z'],
     [1, 'FixedJoint', 0, 0, 'a', 'z'], [2, 'RxJoint', 0, 0, 'b', 'd'],
     [-1, 'RzJoint', 3, 0, 'b', 'z']],
    [[-1, 'RxTyJoint', 0, 1, 'b', 'z'], [0, 'TyJoint', 1, 0, 'd', 'z'],
     [0, 'FreeJoint', 1, 0, 'b', 'z'], [2, 'RyJoint', 0, 0, 'b', 'z']],
    [[-1, 'RzRyJoint', 0, 0, 'b', 'n']],
    [[-1, 'RzJoint', 0, 0, 'b', 'z'], [-1, 'TxJoint', 1, 0, 'd', 'z'],
     [0, 'RyRxJoint', 1, 0, 'b', 'z'], [1, 'RzRyRxJoint', 3, 0, 'b', 'z'],
     [2, 'TxTyTzJoint', 0, 0, 'd', 'd'], [0, 'RxJoint', 1, 1, 'b', 'z']],
]


def cases(tier):
    n = 0
    for wn, links in enumerate(WORLDS):
        lin = [i for i, l in enumerate(links)
               if l[1] not in ('FreeJoint', 'FixedJoint')]
        for m in (1, 2, 3) if tier != 'thorough' else (1, 2, 3, 4):
            for sel in itertools.permutations(lin, m):
                for kf in range(20):
                    for tf in range(4):
                        for h in range(5):
                            n += 1
                            if tier != 'thorough' and m == 3 and \
                               (kf + tf + h + n) % 8:
                                continue
                            if tier != 'thorough' and m == 2 and \
                               kf > 4 and (kf + tf + h + n) % 4:
                                continue
                            yield {'w': wn, 's': list(sel), 'k': kf, 't': tf,
                                   'h': h}
    yield {'w': -1}
    # any unit of length, of gain and of time, and any number of joints
    for wn, links in enumerate(WORLDS):
        for u in range(len(UNITS)):
            for h in range(len(UNITS)):
                yield {'w': wn, 'u': u, 'h': h}


UNITS = [1., 1e-13, 1e-6, 1e5]


def scaled(case, cov):
    from arboris.controllers import ProportionalDerivativeController as PD
    links = [list(l) for l in WORLDS[case['w']]]
    s = Sim(links, 1, 1)
    e, g = UNITS[case['u']], UNITS[case['h']]
    lin = [i for i, l in enumerate(links)
           if l[1] not in ('FreeJoint', 'FixedJoint')]
    w = s.world
    for m in range(len(lin) + 1):
        for sel in itertools.permutations(lin, m):
            if m > 3 and list(sel) != sorted(sel, reverse=sel[0] % 2):
                continue
            nd = sum(ref.ndof(links[i][1]) for i in sel)
            P = np.add(base_gain(nd, 1), np.ones((nd, nd))) * g / e
            D = np.add(base_gain(nd, 0), 0.1 * np.eye(nd, k=1)) * g / e
            q_, v_ = target(nd, 0, 1)[1] * e, target(nd, 0, 0)[1] * e
            q = np.zeros(0)
            for i in sel:
                k = ref.ndof(links[i][1])
                s.joints[i].gpos[:] = e * (0.1 + i + 0.7 * np.arange(k))
                s.joints[i].gvel[:] = e * (0.2 - i + 0.5 * np.arange(k))
                q = np.concatenate((q, s.joints[i].gpos))
            pd = PD([s.joints[i] for i in sel], P, D, q_, v_)
            pd.init(w)
            n = s.tree.ndof
            idx = np.concatenate([np.zeros(0, int)] + [np.arange(
                s.tree.dof[i].start, s.tree.dof[i].stop) for i in sel])
            for dt in (0.01, 1e-9, 30.):
                f, z = pd.update(dt)
                F, Z = np.zeros(n), np.zeros((n, n))
                F[idx] = P.dot(q_ - q) + D.dot(v_)
                Z[np.ix_(idx, idx)] = -(dt * P + D)
                what = 'world %d, joints %s, units %g, %g, step %g: ' % (
                    case['w'], sel, e, g, dt)
                same(what + 'force', f, F, 1e-12, abs(F).max(initial=g * 1e-9))
                same(what + 'impedance', z, Z, 1e-12,
                     abs(Z).max(initial=g * 1e-9))
                cov.check(2)
            cov.step()
            cov.state(case['w'], sel, e, g)
    cov.nontrivial = True


def base_gain(n, which):
    return np.diag([20. + 5 * i for i in range(n)]) * (1. if which else 0.05)


def gain(n, kf, which):
    """(argument, matrix)."""
    if kf > 17:
        # flat, not symmetric
        full = base_gain(n, which) + np.triu(
            np.arange(n * n).reshape(n, n), 1) * (-1. if which else 0.2)
        return (full.ravel().tolist() if kf == 18 else full.ravel()), full
    if kf > 4:
        # every pair of: none, null, diagonal, symmetric, not symmetric
        pairs = [(a, b) for a in (5, 6, 0, 1, 2) for b in (5, 6, 0, 1, 2)
                 if a != b and not (a > 4 and b > 4)]
        pairs = [x for x in pairs if x not in ((5, 0), (0, 1), (1, 0), (0, 6),
                                               (6, 0))]
        kf = pairs[(kf - 5) % len(pairs)][0 if which else 1]
    if kf == 5:
        return None, np.zeros((n, n))
    if kf == 6:
        return np.zeros((n, n)), np.zeros((n, n))
    base = base_gain(n, which)
    if kf == 0:
        return base, base
    if kf == 1:
        full = base + (0.2 if which else 0.02) * np.ones((n, n))
        return full, full
    if kf == 2:
        full = base + (1. if which else 0.1) * np.triu(
            np.arange(n * n).reshape(n, n), 1)
        return full, full
    if kf == 3:
        full = base.astype(int) + np.arange(n) + 1
        return full.tolist(), full
    if kf == 4 and which:
        return None, np.zeros((n, n))
    if kf == 4:
        # one dimensional when there is one dof, flat otherwise
        return base.ravel(), base
    return base, base


def target(n, tf, which):
    a = np.array([0.5, -0.3, 0.2, 1., -0.7, 0.1, 0.4, -1.2, 2., 0.3, -3.])
    a = np.resize(a, n) * (1. if which else -0.4)
    if tf == 0:
        return a, a
    if tf == 1:
        return None, np.zeros(n)
    if tf == 2:
        return (a.tolist(), a) if which else (None, np.zeros(n))
    b = np.round(a)
    return (b.astype(int), b) if not which else (a.reshape(-1, 1), a)


def run(case):
    cov = Cov()
    if case['w'] < 0:
        run_refused(cov)
    elif 'u' in case:
        scaled(case, cov)
    else:
        walk(case, cov)
    cov.traces = 1
    return cov


def walk(case, cov):
    from arboris.controllers import ProportionalDerivativeController as PD
    from arboris.core import JointsList
    links = [list(l) for l in WORLDS[case['w']]]
    s = Sim(links, 1, 1)
    for i, l in enumerate(links):
        if l[1] not in ('FreeJoint', 'FixedJoint'):
            s.q[i] = np.array([0.4, -0.3, 0.2])[:ref.ndof(l[1])] * (1 + i)
        s.dq[i] = 0.5 * np.arange(1, ref.ndof(l[1]) + 1) * (-1) ** i
        s.write(i)
    w = s.world
    sel = case['s']
    nd = sum(ref.ndof(links[i][1]) for i in sel)
    if nd == 0:
        return
    kp, Kp = gain(nd, case['k'], 1)
    kd, Kd = gain(nd, case['k'], 0)
    qd, Qd = target(nd, case['t'], 1)
    vd, Vd = target(nd, case['t'], 0)
    given = [x.copy() if isinstance(x, np.ndarray) else x
             for x in (kp, kd, qd, vd)]
    joints = [s.joints[i] for i in sel]
    kw = {}
    for name, x in (('kp', kp), ('kd', kd), ('gpos_des', qd),
                    ('gvel_des', vd)):
        if x is not None:
            kw[name] = x
    # any iterable of joints, that belongs to the user
    form = (case['k'] + case['t'] + case['h'] + len(sel)) % 4
    given_joints = {0: joints, 1: tuple(joints), 2: (j for j in joints),
                    3: JointsList(joints)}[form]
    pd = PD(given_joints, **kw)
    w.register(pd)
    if form == 0:
        joints.append(joints[0])
    elif form == 3:
        require(list(given_joints) == joints, 'the list of joints is modified')
    others = []
    if case['h'] == 3:
        # another one, on all the joints, in the reverse order
        js = [i for i in sorted(s.joints, reverse=True)
              if links[i][1] not in ('FreeJoint', 'FixedJoint')]
        n2 = sum(ref.ndof(links[i][1]) for i in js)
        w.register(PD([s.joints[i] for i in js], kd=0.3 * np.eye(n2)))
        others = [(js, np.zeros((n2, n2)), 0.3 * np.eye(n2), np.zeros(n2),
                   np.zeros(n2))]
    w.init()
    for k in range(4):
        dt = (0.01, 0.002, 0.05, 0.01)[k]
        if case['h'] == 1 and k == 2:
            # a link that shifts the indices of the dofs, then init
            add_link(s, links)
            w.init()
        if case['h'] == 2 and k == 1:
            Qd = Qd + 0.1
            pd.gpos_des = Qd.copy()
            Vd = 0.5 * Vd + 0.3
            pd.gvel_des = Vd.copy()
        if case['h'] == 2 and k == 2:
            Kp = 0.5 * Kp
            pd.kp = Kp.copy()
            Kd = Kd + 0.1 * np.eye(nd)
            pd.kd = Kd.copy()
        if case['h'] == 2 and k == 3:
            pd.gpos_des[0] += 0.25
            Qd = Qd.copy()
            Qd[0] += 0.25
        if case['h'] == 4 and k == 2:
            # the user moves the joints
            for i in sel:
                if links[i][1] != 'FixedJoint':
                    s.joints[i].gpos[:] += 0.2
                    s.joints[i].gvel[:] = 0.7
        s.read_config()
        m = s.model() if (k + case['k'] + case['w']) % 2 == 0 else None
        n = s.tree.ndof
        force, Z = np.zeros(n), np.zeros((n, n))
        for js, P, D, q_, v_ in [(sel, Kp, Kd, Qd, Vd)] + others:
            idx = np.concatenate([np.arange(
                s.tree.dof[i].start, s.tree.dof[i].stop) for i in js])
            q = np.concatenate([np.zeros(0) if links[i][1] == 'FixedJoint'
                                else s.q[i] for i in js])
            f0, Z0 = np.zeros(n), np.zeros((n, n))
            f0[idx] = P.dot(q_ - q) + D.dot(v_)
            Z0[np.ix_(idx, idx)] = -(dt * P + D)
            force += f0
            Z += Z0
        w.update_dynamic()
        what = 'world %d, joints %s, step %d: ' % (case['w'], sel, k)
        # other positions, velocities and steps at the same time
        for d in (0.3, -0.3) if k == 1 else ():
            for i in sel:
                if links[i][1] != 'FixedJoint':
                    s.joints[i].gpos[:] += d
                    s.joints[i].gvel[:] -= 3. * d
            if d > 0.:
                w.update_dynamic()
                f, z = pd.update(3. * dt)
                idx = np.concatenate([np.arange(
                    s.tree.dof[i].start, s.tree.dof[i].stop) for i in sel])
                q = np.concatenate([np.zeros(0) if links[i][1] == 'FixedJoint'
                                    else s.q[i] for i in sel])
                same(what + 'force elsewhere', f[idx],
                     Kp.dot(Qd - q - d) + Kd.dot(Vd), 1e-10)
                same(what + 'impedance of another step', z[np.ix_(idx, idx)],
                     -(3. * dt * Kp + Kd), 1e-10)
        w.update_dynamic()
        f, z = pd.update(dt)
        if not others:
            same(what + 'force', f, force, 1e-10)
            same(what + 'impedance', z, Z, 1e-10)
        w.update_controllers(dt)
        same(what + 'force of the world', w.gforce, force, 1e-10)
        w.update_constraints(dt)
        w.integrate(dt)
        if m is not None:
            A = m['M'] / dt + m['B'] + m['N'] - Z
        if m is not None and np.linalg.cond(A) < 1e8:
            v1 = np.linalg.solve(A, m['M'].dot(m['v']) / dt + force)
            same(what + 'velocity', w.gvel, v1, 1e-8, max(1., abs(v1).max()))
            cov.check()
        cov.check(3)
        cov.step()
        cov.state(case['w'], sel, case['k'], case['t'], k, force)
    for a, b in zip(given, (kp, kd, qd, vd)):
        if isinstance(a, np.ndarray):
            require((a == b).all(), 'an argument was modified')
    cov.nontrivial = nd > 1


def add_link(s, links):
    """A joint that comes before the other ones in depth-first order, when it
    is attached to the first body."""
    from arboris.core import Body
    from mc.worlds import make_joint, mass_matrix, MASSES
    i = len(links)
    parent = 0
    links.append([parent, 'RzJoint', 0, 0, 'b', 'z'])
    b = Body(mass=mass_matrix('b'))
    j = make_joint('RzJoint', [0.2], [0.3])
    s.world.add_link(s.bodies[parent], j, b)
    s.bodies[i], s.joints[i] = b, j
    s.q[i], s.dq[i] = np.array([0.2]), np.array([0.3])
    s.mass[i], s.visc[i] = MASSES['b'], np.zeros((6, 6))
    s.spec = links
    s.tree = ref.Tree(s.tree.links + [dict(
        parent=parent, joint='RzJoint', F0=np.eye(4), F1=np.eye(4))])


def run_refused(cov):
    from arboris.controllers import ProportionalDerivativeController as PD
    s = Sim([[-1, 'FreeJoint', 0, 0, 'b', 'z'], [0, 'RzJoint', 0, 0, 'b', 'z']])
    for sel in ([0], [0, 1], [1, 0]):
        try:
            PD([s.joints[i] for i in sel])
        except ValueError:
            cov.check()
        else:
            require(False, 'PD control of a free joint')
    for kp in (np.ones(3), np.ones((1, 2)), []):
        try:
            PD([s.joints[1]], kp=kp)
        except ValueError:
            cov.check()
        else:
            require(False, 'gains of a wrong size accepted')
    cov.step()
    cov.state('refused')
