"""Recorders, energy, center of mass and performance observers."""
import itertools
import re
import time
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, naming
from mc.users import user_observer
from mc import ref, scen
from mc.spaces import kinematic_worlds

META = dict(
    rule='recorders: every scenario and pair of timelines (the observers are '
         'used twice), all the recorders at once; each record is compared '
         'with what a spy saw at that step, and must be its own copy. energy '
         'and center of mass: every world of the kinematic space, every '
         'non-empty subset of up to 3 bodies (a few for larger ones), along '
         'a history; compared with the reference model. performance: counts '
         'and totals; non-trivial: something moves',
    bounds='22 scenarios x 5 x 5 timelines of 1 to 7 steps; kinematic space '
           '(1 to 40 bodies); every subset of bodies up to 3',
)
CHUNK = 10
TIMES = [[0., 0.01, 0.02, 0.03], [0., 0.002], [1., 1.01, 1.03, 1.031, 1.05],
         [0., 0.01, 0.011, 0.021, 0.05, 0.06, 0.07, 0.08],
         [-0.5, -0.49, -0.47]]


def cases(tier):
    thorough = tier == 'thorough'
    for name in scen.NAMES + scen.MORE:
        for a in range(5):
            for b in range(5):
                yield {'m': 'rec', 's': name, 't': [a, b]}
    n = 0
    for c in kinematic_worlds(tier):
        n += 1
        if not thorough and len(c['l']) == 1 and n % 2:
            continue
        c['m'] = 'com'
        c['mask'] = n
        c['u'] = n % 4
        yield c
    for name in ('arm', 'contact'):
        for k in range(3):
            yield {'m': 'perf', 's': name, 'k': k}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


def run_rec(case, cov):
    from arboris import observers as ob
    from arboris.core import simulate
    from arboris.collisions import choose_solver
    d = scen.build(case['s'])
    w = d['world']
    joints = list(w.iterjoints())
    frames = list(w.iterframes())
    bodies = [b for b in w.iterbodies() if b.mass[5, 5] > 0]
    cons = list(w.iterconstraints())
    shapes = list(w.itershapes())
    recs, spies = [], []
    for j in joints:
        if j.ndof:
            recs.append(ob.RecordJointGpos(j))
            spies.append(lambda j=j: np.array(j.gpos))
            recs.append(ob.RecordJointGvel(j, name='v'))
            spies.append(lambda j=j: np.array(j.gvel))
    for f in frames:
        recs.append(ob.RecordFramePose(f))
        spies.append(lambda f=f: np.array(f.pose))
        recs.append(ob.RecordFrameTwist(f))
        spies.append(lambda f=f: np.array(f.twist))
    for a, b in itertools.combinations(shapes, 2):
        try:
            sh, solver = choose_solver(a, b)
        except NotImplementedError:
            continue
        recs.append(ob.RecordDistance(a, b))
        spies.append(lambda sh=sh, solver=solver: float(solver(sh)[0]))
    if bodies:
        recs.append(ob.RecordCoMPosition(bodies))
        spies.append(lambda: com(bodies)[0])
    forces = []
    for c in cons:
        recs.append(ob.RecordConstForce(c))
        spies.append(lambda c=c: np.array(c.gforce))
        forces.append(len(recs) - 1)
    energy = ob.EnergyMonitor()
    perf = ob.PerfMonitor()
    jac = {}

    def spy():
        out = [np.array(s()) for s in spies]
        for i, c in zip(forces, cons):
            jac.setdefault(i, []).append(np.array(c.jacobian))
        out.append(energies(w))
        return out
    start = scen.state(w)
    if case['t'][0] % 2:
        # used before, in another world
        other = scen.build(('weight', 'contact')[case['t'][1] % 2])['world']
        other.up[:] = (0.8, 0., 0.6)
        simulate(other, TIMES[case['t'][1]], [energy, perf])
        require(len(energy.time) == len(TIMES[case['t'][1]]) - 1, 'times')
        same('energy in another world', energy.mechanichal_energy[0] -
             energy.kinetic_energy[0], energy.potential_energy[0], 1e-9)
    for use, t in enumerate(case['t']):
        timeline = TIMES[t]
        if use and sum(case['t']) % 2:
            # the masses and the up axis change between the simulations
            for i, b in enumerate(w.ground.iter_descendant_bodies()):
                A = np.eye(6)
                A[3:, :3] = ref.hat(np.array([(0.1, -0.2, 0.3), (0., 0.3, 0.),
                                              (-0.2, 0., 0.1)][i % 3]))
                b.mass[:] = A.T.dot((0.5 + i % 2) * b.mass).dot(A)
            w.up[:] = (0.6, 0., -0.8)
            w.init()
        log = []
        jac.clear()
        simulate(w, timeline, recs + [energy, perf, user_observer(
            log, 'spy', w, spy)])
        seen = [e[4] for e in log if e[0] == 'obs update']
        n = len(timeline) - 1
        require(len(seen) == n, 'steps seen')
        for i, r in enumerate(recs):
            got = r.get_record()
            what = '%s, %s: ' % (case['s'], type(r).__name__)
            require(len(got) == n, '%s%d records of %d steps' % (
                what, len(got), n))
            for k in range(n):
                if i in jac:
                    same('%sstep %d' % (what, k),
                         jac[i][k].T.dot(np.array(got[k], float)), seen[k][i],
                         1e-9)
                else:
                    same('%sstep %d' % (what, k), np.array(got[k], float),
                         seen[k][i], 1e-9)
                cov.check()
        for k in range(n):
            ec, ep = seen[k][-1]
            what = '%s, energy at step %d, ' % (case['s'], k)
            require(len(energy.time) == n, what + '%d times' % len(energy.time))
            same(what + 'time', energy.time[k], timeline[k], 1e-9)
            same(what + 'kinetic', energy.kinetic_energy[k], ec, 1e-9)
            same(what + 'potential', energy.potential_energy[k], ep, 1e-9)
            same(what + 'mechanical', energy.mechanichal_energy[k], ec + ep,
                 1e-9)
            cov.check(4)
            cov.step()
        require(len(energy.kinetic_energy) == n, 'length of the energies')
        summary(perf, n, None)
    cov.nontrivial = bool(abs(scen.state(w) - start).max() > 1e-9)
    cov.state(case['s'], case['t'], scen.state(w))


def com(bodies):
    """Center of mass and total mass from the mass matrices and poses."""
    total, p = 0., np.zeros(3)
    for b in bodies:
        m = b.mass[5, 5]
        # M[0:3, 3:6] = m hat(c)
        c = np.array([b.mass[2, 4], b.mass[0, 5], b.mass[1, 3]]) / m
        p += m * (b.pose[:3, :3].dot(c) + b.pose[:3, 3])
        total += m
    return p / total, total


def energies(w):
    ec = sum(0.5 * b.twist.dot(b.mass).dot(b.twist)
             for b in w.ground.iter_descendant_bodies())
    bodies = [b for b in w.ground.iter_descendant_bodies() if b.mass[5, 5] > 0]
    ep = 0.
    if bodies:
        p, m = com(bodies)
        ep = 9.81 * m * p.dot(w.up)
    return np.array([float(ec), float(ep)])


def run_com(case, cov):
    from arboris import observers as ob
    # (no point masses: they are not valid for massmatrix.principalframe)
    links = [l[:4] + ['d' if l[4] == 'p' else l[4], l[5]] for l in case['l']]
    s = Sim(links, case['h'][0][0], case['h'][0][1], names=naming(links))
    w = s.world
    if case['u']:
        w.up[:] = [(0, 1, 0), (0, 0, 1), (1, 0, 0), (0.6, 0, -0.8)][case['u']]
    # bodies as light as one likes
    for i in s.mass:
        light = ((1e-7, 1e-7, 1e-7), (1., 1e-6, 3e-8))[case['mask'] // 6 % 2][
            i % 3] if case['mask'] % 3 == 0 else 1.
        s.bodies[i].mass[:] *= light
        s.mass[i] = (s.mass[i][0] * light, s.mass[i][1],
                     s.mass[i][2] * light)
    n = len(case['l'])
    masks = range(1, 2 ** n) if n <= 3 else [
        2 ** n - 1, 1 + case['mask'] % (2 ** n - 1),
        1 + (case['mask'] * 7919) % (2 ** n - 1)]
    obs = []
    for k, mask in enumerate(masks):
        sel = [i for i in range(n) if mask >> i & 1]
        if k % 2:
            sel.reverse()
        mass = sum(s.mass[i][0] for i in sel)
        if mass == 0:
            continue
        bodies = [s.bodies[i] for i in sel]
        if k % 3 == 1:
            bodies.insert(0, w.ground)
        obs.append((sel, ob.CoMObserver(bodies), mass))
        obs.append((sel, ob.CoMObserver(bodies, compute_Jacobians=False), mass))
    energy = ob.EnergyMonitor()
    energy.init(w, [0., 1.])
    for _, o, _ in obs:
        o.init(w)
    kept = []
    far = [(0., 0., 0.), (300., -2e3, 500.), (-40., 1e4, -700.),
           (-2e3, -150., -900.)]
    for k, cfg in enumerate(case['h'][:5]):
        s.set_config(*cfg)
        if k % 2:
            # far away, at any height
            for i, l in enumerate(links):
                if l[0] < 0 and l[1] == 'FreeJoint':
                    s.q[i] = s.q[i].copy()
                    s.q[i][:3, 3] += far[(k + case['mask'] + i) % 4]
                    s.write(i)
                elif l[0] < 0 and l[1] == 'TxTyTzJoint':
                    s.q[i] = s.q[i] + np.array(far[(k + case['mask']) % 4])
                    s.write(i)
        w.update_dynamic()
        m = s.model()
        gv = m['v']
        size = max([1.] + [abs(p[:3, 3]).max() for p in m['pose'].values()])
        for sel, o, mass in obs:
            o.update(0.01)
            p = np.zeros(3)
            J, dJ = np.zeros((3, s.tree.ndof)), np.zeros((3, s.tree.ndof))
            for i in sel:
                mi, c, _ = s.mass[i]
                H, Ji, dJi = m['pose'][i], m['J'][i], m['dJ'][i]
                R, C = H[:3, :3], ref.hat(c)
                Jc = Ji[3:] - C.dot(Ji[:3])
                W = ref.hat(Ji[:3].dot(gv))
                p += mi * (R.dot(c) + H[:3, 3])
                J += mi * R.dot(Jc)
                dJ += mi * R.dot(W.dot(Jc) + dJi[3:] - C.dot(dJi[:3]))
            what = 'center of mass of %s, configuration %d: ' % (sel, k)
            got = o.get_CoMPosition()
            same(what + 'position', got, p / mass, 1e-9, size)
            kept.append((got, got.copy()))
            if o.compute_Jacobians:
                got = o.get_CoMJacobian()
                same(what + 'jacobian', got, J / mass, 1e-9, size)
                kept.append((got, got.copy()))
                same(what + 'derivative of the jacobian', o.get_CoMdJacobian(),
                     dJ / mass, 1e-8, max(size, abs(dJ).max(initial=0.) / mass))
                cov.check(2)
            cov.check()
        for a, b in kept:
            same('a value given before', a, b, 0.)
        energy.update(0.01)
        ec = 0.5 * gv.dot(m['M']).dot(gv)
        ep = 0.
        for i in s.tree.order:
            mi, c, _ = s.mass[i]
            H = m['pose'][i]
            ep += 9.81 * mi * (H[:3, :3].dot(c) + H[:3, 3]).dot(w.up)
        what = 'energy, configuration %d, ' % k
        same(what + 'kinetic', energy.kinetic_energy[-1], ec, 1e-8)
        same(what + 'potential', energy.potential_energy[-1], ep, 1e-8,
             max(1., abs(ep), 10. * size * sum(x[0] for x in s.mass.values())))
        same(what + 'mechanical', energy.mechanichal_energy[-1],
             energy.kinetic_energy[-1] + energy.potential_energy[-1], 1e-9)
        require(len(energy.time) == k + 1, what + 'times')
        cov.check(4)
        cov.step()
        cov.state(case['l'], gv, p if obs else 0)
        cov.nontrivial |= bool(len(gv)) and bool(abs(gv).max() > 1e-6)


def summary(perf, n, wall):
    text = perf.get_summary()
    val = [float(x) for x in re.findall(r': *([-+0-9.e]+)', text)]
    require(len(val) == 4, 'summary: %r' % text)
    total, lo, mean, hi = val
    eps = 1e-9 * max(1., total)
    require(lo <= mean + eps and mean <= hi + eps, 'summary: %r' % text)
    require(abs(mean * n - total) <= 1e-6 * max(1., total),
            'total %g and mean %g of %d steps' % (total, mean, n))
    if wall is not None:
        require(total <= wall + 1e-3, 'total %g in %g s' % (total, wall))


def run_perf(case, cov):
    from arboris import observers as ob
    from arboris.core import simulate
    d = scen.build(case['s'])
    w = d['world']
    perf = ob.PerfMonitor(log=case['k'] == 2, name='perf')
    for t in (0, 3, 1):
        n = len(TIMES[t]) - 1
        t0 = time.time()
        simulate(w, TIMES[t], [perf] if case['k'] else (perf,))
        summary(perf, n, time.time() - t0)
        cov.step(n)
        cov.check(2)
        cov.state('perf', case['s'], t)
        cov.nontrivial = True
