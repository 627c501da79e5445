"""Mass, viscosity and non-linear effects matrices."""
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, MASSES, VISC, naming
from mc import spaces, ref, worlds

META = dict(
    rule='every world of the bounded space is taken through a history of '
         'configurations, then of changes of the mass and viscosity of its '
         'bodies; after each update the three matrices (and the non-linear '
         'effects of each body) are compared with the sums of the definition, '
         'with the jacobians of the reference; non-trivial: some body is '
         'moving and massive',
    bounds='as for the forward kinematics; 8 mass and 4 viscosity matrices '
           '(none, centred, general, semi-definite, tiny, heavy, '
           'not symmetric viscosity), every viscosity matrix of one entry, '
           'every set of null components of the center of mass and of the '
           'products of inertia; 8 units of mass (1e-20 to 1e12)',
)


def cases(tier):
    for c in spaces.kinematic_worlds(tier):
        # (far away, the rounding errors of the sums are too large)
        if not any(6 in l[2:4] for l in c['l']):
            yield c
    # viscosity and mass matrices with few entries
    for n in range(len(SPARSE)):
        for i in range(36):
            yield {'s': n, 'v': [i // 6, i % 6]}
        for unit in range(len(UNITS)):
            yield {'s': n, 'u': unit}
        for bits in range(8):
            for sign in (1, -1):
                for inertia in range(8):
                    yield {'s': n, 'c': [bits, sign, inertia]}


# units of mass
UNITS = [1e-3, 1e-6, 1e-9, 1e-11, 1e-14, 1e-20, 1e6, 1e12]


def run_units(case):
    """Light and heavy bodies: the matrices are in proportion."""
    cov = Cov()
    f = UNITS[case['u']]
    sim = Sim(SPARSE[case['s']], k=1, vk=2)
    w = sim.world
    for i in sim.tree.order:
        sim.bodies[i].mass[:] *= f
        sim.bodies[i].viscosity[:] *= f
    for cfg in ((1, 2), (3, 4), (0, 1), (2, 3)):
        sim.set_config(*cfg)
        w.update_dynamic()
        m = sim.model()
        for name, a, b in (('mass', w.mass, m['M']),
                           ('viscosity', w.viscosity, m['B']),
                           ('nleffects', w.nleffects, m['N'])):
            same('unit of mass %g: world %s' % (f, name), a / f, b)
            cov.check()
        cov.step()
        cov.state(case['u'], m['M'], m['N'])
    cov.nontrivial = True
    cov.traces = 1
    return cov


# worlds where these matrices are put on each body in turn
SPARSE = [
    [[-1, 'FreeJoint', 0, 0, 'b', 'z']],
    [[-1, 'FreeJoint', 3, 1, 'b', 'z'], [0, 'RzRyRxJoint', 1, 2, 'a', 'z']],
    [[-1, 'TxTyTzJoint', 0, 0, 'a', 'z'], [0, 'RxJoint', 2, 0, 'b', 'z'],
     [0, 'RzRyJoint', 0, 3, 'd', 'z']],
]


def run_sparse(case):
    cov = Cov()
    sim = Sim(SPARSE[case['s']], k=1, vk=2)
    w = sim.world
    for i in sim.tree.order:
        b = sim.bodies[i]
        old = sim.mass[i], sim.visc[i]
        if 'v' in case:
            for value in (1.5, -0.3):
                for pair in (False, True):
                    V = np.zeros((6, 6))
                    a, c = case['v']
                    V[a, c] = value
                    if pair:
                        V[c, a] = value
                    sim.visc[i] = V
                    b.viscosity = V.copy()
                    w.update_dynamic()
                    check(sim, cov, 'viscosity %s of body %d' % (case['v'], i))
                    cov.step()
            sim.visc[i] = old[1]
            b.viscosity = old[1].copy()
        else:
            bits, sign, k = case['c']
            com = tuple(sign * (0.3, 0.7, -0.4)[x] * (bits >> x & 1)
                        for x in range(3))
            I = np.diag([0.4, 0.5, 0.6])
            for x, (r, c) in enumerate(((0, 1), (0, 2), (1, 2))):
                if k >> x & 1:
                    I[r, c] = I[c, r] = 0.1 - 0.15 * x
            sim.mass[i] = (1.5, com, I)
            b.mass = ref.spatial_mass(1.5, com, I)
            for cfg in ((1, 2), (3, 4), (0, 1)):
                sim.set_config(*cfg)
                w.update_dynamic()
                check(sim, cov, 'center of mass %s, inertia %d of body %d' % (
                    com, k, i))
                cov.step()
            sim.mass[i] = old[0]
            b.mass = ref.spatial_mass(*old[0])
    cov.nontrivial = True
    cov.traces = 1
    return cov


def check(sim, cov, what):
    m = sim.model()
    w = sim.world
    for name, a, b in (('mass', w.mass, m['M']),
                       ('viscosity', w.viscosity, m['B']),
                       ('nleffects', w.nleffects, m['N'])):
        same('%s: world %s' % (what, name), a, b)
        cov.check()
    v = m['v']
    vmax = float(np.abs(v).max(initial=0.))
    if 0. < vmax < 1e-3:
        # (linear in the velocity)
        same('%s: world nleffects' % what, w.nleffects, m['N'], scale=max(
            np.abs(m['N']).max(), vmax * max(1., np.abs(m['M']).max())))
        cov.check()
    for i in sim.tree.order:
        T = m['J'][i].dot(v)
        Nb = ref.body_nleffects(*(tuple(sim.mass[i]) + (T[:3],)))
        b = sim.bodies[i]
        # the wrench needed by the gyroscopic effects
        same('%s: nleffects of body %d' % (what, i), b.nleffects.dot(T),
             Nb.dot(T), scale=max(1., float(np.abs(Nb).max() *
                                            max(1., np.abs(T).max()))))
        cov.check()
    e = float(v.dot(w.mass).dot(v))
    require(e >= -1e-9 * max(1., np.abs(m['M']).max(initial=0.) *
                             v.dot(v)), '%s: kinetic energy %g' % (what, e))
    cov.state(m['M'], m['B'], m['N'])
    return e


def run(case):
    if 'u' in case:
        return run_units(case)
    if 's' in case:
        return run_sparse(case)
    cov = Cov()
    sim = Sim(case['l'], k=case['h'][0][0], vk=case['h'][0][1],
              moving=bool(case['mv']), names=naming(case['l']))
    w = sim.world
    w.update_dynamic()
    cov.step()
    e = check(sim, cov, 'start')
    for n, cfg in enumerate(case['h']):
        sim.set_config(*cfg)
        w.update_dynamic()
        cov.step(2)
        e = max(e, check(sim, cov, 'step %d' % n))
    # the mass and the viscosity of bodies are changed, by assignment and in
    # place
    keys = sorted(MASSES)
    for i in sim.tree.order[:2]:
        b = sim.bodies[i]
        mk = keys[(i + len(case['l'])) % len(keys)]
        sim.mass[i] = MASSES[mk]
        b.mass = ref.spatial_mass(*MASSES[mk])
        w.update_dynamic()
        check(sim, cov, 'mass of body %d assigned' % i)
        b.mass[:] = ref.spatial_mass(*MASSES['d'])
        sim.mass[i] = MASSES['d']
        sim.visc[i] = VISC['g']
        b.viscosity = VISC['g'].copy()
        w.update_dynamic()
        check(sim, cov, 'mass of body %d written' % i)
        cov.step(5)
    w.init()
    w.update_dynamic()
    check(sim, cov, 'after init')
    cov.nontrivial = e > 0
    cov.traces = 1
    return cov
