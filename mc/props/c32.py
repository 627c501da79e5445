"""The laws of mechanics, at the limit of small steps."""
import itertools
import numpy as np
from mc.engine import Cov, Violation
from mc.mech import H, I4, MECHANISMS, mechanism, build, link
from mc.worlds import MASSES
from mc import ref

META = dict(
    rule='every mechanism, in every initial state, is simulated over the same '
         'time with steps h, h/2 and h/4; after each step the kinetic and '
         'potential energies, the momenta of the mechanism and the powers and '
         'wrenches of weight, viscosity and control are computed from the '
         'positions and velocities of the joints alone, by the reference '
         'kinematics; what the balances of energy and momenta miss, '
         'extrapolated to null steps, must vanish; non-trivial: the mechanism '
         'moves and exchanges energy or momentum between its parts',
    bounds='every pair of kinds of joints in chains of two bodies, four '
           'arrangements of frames, masses, weight, viscosity and control '
           '(quick: one of the four for each pair and state), 2 initial '
           'states; the mechanisms of C31 without limits nor contacts, 3 '
           'initial states; those with limits or contacts that begin '
           'without penetration, and the collisions of floating bodies '
           'through every kind of joint with a sphere, a box and a point, '
           'with and without friction (quick: half of them), for the momenta '
           'and the sign of the energy; 16, 32 and 64 steps over 1/16 s, '
           'and up to 512 as long as the balances are not met; one pair out of '
           'three (thorough: all) 20 times faster too, half of them with centres '
           'of mass at 2 cm of the frame of the body',
    assumptions=['the error of a step expands in powers of the step, as for '
                 'every one-step integration of smooth motions'],
)
CHUNK = 6
T = 1. / 16
STEPS = 16
# what remains after two extrapolations, with regard to what is exchanged
PRECISION = 1e-4
# for the collisions, at the smallest step (the date of the impact is rounded)
HIT = .015
PENETRATE = [('crash', 0), ('bounce', 1), ('bounce', 2), ('all', 0),
             ('all', 1), ('all', 2)]
SMOOTH = [m for m in MECHANISMS if m not in
          ('limits', 'bounce', 'slide', 'crash', 'several', 'all')]


def cases(tier):
    n = 0
    for name in SMOOTH:
        for k in range(3):
            yield {'s': name, 'k': k}
    for name in ('limits', 'bounce', 'slide', 'crash', 'several', 'all'):
        for k in range(3):
            # (some of them begin with shapes that penetrate each other)
            if (name, k) not in PENETRATE:
                yield {'s': name, 'k': k, 'hit': 1}
    for n, (b, mu, x) in enumerate(itertools.product(
            ref.ALL_JOINTS, (0., .5), range(3))):
        if tier == 'thorough' or (n + n // 6) % 2 == 0:
            yield {'s': 'hit', 'k': x, 'hit': 1, 'j': b, 'mu': mu}
    for a, b in itertools.product(ref.ALL_JOINTS, ref.ALL_JOINTS):
        if (a, b) == ('FixedJoint', 'FixedJoint'):
            continue
        for k in range(2):
            n += 1
            for v in range(4) if tier == 'thorough' else [(n + n // 7) % 4]:
                yield {'s': [a, b], 'k': k, 'v': v}
            # the same, faster
            if tier == 'thorough' or n % 3 == 0:
                yield {'s': [a, b], 'k': k, 'v': n // 3 % 4, 'f': 20.}


def pair(a, b, k, v):
    d = mechanism('', k)
    L = d['links']
    L.append(link(-1, a, (3, 0, 2, 1)[v], (1, 3, 0, 2)[v], 'bdba'[v],
                  ('zngz', 'rnlz')[k][v], k, 0))
    L.append(link(0, b, (1, 2, 3, 5)[v], (3, 0, 2, 1)[v], 'dbdb'[v],
                  ('gzzn', 'lzrn')[k][v], k, 1))
    for l in L:
        if l['joint'] == 'RzRyRxJoint' and abs(l['q'][1]) > 1.:
            # not too near the singularity
            l['q'][1] *= .5
    if v in (0, 3):
        d['gravity'] = -9.81 if v else 4.
        d['up'] = (np.array([.6, 0., .8]), 0, 0, np.array([0., 1., 0.]))[v]
    if v in (1, 3):
        lin = [i for i in (0, 1) if L[i]['joint'] not in ('FreeJoint',
                                                          'FixedJoint')]
        m = sum(ref.ndof(L[i]['joint']) for i in lin)
        if m:
            g = np.eye(m) + .3 * np.eye(m, k=1) - .2 * np.eye(m, k=-1)
            d['pd'].append(dict(
                joints=lin[::-1], kp=20. * g * (v == 3 or k == 0),
                kd=g.dot(g) * (v == 1),
                q=.3 * np.arange(m) - .2, v=.5 * np.ones(m)))
    return d


def hit(b, mu, x):
    """A mechanism with a sphere on its second body meets a free body."""
    d = mechanism('', 0)
    L = d['links']
    L.append(link(-1, 'FreeJoint', 0, 0, 'd', 'z', q=I4,
                  dq=[.3, -.5, .2, 3., .4, -.2]))
    L.append(link(0, b, 0, 0, 'b', 'z', 1, 1))
    L[-1]['dq'] *= .3
    E = [I4]
    for l in L:
        E.append(E[-1].dot(l['F0']).dot(ref.joint_pose(l['joint'], l['q']))
                 .dot(ref.hinv(l['F1'])))
    center = E[-1][:3, 3]
    kind, gap = (('sphere', .25), ('box', .3), ('point', 0.))[x]
    p = center + np.array([.2 + gap + .03, .08, -.05])
    if kind == 'box':
        p[1:] = center[1:] + [.12, -.07]
    L.append(link(-1, 'FreeJoint', 0, 0, 'ab'[x % 2], 'z', dq=[
        .2, .1, -.4, -1.5, -.3, .2], q=H((1, 0, 0), .3, p)))
    d['shapes'] = [['sphere', 1, I4, (.2,)],
                   [kind, 2, I4, {'sphere': (.25,), 'box': (.3, .4, .35),
                                  'point': ()}[kind]]]
    d['contacts'] = [[0, 1, mu, .02]]
    return d


def run(case):
    cov = Cov()
    if 'j' in case:
        def make():
            return hit(case['j'], case['mu'], case['k'])
    elif isinstance(case['s'], list):
        def make():
            d = pair(case['s'][0], case['s'][1], case['k'], case['v'])
            for l in d['links']:
                l['dq'] = l['dq'] * case.get('f', 1.)
                if 'f' in case and case['k']:
                    # (a centre of mass close to the frame of the body)
                    l['M'] = ref.spatial_mass(2.5, (.01, -.012, .008),
                                              MASSES['b'][2])
            return d
    else:
        def make():
            return mechanism(case['s'], case['k'])
    miss, scale = [], None
    cov.nontrivial = False
    cov.traces = 3
    for r in range(6):
        d = make()
        d['dt'] = T / (STEPS << r) / case.get('f', 1.)
        m, scale, moves = balances(d, STEPS << r, case, cov)
        cov.nontrivial = cov.nontrivial or moves
        miss.append(m)
        if r < 2:
            continue
        # steps that are too large for the motion are made smaller
        bad = []
        for what in m:
            cov.check()
            a, b, c = (np.array(x[what]) for x in miss[-3:])
            if case.get('hit'):
                # (limits and contacts may only take energy)
                lim = c if what != 'energy' else np.maximum(c, 0.)
                tol = HIT
            else:
                a, b = 2 * b - a, 2 * c - b
                lim = (4 * b - a) / 3
                tol = PRECISION
            if not max(abs(lim)) <= tol * scale[what] + 1e-9:
                bad.append('%s: the balance of %s misses %s (with %d to %d '
                           'steps: %s), where %.3g is exchanged' % (
                               case, what, lim, STEPS, STEPS << r,
                               [x[what] for x in miss], scale[what]))
        if not bad:
            break
    if bad:
        raise Violation('; '.join(bad))
    return cov


class Reference(object):
    """Energy, momenta and their rates, from joints' positions."""

    def __init__(self, d):
        self.d = d
        self.tree = ref.Tree([dict(parent=l['parent'], joint=l['joint'],
                                   F0=l['F0'], F1=l['F1'])
                              for l in d['links']])
        self.g = (d['gravity'] or 0.) * d['up']
        t = self.tree
        self.root = {}
        for i in range(t.n):
            self.root[i] = list(t.ancestors(i))[-1]
        self.roots = sorted(set(self.root.values()))
        free = ['FreeJoint'] + ['TxTyTzJoint'] * bool(d['contacts'])
        self.free = all(d['links'][i]['joint'] in free for i in self.roots)
        grounded = any(-1 in (s[0], s[2]) for s in d['sockets']) or \
            any(d['shapes'][c[n]][1] == -1 for c in d['contacts']
                for n in (0, 1))
        self.total = self.free and not grounded
        self.alone = not (d['sockets'] or d['contacts'] or d['limits'])

    def __call__(self, q, dq):
        d, t = self.d, self.tree
        v = t.gvel(dq)
        pose, J = t.jacobians(q)
        tau = np.zeros(t.ndof)
        for c in d['pd']:
            e = np.concatenate([q[i] for i in c['joints']])
            de = np.concatenate([dq[i] for i in c['joints']])
            f = c['kp'].dot(c['q'] - e) + c['kd'].dot(c['v'] - de)
            n = 0
            for i in c['joints']:
                m = ref.ndof(d['links'][i]['joint'])
                tau[t.dof[i]] += f[n:n + m]
                n += m
        energy, power = 0., tau.dot(v)
        mom = {i: np.zeros(6) for i in self.roots}
        rate = {i: np.zeros(6) for i in self.roots}
        for i in range(t.n):
            M, B = d['links'][i]['M'], d['links'][i]['B']
            R, p = pose[i][:3, :3], pose[i][:3, 3]
            tw = J[i].dot(v)
            h = M.dot(tw)
            energy += .5 * tw.dot(h)
            m = M[5, 5]
            if m:
                C = M[:3, 3:] / m
                c = p + R.dot(np.array([C[2, 1], C[0, 2], C[1, 0]]))
                energy -= m * self.g.dot(c)
                rate[self.root[i]] += np.concatenate(
                    [np.cross(c, m * self.g), m * self.g])
            w = -B.dot(tw)
            power += tw.dot(w)
            for x, acc in ((h, mom), (w, rate)):
                acc[self.root[i]] += np.concatenate(
                    [R.dot(x[:3]) + np.cross(p, R.dot(x[3:])), R.dot(x[3:])])
        out = {'energy': (np.array([energy]), np.array([power]))}
        if self.total:
            out['linear momentum'] = (sum(x[3:] for x in mom.values()),
                                      sum(x[3:] for x in rate.values()))
            out['angular momentum'] = (sum(x[:3] for x in mom.values()),
                                       sum(x[:3] for x in rate.values()))
        if self.alone:
            for i in self.roots:
                l = d['links'][i]
                if l['joint'] in ('FreeJoint', 'FixedJoint'):
                    continue
                R, o = l['F0'][:3, :3], l['F0'][:3, 3]
                kinds = ref.JOINTS[l['joint']]
                P, F = [], []
                for n, (kind, axis) in enumerate(kinds):
                    if n and kinds[0][0] == 'r':
                        break
                    u = R[:, axis]
                    for x, acc in ((mom, P), (rate, F)):
                        x = x[i]
                        acc.append(u.dot(x[3:]) if kind == 't' else
                                   u.dot(x[:3] - np.cross(o, x[3:])))
                    F[-1] += tau[t.dof[i]][n]
                out['momentum along the joint of body %d' % i] = (
                    np.array(P), np.array(F))
        return out


def balances(d, steps, case, cov):
    """{balance: what it misses}, {balance: what is exchanged}"""
    w, bodies, joints = build(d)
    R = Reference(d)
    dt = d['dt']
    first, last, total, size = None, None, {}, {}
    start = 1 if d['sockets'] else 0
    moves = False
    for n in range(steps + 1):
        if n:
            w.update_dynamic()
            w.update_controllers(dt)
            w.update_constraints(dt, tol=1e-10)
            w.integrate(dt)
        q = {i: np.array(j.gpos, float) if d['links'][i]['joint'] !=
             'FixedJoint' else np.zeros(0) for i, j in joints.items()}
        dq = {i: np.array(j.gvel, float) if d['links'][i]['joint'] !=
              'FixedJoint' else np.zeros(0) for i, j in joints.items()}
        moves = moves or any(x.any() for x in dq.values())
        now = R(q, dq)
        cov.step()
        if n == start or n == steps:
            cov.state(sorted(q.items()), sorted(dq.items()))
        if n == start:
            first = now
            size = {k: abs(x[0]).max() for k, x in now.items()}
            total = {k: 0. for k in now}
        elif n > start:
            for k in now:
                total[k] = total[k] + dt / 2 * (now[k][1] + last[k][1])
                size[k] = max(size[k], abs(now[k][0]).max(),
                              T * abs(now[k][1]).max())
        last = now
    miss = {k: last[k][0] - first[k][0] - total[k] for k in last}
    return ({k: [float(y) for y in np.atleast_1d(x)] for k, x in miss.items()},
            size, moves)
