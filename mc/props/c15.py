"""Joint limits."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc.users import user_controller
from mc import ref

INF = float('inf')
META = dict(
    rule='every sequence of pushes (each step: one of three generalized '
         'forces) on every world, limits, proximity and step pattern; at each '
         'step the complementarity problem is solved by trying all the '
         'contact modes of the reference model (free / at min / at max for '
         'each dof) and the forces, velocities and positions are compared; '
         'non-trivial: a limit was hit',
    bounds='9 worlds (1 to 3 limited joints of 1 to 3 dofs, in chains and '
           'trees, one user-defined), 9 sets of limits (two-sided, one-sided, '
           'locked, violated at the beginning, integers, symmetric, null), 6 proximities '
           '(also different for each dof), limits registered before or after '
           'the other links, '
           '3 patterns of steps, 3^3 to 3^6 sequences of pushes',
    assumptions=['limits are enforced on a joint only when one of its dofs is '
                 'closer to a limit than its proximity at the beginning of '
                 'the step (documented parameter)',
                 'with several limited joints, the forces are those of the '
                 'iterative solver, asked for a tolerance of 1e-9; the '
                 'worlds where it may not converge (strong gyroscopic '
                 'coupling) are left out'],
)
CHUNK = 10

WORLDS = [
    # links, limited joints
    ([[-1, 'RzJoint', 0, 1, 'd', 'z']], [0]),
    ([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'd'],
      [1, 'RyJoint', 3, 1, 'b', 'z']], [1]),
    ([[-1, 'RzRyRxJoint', 3, 1, 'b', 'z']], [0]),
    ([[-1, 'TxTyTzJoint', 0, 0, 'b', 'z'], [0, 'RzJoint', 1, 0, 'd', 'z']],
     [0]),
    ([[-1, 'FreeJoint', 0, 0, 'b', 'z'], [0, 'RzRxJoint', 1, 0, 'd', 'g'],
      [0, 'TzJoint', 3, 0, 'a', 'z']], [1, 2]),
    ([[-1, 'RxTyJoint', 0, 2, 'b', 'z'], [0, 'RyJoint', 1, 0, 'd', 'z']], [0]),
    ([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RzJoint', 1, 0, 'b', 'z'],
      [1, 'TxJoint', 1, 0, 'a', 'd']], [0, 1, 2]),
    # the last link shifts the dofs of the limited joints
    ([[-1, 'RzJoint', 0, 0, 'b', 'z'], [-1, 'RzRxJoint', 1, 0, 'd', 'z'],
      [0, 'TxTyTzJoint', 1, 0, 'a', 'z']], [1]),
    ([[-1, 'FreeJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'z'],
      [0, 'TzJoint', 2, 0, 'a', 'z'], [1, 'RyJoint', 1, 0, 'd', 'z']], [2]),
]
LIMITS = [
    lambda q: (q - 0.05, q + 0.04),
    lambda q: (q - 0.008, np.full(len(q), INF)),
    lambda q: (q + 0., q + 0.),
    lambda q: (q + 0.3, q + 0.5),
    lambda q: (np.floor(q).astype(int), np.floor(q).astype(int) + 1),
    # some dofs only
    lambda q: (np.where(np.arange(len(q)) % 2, -INF, q - 0.005), q + 0.03),
    # symmetric, the same for all the dofs, one of them null
    lambda q: (-(abs(q) + 0.03), abs(q) + 0.03),
    lambda q: (np.full(len(q), -abs(q).max() - 0.01),
               np.full(len(q), abs(q).max() + 0.01)),
    lambda q: (np.where(q > 0, 0., q - 0.02), np.where(q > 0, q + 0.02, 0.)),
]
PROX = [None, 0.5, 1e-3, [0.02, 0.3, 0.001], [0.001, 0.02, 0.3],
        [0.3, 0.001, 0.02]]
STEPS = [(0.01,), (0.001, 0.05), (0.1, 0.002, 0.02)]
F = 30.


def cases(tier):
    depth = 5 if tier == 'thorough' else 3
    for wn in range(len(WORLDS)):
        for l in range(len(LIMITS)):
            for p in range(len(PROX)):
                for d in range(3):
                    for v in range(3):
                        if tier != 'thorough' and p > 2 and (
                                d or len(WORLDS[wn][0][WORLDS[wn][1][0]][1]) < 8):
                            continue
                        if tier != 'thorough' and (v + d + p + l + wn) % 3 == 2:
                            continue
                        if tier != 'thorough' and l > 5 and v != (p + d) % 3:
                            continue
                        yield {'w': wn, 'l': l, 'p': p, 'd': d, 'v': v,
                               'n': depth}
    # the limits are in the world before some of the links
    for wn in range(len(WORLDS)):
        links, limited = WORLDS[wn]
        for h in range(limited[0] + 1, len(links)):
            for l in range(len(LIMITS)):
                yield {'w': wn, 'l': l, 'p': (l + h) % 3, 'd': (wn + l) % 3,
                       'v': h % 3, 'n': 2, 'h': h}
    yield {'w': -1}
    # long pushes
    for wn in range(len(WORLDS)):
        for l in range(len(LIMITS)):
            yield {'w': wn, 'l': l, 'p': 0, 'd': l % 3, 'v': 1, 'n': -40}


def unique(A):
    """Does the complementarity problem have one solution? (all the principal
    minors are positive)."""
    n = len(A)
    D = A / abs(A).max()
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            B = D[np.ix_(c, c)]
            if np.linalg.det(B) <= 1e-6 * abs(np.diag(B)).prod():
                return False
    return True


def box_lcp(A, free, lo, hi):
    """y = free + A f, lo <= y <= hi, f > 0 only at lo, f < 0 only at hi: all
    the modes are tried. Returns f, or None."""
    n = len(free)
    best = None
    for mode in itertools.product((0, 1, 2), repeat=n):
        act = [i for i in range(n) if mode[i]]
        target = np.array([lo[i] if mode[i] == 1 else hi[i] for i in act])
        if len(act) and not np.isfinite(target).all():
            continue
        f = np.zeros(n)
        if act:
            f[act] = np.linalg.solve(A[np.ix_(act, act)], target - free[act])
        y = free + A.dot(f)
        s = max(1., abs(free).max())
        bad = max([0.] +
                  [max(lo[i] - y[i], y[i] - hi[i]) / s for i in range(n)] +
                  [(-f[i] if mode[i] == 1 else f[i]) * A[i, i] / s
                   for i in act if lo[i] != hi[i]])
        if best is None or bad < best[0]:
            best = (bad, f)
    if best is None or best[0] > 1e-9:
        return None
    return best[1]


def run(case):
    cov = Cov()
    if case['w'] < 0:
        run_refused(cov)
    elif case['n'] < 0:
        for sign in (1, -1):
            walk(case, [sign] * 40, cov)
    else:
        for pushes in itertools.product((-1, 0, 1), repeat=case['n']):
            walk(case, pushes, cov)
    cov.traces = 1
    return cov


def settle(s, v):
    """Moderate positions and velocities."""
    for i in s.joints:
        if s.spec[i][1] == 'FreeJoint':
            continue
        m = ref.ndof(s.spec[i][1])
        s.q[i] = np.array([0.3, -0.2, 0.25])[:m] * (1 - 0.3 * i)
        s.dq[i] = np.array([0.5, -0.3, 0.4])[:m] * v * (1 if i % 2 else -1)
        s.write(i)


def walk(case, pushes, cov):
    from arboris.constraints import JointLimits
    links, limited = WORLDS[case['w']]
    cons, lims, prox = [], [], []

    def limit(s, i):
        lo, hi = LIMITS[case['l']](s.q[i])
        p = PROX[case['p']]
        kw = {}
        if p is None:
            p = np.full(len(lo), 0.01)
        elif isinstance(p, list):
            p = np.array(p[:len(lo)])
            kw['proximity'] = list(p)
        else:
            p = p * np.ones(len(lo))
            kw['proximity'] = p.copy()
        c = JointLimits(s.joints[i], lo, hi, **kw)
        s.world.register(c)
        cons.append(c)
        lims.append((np.array(lo, float), np.array(hi, float)))
        prox.append(p)

    def hook(s, k):
        if k == case.get('h'):
            settle(s, v=case['v'])
            for i in limited:
                if i < k:
                    limit(s, i)
            s.world.init()
    s = Sim(links, 1, 0, hook=hook)
    w = s.world
    n = s.tree.ndof
    settle(s, v=case['v'])
    for i in limited[len(cons):]:
        limit(s, i)
    push = [np.array([F * k * (-1) ** (i // 2) for i in range(n)])
            for k in pushes]
    w.register(user_controller(push, [np.zeros((n, n))]))
    w.init()
    dts = STEPS[case['d']]
    hist = []
    for k, sign in enumerate(pushes):
        dt = dts[k % len(dts)]
        s.read_config()
        if k in (0, 2):
            # elsewhere, at the same time
            for c, i, (lo, hi), p in zip(cons, limited, lims, prox):
                j = s.joints[i]
                q = j.gpos.copy()
                for x, hit in ((lo - 0.1, True), ((lo + hi) / 2., None),
                               (hi + 0.1, True), (hi - p / 2., None)):
                    if hit is None:
                        hit = ((x - lo < p) | (hi - x < p)).any()
                        if min(abs(abs(x - b) - p).min()
                               for b in (lo, hi)) < 1e-9:
                            continue
                    elif (p <= -0.1).any():
                        continue
                    if not np.isfinite(x).all():
                        continue
                    j.gpos[:] = x
                    c.update(dt)
                    require(bool(c.is_active()) == hit,
                            'active at %s in [%s, %s], proximity %s: %s' % (
                                x, lo, hi, p, c.is_active()))
                j.gpos[:] = q
        m = s.model()
        Y = np.linalg.inv(m['M'] / dt + m['B'] + m['N'])
        vfree = Y.dot(m['M'].dot(m['v']) / dt + push[k])
        act = [i for i, c in enumerate(cons)
               if ((s.q[limited[i]] - lims[i][0] < prox[i]).any() or
                   (lims[i][1] - s.q[limited[i]] < prox[i]).any())]
        # too close to the threshold to tell
        near = min([1.] + [abs(abs(s.q[limited[i]] - b) - prox[i]).min()
                           for i in range(len(cons)) for b in lims[i]])
        if near < 1e-9 or abs(m['v']).max() > 300.:
            break
        cols = []
        for i in act:
            d = s.tree.dof[limited[i]]
            cols += list(range(d.start, d.stop))
        w.update_dynamic()
        w.update_controllers(dt)
        if len(act) > 1:
            w.update_constraints(dt, maxiters=1000,
                                 tol=1e-9 * max(1., abs(vfree).max()))
        else:
            w.update_constraints(dt)
        gf = [np.array(c.gforce) for c in cons]
        w.integrate(dt)
        what = 'world %d, limits %d, step %d of %s: ' % (
            case['w'], case['l'], k, list(pushes))
        f = np.zeros(n)
        if cols:
            A = dt * Y[np.ix_(cols, cols)]
            q0 = np.concatenate([s.q[limited[i]] for i in act])
            lo = np.concatenate([lims[i][0] for i in act])
            hi = np.concatenate([lims[i][1] for i in act])
            if not unique(A):
                break
            if len(act) > 1 and abs(A - A.T).max() > 0.05 * abs(A).max():
                break       # the iterations over the joints may not converge
            fa = box_lcp(A, q0 + dt * vfree[cols], lo, hi)
            if fa is None or np.linalg.cond(A) > 1e9:
                break
            f[cols] = fa
        tol = 1e-7 if len(act) < 2 else 1e-5
        scale = max(1., abs(vfree).max())
        v1 = vfree + Y.dot(f)
        same(what + 'velocity', w.gvel, v1, tol, scale)
        total = np.zeros(n)
        for i in range(len(cons)):
            total += gf[i]
            if i not in act:
                same(what + 'force far from the limits', gf[i], np.zeros(n),
                     0.)
            d = s.tree.dof[limited[i]]
            out = np.delete(gf[i], np.arange(d.start, d.stop))
            same(what + 'force on the other joints', out, 0 * out, 0.)
        same(what + 'forces', Y.dot(total), Y.dot(f), tol, scale)
        for i in act:
            q = s.joints[limited[i]].gpos
            slack = dt * tol * scale * 3 + 1e-9
            require((q >= lims[i][0] - slack).all() and
                    (q <= lims[i][1] + slack).all(),
                    '%sposition %s out of [%s, %s]' % (
                        what, q, lims[i][0], lims[i][1]))
            gi = gf[i][s.tree.dof[limited[i]]]
            big = 1e-6 * max(1., abs(gi).max())
            for x, lo, hi, g in zip(q, lims[i][0], lims[i][1], gi):
                require(not (g > big and x > lo + slack and x < hi - slack)
                        and not (g < -big and x < hi - slack),
                        '%sforce %g at %g in [%g, %g]' % (what, g, x, lo, hi))
                require(not (g > big and lo != hi and x > lo + slack),
                        '%sforce %g at %g in [%g, %g]' % (what, g, x, lo, hi))
        cov.nontrivial |= bool(abs(f).max() > 1e-6)
        cov.tag('hit' if abs(f).max() > 1e-6 else 'free')
        cov.step()
        cov.check(5)
        cov.state(case['w'], case['l'], w.gvel, [j.gpos for j in w.getjoints()])


def run_refused(cov):
    from arboris.constraints import JointLimits
    from arboris.joints import FreeJoint, FixedJoint, RzRyRxJoint
    for j in (FreeJoint(), FixedJoint(), None, 3):
        try:
            JointLimits(j, [0.] * 6, [1.] * 6)
        except ValueError:
            cov.check()
        else:
            require(False, 'limits on %r' % (j,))
    for lo, hi in (([0.], [1.]), ([0.] * 3, [1.] * 2), ([0.] * 4, [1.] * 4)):
        try:
            JointLimits(RzRyRxJoint(), lo, hi)
        except ValueError:
            cov.check()
        else:
            require(False, 'limits %r %r on 3 dofs' % (lo, hi))
    cov.step()
    cov.state('refused')
