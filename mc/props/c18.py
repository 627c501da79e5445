"""How the constraints are put together by the world."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require
from mc.users import user_controller
from mc import ref, scen

META = dict(
    rule='user: constraints written by the user, with given jacobians and '
         'forces, in every state (enabled or not, active or not, keeping '
         'their force or not) over every sequence of states; what each one is '
         'given (velocity, admittance, step) and the resulting forces and '
         'velocities are compared with the reference dynamics. provided: '
         'every subset of the constraints of arboris, enabled and disabled '
         'along every sequence, compared with a world that only has the '
         'enabled ones; uni: sets of unilateral constraints written by the '
         'user, compared with the solution of their complementarity problem '
         'found by enumeration; non-trivial: at least two constraints act',
    bounds='4 worlds, 0 to 4 user constraints of 1 to 6 dofs, every assignment '
           'of 5 states to 3 constraints over 3 steps; 3 scenarios x every '
           'subset (of up to 4) x 3 switching steps',
)
CHUNK = 10

WORLDS = [
    [[-1, 'FreeJoint', 0, 0, 'b', 'z']],
    [[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 0, 'd', 'd'],
     [0, 'TxTyTzJoint', 3, 0, 'b', 'z']],
    [[-1, 'RzRyRxJoint', 3, 1, 'b', 'g'], [0, 'FreeJoint', 1, 0, 'd', 'z']],
    [[-1, 'RyJoint', 0, 1, 'd', 'n']],
]
# enabled, active, keeps its force between the steps
MODES = [(1, 1, 0), (0, 1, 0), (1, 0, 0), (1, 1, 1), (1, 0, 1)]


def cases(tier):
    thorough = tier == 'thorough'
    for wn in range(len(WORLDS)):
        yield {'m': 'user', 'w': wn, 'n': 0, 'h': [[], []]}
        for n in (1, 2, 3):
            firsts = list(itertools.product(range(5), repeat=n))
            for i, a in enumerate(firsts):
                if n == 3:
                    # after each state, a few others
                    rest = [firsts[(i * 7 + k * 11 + 5) % len(firsts)]
                            for k in range(16 if thorough else 6)]
                else:
                    rest = firsts
                for b in rest:
                    for c in (rest if thorough and n < 3 else [a[::-1]]):
                        yield {'m': 'user', 'w': wn, 'n': n,
                               'h': [list(a), list(b), list(c), list(a)]}
        yield {'m': 'user', 'w': wn, 'n': 4, 'h': [[0, 3, 0, 0], [0, 1, 2, 3],
                                                   [3, 2, 1, 0],
                                                   [4, 4, 3, 1]]}
        for it in (1, 2, 5):
            yield {'m': 'iters', 'w': wn, 'it': it}
        for rate in (0.3, 0.9, 0.97):
            for tol in (None, 1e-3, 1e-6, 1e-9):
                for n in (1, 2):
                    for it in (None, 30):
                        yield {'m': 'settle', 'w': wn, 'r': rate, 'tol': tol,
                               'n': n, 'it': it}
    for wn in range(len(WORLDS)):
        for n in (1, 2, 3):
            for bits in range(3 ** n):
                for perm in (itertools.permutations(range(n)) if thorough else
                             (range(n), range(n)[::-1])):
                    yield {'m': 'uni', 'w': wn, 'n': n, 'b': bits,
                           'p': list(perm)}
    for name in ('limits', 'contact', 'loop'):
        m = {'limits': 2, 'contact': 3, 'loop': 1}[name]
        for off in range(2 ** m):
            for again in range(2):
                yield {'m': 'late', 's': name, 'off': off, 'a': again}
    for name in ('all', 'limits', 'contact', 'loop'):
        m = {'all': 6, 'limits': 2, 'contact': 3, 'loop': 1}[name]
        for mask in range(2 ** m):
            for k in range(3):
                yield {'m': 'twin', 's': name, 'mask': mask, 'k': k}
    for name in ('limits', 'contact', 'all'):
        for n in (0, 1, 2, 4):
            for far in range(3):
                yield {'m': 'leave', 's': name, 'n': n, 'far': far}
    for name in ('limits', 'contact', 'all', 'loop'):
        for k in range(12):
            yield {'m': 'real', 's': name, 'k': k}
    for seq in itertools.product((0, 1), repeat=6 if not thorough else 9):
        for name in ('all', 'loop'):
            yield {'m': 'switch', 's': name, 'h': list(seq)}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


def constraint(J, force, spy, index):
    from arboris.core import Constraint

    class UserConstraint(Constraint):
        def __init__(self):
            Constraint.__init__(self, 'u%d' % index)
            self._force = np.zeros(len(force))
            self.active = True
            self.keep = False

        def init(self, world):
            pass

        @property
        def jacobian(self):
            return J

        @property
        def ndol(self):
            return len(force)

        def update(self, dt):
            spy.append(('update', index, dt))
            if not self.keep:
                self._force[:] = 0.

        def is_active(self):
            return self.active

        def solve(self, vel, admittance, dt):
            spy.append(('solve', index, vel.copy(), np.array(admittance), dt,
                        self._force.copy()))
            d = np.asarray(force, float) - self._force
            self._force = self._force + d
            return d
    return UserConstraint()


def jac(n, i, ndof):
    m = (2, 1, 3, 6)[i % 4]
    J = np.array([[np.cos(1. + 3 * r + 2 * c + i) for c in range(ndof)]
                  for r in range(m)])
    J[:, (i + 1) % ndof] = 0.
    return J


def run_user(case, cov):
    wn = case['w']
    s = Sim(WORLDS[wn], 1, 2)
    w = s.world
    n = s.tree.ndof
    for i in s.joints:
        s.dq[i] = 0.3 * np.arange(1, ref.ndof(WORLDS[wn][i][1]) + 1) * (-1) ** i
        s.write(i)
    spy = []
    J = [jac(case['n'], i, n) for i in range(case['n'])]
    F = [np.array([3., -1., 0.5, 2., -2., 1.])[:len(J[i])] * (1 + i)
         for i in range(case['n'])]
    cons = [constraint(J[i], F[i], spy, i) for i in range(case['n'])]
    for c in cons:
        w.register(c)
        require(c.is_enabled(), 'a new constraint is not enabled')
    push = np.cos(np.arange(n))
    Z = -0.3 * np.eye(n)
    w.register(user_controller([push], [Z]))
    w.init()
    last = [np.zeros(len(f)) for f in F]
    for k, modes in enumerate(case['h']):
        dt = (0.01, 0.05, 0.002)[k % 3]
        for c, mode in zip(cons, modes):
            en, ac, keep = MODES[mode]
            if en:
                c.enable()
            else:
                c.disable()
            require(bool(c.is_enabled()) == bool(en), 'is_enabled')
            c.active, c.keep = bool(ac), bool(keep)
        s.read_config()
        m = s.model()
        w.update_dynamic()
        w.update_controllers(dt)
        del spy[:]
        w.update_constraints(dt)
        what = 'modes %s, step %d: ' % (case['h'], k)
        on = [i for i, md in enumerate(modes) if MODES[md][0]]
        act = [i for i in on if MODES[modes[i]][1]]
        ups = [e[1:] for e in spy if e[0] == 'update']
        require(ups == [(i, dt) for i in on], '%supdated: %s' % (what, ups))
        solves = [e[1:] for e in spy if e[0] == 'solve']
        require({e[0] for e in solves} == set(act),
                '%ssolved: %s' % (what, [e[0] for e in solves]))
        Y = np.linalg.inv(m['M'] / dt + m['B'] + m['N'] - Z)
        f0 = m['M'].dot(m['v']) / dt + push
        f = [last[i] if MODES[modes[i]][2] else np.zeros(len(F[i]))
             for i in range(len(F))]
        for e in solves:
            i, vel, adm, edt, force = e
            total = f0 + sum([J[a].T.dot(f[a]) for a in act], np.zeros(n))
            v = J[i].dot(Y.dot(total))
            same(what + 'velocity given to %d' % i, vel, v, 1e-9)
            same(what + 'admittance given to %d' % i, adm,
                 J[i].dot(Y).dot(J[i].T), 1e-9)
            require(edt == dt, what + 'step given')
            f[i] = F[i]
            cov.check(3)
        last = [F[i] if i in act else
                (last[i] if i not in on or MODES[modes[i]][2] else 0. * F[i])
                for i in range(len(F))]
        total = push + sum([J[a].T.dot(F[a]) for a in act], np.zeros(n))
        same(what + 'sum of the forces', w.gforce, total, 1e-9)
        w.integrate(dt)
        same(what + 'velocity', w.gvel, Y.dot(
            m['M'].dot(m['v']) / dt + total), 1e-9)
        cov.check(4)
        cov.step()
        cov.nontrivial |= len(act) > 1
        cov.state(wn, modes, last, w.gvel)


def run_iters(case, cov):
    """The limit of iterations, with constraints that never settle."""
    s = Sim(WORLDS[case['w']], 1, 2)
    w = s.world
    n = s.tree.ndof
    from arboris.core import Constraint
    calls = []

    class Restless(Constraint):
        def __init__(self, i):
            Constraint.__init__(self)
            self._force = np.zeros(1)
            self.i = i

        def init(self, world):
            pass

        jacobian = property(lambda self: np.ones((1, n)))
        ndol = property(lambda self: 1)

        def update(self, dt):
            self._force[:] = 0.

        def is_active(self):
            return True

        def solve(self, vel, admittance, dt):
            calls.append(self.i)
            self._force = self._force + 1.
            return np.array([1.])
    cons = [Restless(0), Restless(1)]
    for c in cons:
        w.register(c)
    w.init()
    w.update_dynamic()
    w.update_controllers(0.01)
    w.update_constraints(0.01, maxiters=case['it'], tol=1e-14)
    require(calls == [0, 1] * case['it'], 'sweeps: %s' % calls)
    same('force', w.gforce, 2. * case['it'] * np.ones(n), 1e-9)
    cov.step()
    cov.check(2)
    cov.state('iters', case['w'], case['it'])
    cov.nontrivial = case['it'] > 1


def run_settle(case, cov):
    """Constraints that settle slowly: the sweeps go on until their velocity
    does not change any more, up to the tolerance."""
    s = Sim(WORLDS[case['w']], 1, 2)
    w = s.world
    n = s.tree.ndof
    from arboris.core import Constraint
    change = []

    class Slow(Constraint):
        def __init__(self, i):
            Constraint.__init__(self)
            self._force = np.zeros(1)
            self.n = 0
            self.i = i

        def init(self, world):
            pass

        jacobian = property(lambda self: np.eye(n)[self.i % n:self.i % n + 1])
        ndol = property(lambda self: 1)

        def update(self, dt):
            self._force[:] = 0.

        def is_active(self):
            return True

        def solve(self, vel, admittance, dt):
            dv = 0.5 * case['r'] ** self.n
            self.n += 1
            d = np.array([dv / np.asarray(admittance)[0, 0]])
            self._force = self._force + d
            change.append(dv)
            return d
    for i in range(case['n']):
        w.register(Slow(i))
    w.init()
    w.update_dynamic()
    w.update_controllers(0.01)
    kw = {}
    if case['tol'] is not None:
        kw['tol'] = case['tol']
    if case['it'] is not None:
        kw['maxiters'] = case['it']
    w.update_constraints(0.01, **kw)
    sweeps = len(change) // case['n']
    require(len(change) == sweeps * case['n'], 'a sweep is not complete')
    most, tol = case['it'] or 1000, case['tol'] or 1e-4
    require(sweeps <= most, '%d sweeps, at most %d asked' % (sweeps, most))
    # (whatever the norm)
    require(sweeps == most or change[-1] <= 5. * tol,
            'the velocities still changed by %g in the last of the %d sweeps, '
            'the tolerance is %g' % (change[-1], sweeps, tol))
    cov.step(sweeps)
    cov.check(3)
    cov.state('settle', case, sweeps)
    cov.nontrivial = sweeps > 2


def run_uni(case, cov):
    """Constraints that push only when it is needed: whatever their order, the
    velocity is the solution of all of them together (the ones that have
    nothing to do at first may have to act because of the others)."""
    s = Sim(WORLDS[case['w']], 1, 2)
    w = s.world
    ndof = s.tree.ndof
    from arboris.core import Constraint
    for i in s.joints:
        s.dq[i] = 0.3 * np.arange(
            1, ref.ndof(WORLDS[case['w']][i][1]) + 1) * (-1) ** i
        s.write(i)
    n = case['n']
    J = [np.array([[np.cos(1. + 2.2 * c + 1.7 * i) for c in range(ndof)]])
         for i in range(n)]

    class Push(Constraint):
        def __init__(self, i):
            Constraint.__init__(self)
            self._force = np.zeros(1)
            self.i = i

        def init(self, world):
            pass

        jacobian = property(lambda self: J[self.i])
        ndol = property(lambda self: 1)

        def update(self, dt):
            self._force[:] = 0.

        def is_active(self):
            return True

        def solve(self, vel, admittance, dt):
            y = np.asarray(admittance)[0, 0]
            f = np.maximum(0., self._force + (low[self.i] - vel) / y)
            d = f - self._force
            self._force = f
            return d
    for i in case['p']:
        w.register(Push(i))
    w.init()
    for step in range(2):
        dt = (0.01, 0.05)[step]
        w.update_dynamic()
        w.update_controllers(dt)
        Y = w.admittance
        v0 = Y.dot(w.mass.dot(w.gvel) / dt + w.gforce)
        A = np.array([[float(J[i].dot(Y).dot(J[k].T)[0, 0]) for k in range(n)]
                      for i in range(n)])
        v = np.array([float(J[i].dot(v0)[0]) for i in range(n)])
        # below, at or above what is asked
        low = [v[i] + (0.4, 0., -0.15)[case['b'] // 3 ** i % 3]
               for i in range(n)]
        w.update_constraints(dt, maxiters=20000, tol=1e-11)
        w.integrate(dt)
        best = None
        for m in range(2 ** n):
            on = [i for i in range(n) if m >> i & 1]
            f = np.zeros(n)
            B = A[np.ix_(on, on)]
            if on and np.linalg.cond(B) > 1e6:
                continue
            f[on] = np.linalg.solve(B, (np.array(low) - v)[on])
            u = v + A.dot(f)
            bad = max([0.] + list(np.array(low) - u) + list(-f * A.max()))
            if best is None or bad < best[0]:
                best = bad, f
        if best is None or best[0] > 1e-9:
            cov.tag('degenerate')
            continue
        f = best[1]
        spread = max(1., np.linalg.cond(A)) if ndof >= n else 1e6
        if spread > 1e4:
            continue
        same('unilateral constraints %s in the order %s, step %d: velocity' % (
            case['b'], case['p'], step), w.gvel,
            v0 + Y.dot(sum(J[i][0] * f[i] for i in range(n))), 1e-6)
        cov.check()
        cov.step()
        cov.state(case, step, w.gvel)
        cov.nontrivial |= n > 1


def precise(w, dt):
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt, maxiters=2000, tol=1e-10)
    w.integrate(dt)


def run_twin(case, cov):
    """A world where some constraints are disabled moves as a world where
    they do not exist."""
    from arboris.core import World
    dt = (0.002, 0.01, 0.001)[case['k']]
    one = scen.build(case['s'])['world']
    cons = list(one.iterconstraints())
    for i, c in enumerate(cons):
        if not case['mask'] >> i & 1:
            c.disable()
    # (built without them: the other ones are registered in the same order)
    two = scen.build(case['s'], keep=[
        i for i in range(len(cons)) if case['mask'] >> i & 1])['world']
    require(len(list(two.iterconstraints())) == bin(case['mask']).count('1'),
            'constraints of the twin')
    for k in range(5):
        precise(one, dt)
        precise(two, dt)
        same('%s, constraints %s, step %d' % (case['s'], bin(case['mask']), k),
             scen.state(one), scen.state(two), 1e-7)
        cov.step()
        cov.check()
        cov.state(case['s'], case['mask'], scen.state(one))
    cov.nontrivial = bin(case['mask']).count('1') > 1


def run_late(case, cov):
    """Constraints disabled when the world is made, and enabled later."""
    one = scen.build(case['s'])['world']
    two = scen.build(case['s'], off=[i for i in range(5)
                                     if case['off'] >> i & 1])['world']
    start = scen.state(one)
    if case['a']:
        one.init()
        two.init()
    for c in two.iterconstraints():
        c.enable()
    for k in range(6):
        precise(one, 0.01)
        precise(two, 0.01)
        same('%s, constraints %s disabled when the world was made, step %d' % (
            case['s'], bin(case['off']), k), scen.state(two), scen.state(one),
            1e-7)
        cov.step()
        cov.check()
        cov.state(case['s'], case['off'], scen.state(one))
    cov.nontrivial = bool(abs(scen.state(one) - start).max() > 1e-6)


def run_leave(case, cov):
    """Limits and contacts that acted are left: nothing remains of them."""
    one = scen.build(case['s'])
    two = scen.build(case['s'], keep=[i for i in range(20)
                                      if case['s'] == 'all' and i == 2])
    require(len(list(two['world'].iterconstraints())) ==
            (1 if case['s'] == 'all' else 0), 'constraints of the twin')
    dt = 0.01
    acted = 0.
    for k in range(case['n']):
        precise(one['world'], dt)
        acted = max([acted] + [abs(c.gforce).max() for c in
                               one['world'].iterconstraints()
                               if c.name != 'loop'])
        precise(two['world'], dt)
    for d in (one, two):
        w = d['world']
        q = [0., 0.2, -0.1]
        for i, j in enumerate(d.get('joints', [])):
            j.gpos[:] = (-0.2, 0., 0.1)[case['far']]
            j.gvel[:] = 0.1 * (i - 1)
        for i, b in enumerate(('ball', 'ball2')):
            if b in d:
                d[b][0].gpos[:3, 3] = [3. * i, 2. + case['far'], i]
                d[b][0].gvel[:] = [0.3, 0., -0.2, 0.1, 0.5, 0.3 * i]
    for k in range(3):
        precise(one['world'], dt)
        precise(two['world'], dt)
        same('%s left after %d steps, step %d' % (case['s'], case['n'], k),
             scen.state(one['world']), scen.state(two['world']), 1e-7)
        same('forces, %s left after %d steps, step %d' % (
            case['s'], case['n'], k), one['world'].gforce,
            two['world'].gforce, 1e-6)
        cov.step()
        cov.check(2)
        cov.state(case['s'], scen.state(one['world']))
    cov.nontrivial = acted > 0


def run_real(case, cov):
    """The constraints of arboris, heard one solution after the other: each
    one is given the velocity under all the forces found so far, and tells
    the change of its own force."""
    d = scen.build(case['s'])
    w = d['world']
    cons = list(w.iterconstraints())
    log = []

    def listen(c):
        solve = c.solve

        def heard(vel, admittance, dt):
            args = np.array(vel), np.array(admittance), dt
            before = np.array(c.gforce)
            df = solve(vel, admittance, dt)
            log.append((c,) + args + (before, np.array(c.gforce),
                                      np.array(df)))
            return df
        c.solve = heard
    for c in cons:
        listen(c)
    # close to the limits, the ball close to the floor
    for i, j in enumerate(d.get('joints', [])):
        j.gvel[:] = (3., -4., 1., 0.)[(case['k'] + i) % 4]
    for k in range(6):
        dt = (0.01, 0.002, 0.03)[(k + case['k']) % 3]
        w.update_dynamic()
        w.update_controllers(dt)
        Y, M, v, g = w.admittance, w.mass, w.gvel, w.gforce
        del log[:]
        w.update_constraints(dt, maxiters=(50, 3, 500)[case['k'] % 3])
        # (some keep their force from the former step)
        first = {}
        for e in log:
            first.setdefault(id(e[0]), e[4])
        total = g + sum(first.values(), np.zeros(len(g)))
        scale = max(1., abs(v).max())
        for n, (c, vel, adm, edt, before, after, df) in enumerate(log):
            J = c.jacobian
            what = '%s, step %d, solution %d (%s): ' % (
                case['s'], k, n, type(c).__name__)
            same(what + 'velocity', vel, J.dot(Y.dot(M.dot(v) / dt + total)),
                 1e-8, scale)
            same(what + 'admittance', adm, J.dot(Y).dot(J.T), 1e-9)
            require(edt == dt, what + 'step')
            same(what + 'change of the force', J.T.dot(df), after - before,
                 1e-8, max(1., abs(after).max(), abs(before).max()))
            total = total + (after - before)
            cov.check(4)
        same('%s, step %d: sum of the forces' % (case['s'], k), w.gforce,
             total, 1e-8)
        act = {id(c) for c in cons if c.is_enabled() and c.is_active()}
        require({id(e[0]) for e in log} <= act, 'inactive ones are solved')
        w.integrate(dt)
        cov.nontrivial |= len(log) > len(act)
        cov.step()
        cov.check(2)
        cov.state(case['s'], case['k'], w.gvel)


def run_switch(case, cov):
    """Constraints switched on and off along a simulation: the ones that are
    off do nothing, the loop is closed again when it is on."""
    # (disabled or not when the world is made)
    off = sum(case['h']) % 3
    d = scen.build(case['s'], off=range(20) if off else ())
    w = d['world']
    cons = list(w.iterconstraints())
    for c in cons:
        require(bool(c.is_enabled()) == (not off), 'is_enabled')
        c.enable()
    if off == 2:
        w.init()
    loop = [c for c in cons if c.name == 'loop'][0]
    dt = 0.005
    for k, on in enumerate(case['h']):
        if on:
            loop.enable()
        else:
            loop.disable()
        w.update_dynamic()
        w.update_controllers(dt)
        M, Y, v, g = w.mass, w.admittance, w.gvel, w.gforce
        w.update_constraints(dt, maxiters=3000, tol=1e-10)
        total = g + sum([c.gforce for c in cons if c.is_enabled() and
                         c.is_active()], np.zeros(len(g)))
        same('forces, %s, step %d' % (case['h'], k), w.gforce, total, 1e-9)
        J = loop.jacobian
        f0, f1 = w.getframes()['anchor'], w.getframes()['tip2']
        gap = f0.pose[:3, :3].T.dot(f1.pose[:3, 3] - f0.pose[:3, 3])
        w.integrate(dt)
        same('velocity, %s, step %d' % (case['h'], k), w.gvel,
             Y.dot(M.dot(v) / dt + total), 1e-8)
        if on:
            same('closure, %s, step %d' % (case['h'], k), J.dot(w.gvel),
                 -gap / dt, 1e-5 if case['s'] == 'loop' else 1e-3,
                 max(1., abs(gap).max() / dt))
        cov.step()
        cov.check(3)
        cov.state(case['s'], w.gvel)
    cov.nontrivial = sum(case['h']) not in (0, len(case['h']))
