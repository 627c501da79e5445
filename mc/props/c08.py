"""The simulation loop: who is called when, splitting, isolation, and
transparency of the observers."""
import itertools
import os
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import scen, ref
from mc.users import user_controller, user_constraint, user_observer

META = dict(
    rule='log: every combination of the number of controllers, constraints '
         '(each enabled or not, active or not) and observers (list, tuple or '
         'dict), over every timeline, with user objects that record their '
         'calls; the log is compared with the one of the protocol. split: '
         'every way of cutting the timeline in consecutive simulations. '
         'order: every interleaving of the steps of two worlds. '
         'observers: every subset of the shipped observers. non-trivial: at '
         'least one step',
    bounds='at most 2 controllers, 2 constraints and 3 observers; 12 '
           'timelines of 1 to 7 dates; 22 scenarios for split, order and '
           'observers',
)
CHUNK = 4
TIMES = [[0.], [0., 0.01], [0., 0.01, 0.02, 0.03], [0., 0.001, 0.1, 0.15],
         [1.5, 1.51, 1.53], [-0.2, -0.1, 0., 0.1], [0., 0.1, 0.2, 0.3, 0.4, 0.5],
         [0.3, 0.30001, 0.4], [100., 100.25, 101., 101.01, 101.02, 101.03,
                               101.04],
         [0., 1e-7, 3e-7, 2e-6], [0., 2e-9, 1e-8], [-3., 0., 7.],
         [2e-7, 1.2e-6, 2e-6], [-4e-10, 1e-8, 0.3], [3e-5, 1e-4]]
SPLIT = [0., 0.01, 0.03, 0.035, 0.05, 0.06]


def cases(tier):
    for t in range(len(TIMES)):
        for kind in ('list', 'array', 'tuple'):
            for nc in range(3):
                for cons in itertools.product((0, 1, 2, 3), repeat=2):
                    for obs in ('none', 'list1', 'list3', 'tuple2', 'dict2',
                                'twice'):
                        yield {'m': 'log', 't': t, 'k': kind, 'nc': nc,
                               'cons': list(cons), 'obs': obs}
    for name in scen.NAMES + scen.MORE:
        n = len(SPLIT)
        for cut in itertools.product((0, 1), repeat=n - 2):
            yield {'m': 'split', 's': name, 'cut': list(cut)}
        yield {'m': 'again', 's': name}
        yield {'m': 'steps', 's': name}
    for a, b in itertools.product(scen.NAMES, repeat=2):
        for inter in sorted(set(itertools.permutations('aaabbb'))):
            yield {'m': 'two', 'a': a, 'b': b, 'i': ''.join(inter)}
    for name, other in itertools.product(scen.MORE, ['contact', 'pd'] +
                                         scen.MORE[::4]):
        for inter in ('ababab', 'aabbab', 'bbaaba'):
            yield {'m': 'two', 'a': name, 'b': other, 'i': inter}
    for name in scen.NAMES + scen.MORE:
        for mask in range(64) if name[0] != '+' else (63, 21, 42, 38):
            yield {'m': 'obs', 's': name, 'mask': mask}


def run(case):
    return globals()['run_' + case['m']](case)


def run_log(case):
    from arboris.core import World, simulate
    cov = Cov()
    w = World()
    scen.arm(w, 2)
    w.init()
    log = []
    n = w.ndof
    for i in range(case['nc']):
        w.register(user_controller([np.ones(n) * i], [np.zeros((n, n))],
                                   log, 'ctrl%d' % i))
    cons = []
    for i, st in enumerate(case['cons']):
        if st == 3:
            continue            # none
        c = user_constraint(np.ones((1, n)), [0.5], log, 'cons%d' % i,
                            active=(st != 2))
        if st == 0:
            c.disable()
        w.register(c)
        cons.append((i, st))
    obs = [user_observer(log, 'obs%d' % i, w, lambda: w.gforce[0])
           for i in range(3)]
    o = case['obs']
    given = {'none': None, 'list1': obs[:1], 'list3': obs,
             'tuple2': tuple(obs[:2]), 'dict2': {'x': obs[1], 'a': obs[0]},
             'twice': [obs[0], obs[0]]}[o]
    seq = {'none': [], 'list1': [0], 'list3': [0, 1, 2], 'tuple2': [0, 1],
           'dict2': [1, 0], 'twice': [0, 0]}[o]
    times = TIMES[case['t']]
    tl = {'list': list(times), 'array': np.array(times),
          'tuple': tuple(times)}[case['k']]
    if given is None:
        simulate(w, tl)
    else:
        simulate(w, tl, given)
    # the protocol
    inits = log[:case['nc'] + len(cons)]
    want = sorted(['ctrl%d' % i for i in range(case['nc'])] +
                  ['cons%d' % i for i, _ in cons])
    require(sorted(e[1] for e in inits if e[0] == 'init' and e[2] is w) == want,
            'the controllers and constraints are initialized first: %s'
            % [e[:2] for e in inits])
    pos = len(inits)
    for i in seq:
        e = log[pos]
        pos += 1
        require(e[0] == 'obs init' and e[1] == 'obs%d' % i and e[2] is w and
                e[3] is tl, 'observer %d is initialized: %s' % (i, e[:2]))
    total = sum(range(case['nc'])) + 0.5 * sum(1 for _, s in cons if s == 1)
    for k in range(len(times) - 1):
        dt = times[k + 1] - times[k]
        for i in range(case['nc']):
            e = log[pos]
            pos += 1
            require(e[:2] == ('update', 'ctrl%d' % i), 'step %d: controller '
                    '%d expected, got %s' % (k, i, e[:2]))
            same('dt', e[2], dt, 1e-12)
        for i, s in cons:
            if s == 0:
                continue
            e = log[pos]
            pos += 1
            require(e[:2] == ('update', 'cons%d' % i), 'step %d: constraint '
                    '%d expected, got %s' % (k, i, e[:2]))
            same('dt', e[2], dt, 1e-12)
        for i in seq:
            e = log[pos]
            pos += 1
            require(e[:2] == ('obs update', 'obs%d' % i), 'step %d: observer '
                    '%d expected, got %s' % (k, i, e[:2]))
            same('dt', e[2], dt, 1e-12)
            same('step %d: time seen by the observers' % k, e[3], times[k],
                 1e-12)
            same('step %d: force seen by the observers' % k, e[4], total,
                 1e-12)
            cov.check(3)
        cov.step()
        cov.state(case['cons'], case['nc'], o, k, times)
    for i in seq:
        e = log[pos]
        pos += 1
        require(e[:2] == ('obs finish', 'obs%d' % i), 'finish: %s' % (e[:2],))
        same('time at the end', e[2], times[-1], 1e-12)
    require(pos == len(log), 'unexpected calls: %s' % [e[:2] for e in log[pos:]])
    same('current time', w.current_time, times[-1], 1e-12)
    cov.nontrivial = len(times) > 1
    cov.traces = 1
    return cov


def run_split(case):
    from arboris.core import simulate
    cov = Cov()
    a = scen.build(case['s'])['world']
    simulate(a, SPLIT)
    b = scen.build(case['s'])['world']
    start = 0
    for k in range(1, len(SPLIT)):
        if k == len(SPLIT) - 1 or case['cut'][k - 1]:
            simulate(b, SPLIT[start:k + 1])
            start = k
            cov.step()
            cov.state(case['s'], scen.state(b))
    same('state after the simulations %s' % case['cut'], scen.state(b),
         scen.state(a), 1e-9)
    same('time', b.current_time, a.current_time, 1e-12)
    cov.check(2)
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_again(case):
    """The same simulation from the same state gives the same thing,
    whatever happened before in other worlds."""
    from arboris.core import simulate
    cov = Cov()
    a = scen.build(case['s'])['world']
    simulate(a, SPLIT)
    for other in scen.NAMES[:4]:
        simulate(scen.build(other)['world'], SPLIT)
    b = scen.build(case['s'])['world']
    simulate(b, SPLIT)
    same('state of the second run', scen.state(b), scen.state(a), 1e-10)
    cov.step(12)
    cov.check()
    cov.state(case['s'], scen.state(a))
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_steps(case):
    """The loop does what the elementary operations do."""
    from arboris.core import simulate
    cov = Cov()
    a = scen.build(case['s'])['world']
    simulate(a, SPLIT)
    b = scen.build(case['s'])['world']
    for k in range(len(SPLIT) - 1):
        scen.step(b, SPLIT[k + 1] - SPLIT[k])
        cov.step()
        cov.state(case['s'], scen.state(b))
    same('state', scen.state(a), scen.state(b), 1e-11)
    cov.check()
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_two(case):
    cov = Cov()
    alone = {}
    for x in 'ab':
        w = scen.build(case[x])['world']
        for _ in range(3):
            scen.step(w, 0.01)
        alone[x] = scen.state(w)
    ws = {x: scen.build(case[x])['world'] for x in 'ab'}
    for x in case['i']:
        scen.step(ws[x], 0.01)
        cov.step()
        cov.state(case['a'], case['b'], scen.state(ws['a']),
                  scen.state(ws['b']))
    for x in 'ab':
        same('world %s, interleaved' % x, scen.state(ws[x]), alone[x], 1e-10)
        cov.check()
    cov.nontrivial = True
    cov.traces = 1
    return cov


def run_obs(case):
    from arboris.core import simulate
    from arboris import observers as o
    cov = Cov()
    a = scen.build(case['s'])['world']
    simulate(a, SPLIT)
    d = scen.build(case['s'])
    w = d['world']
    bodies = [b for b in w.getbodies()]
    js = w.getjoints()
    path = os.path.join(os.environ.get('MC_SCRATCH', '/tmp'),
                        'c08-%d' % os.getpid())
    every = [
        lambda: [o.EnergyMonitor()],
        lambda: [o.PerfMonitor()],
        lambda: [o.PickleLogger(path + '.pkl', save_state=True,
                                save_model=True)],
        lambda: [o.CoMObserver(bodies), o.RecordCoMPosition(bodies)],
        lambda: [c(j) for j in js for c in (o.RecordJointGpos,
                                            o.RecordJointGvel)],
        lambda: [c(f) for f in w.getframes() for c in (o.RecordFramePose,
                                                       o.RecordFrameTwist)] +
                [o.RecordConstForce(c) for c in w.getconstraints()],
    ]
    obs = []
    for k in range(6):
        if case['mask'] >> k & 1:
            obs += every[k]()
    simulate(w, SPLIT, obs)
    same('state with the observers', scen.state(w), scen.state(a), 1e-10)
    if os.path.exists(path + '.pkl'):
        os.remove(path + '.pkl')
    cov.step(len(SPLIT) - 1)
    cov.check()
    cov.state(case['s'], case['mask'], scen.state(w))
    cov.nontrivial = True
    cov.traces = 1
    return cov
