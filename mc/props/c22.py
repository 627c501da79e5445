"""Simulation loggers."""
import itertools
import os
import pickle
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require, Sim
from mc.users import user_observer
from mc import ref, scen

META = dict(
    rule='every combination of what is saved, flat or not, file format, '
         'scenario, timeline, opening mode and group; the files are read back '
         'and compared, entry by entry, with what a spy saw at each step; '
         'histories: the logger used twice, also after the '
         'world has changed, several loggers in one file, '
         'unnamed and duplicated names; non-trivial: something moves',
    bounds='22 scenarios x 2 formats x 16 options x 3 timelines, 5 groups, '
           '3 pickle protocols, histories of 2 to 3 simulations',
)
CHUNK = 10
TIMES = [[0., 0.01, 0.02, 0.03], [2., 2.001, 2.011], [0., 0.02]]
GROUPS = ['/', 'simu', '/a/b', 'a/b/c/', '//x']


def cases(tier):
    n = 0
    for name in scen.NAMES + scen.MORE:
        for fmt in ('pickle', 'hdf5'):
            for opts in itertools.product((0, 1), repeat=4):
                for t in range(3):
                    n += 1
                    yield {'m': 'log', 's': name, 'f': fmt, 'o': list(opts),
                           't': t, 'g': n % 5, 'p': n % 3}
    for name in ('arm', 'masslessframe', 'all'):
        for opts in itertools.product((0, 1), repeat=4):
            yield {'m': 'shared', 's': name, 'o': list(opts)}
            yield {'m': 'twice', 's': name, 'o': list(opts)}
    for opts in itertools.product((0, 1), repeat=4):
        for e in range(len(CHANGES)):
            yield {'m': 'changed', 'o': list(opts), 'e': e}
    for o in itertools.product((0, 1), repeat=4):
        yield {'m': 'names', 'o': list(o)}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


_n = [0]


def path(ext):
    _n[0] += 1
    return os.path.join(os.environ['MC_SCRATCH'],
                        'log-%d-%d.%s' % (os.getpid(), _n[0], ext))


def spy_of(w, flat):
    """What the file must contain, at this step."""
    out = {'timeline': w.current_time, 'gpositions': {}, 'gvelocities': {},
           'transforms': {}, 'model': {}}
    for j in w.iterjoints():
        out['gpositions'][j.name] = np.array(j.gpos, float)
        out['gvelocities'][j.name] = np.array(j.gvel, float)
        if not flat:
            out['transforms'][j.frames[1].name] = np.array(j.pose)
    if flat:
        for b in w.iterbodies():
            out['transforms'][b.name] = np.array(b.pose)
    for f in w.itermovingsubframes():
        out['transforms'][f.name] = np.array(f.pose if flat else f.bpose)
    for k in ('gvel', 'mass', 'admittance', 'nleffects', 'gforce'):
        out['model'][k] = np.array(getattr(w, k))
    return out


def name_all(w):
    for n, x in enumerate(list(w.iterjoints()) + list(w.iterbodies()) +
                          list(w.itersubframes())):
        if x.name is None:
            x.name = 'unnamed%d' % n


def read(fmt, file, group):
    if fmt == 'pickle':
        with open(file, 'rb') as f:
            return pickle.load(f)
    import h5py
    out = {}
    with h5py.File(file, 'r') as f:
        g = f
        for x in group.split('/'):
            if x:
                g = g[x]
        for k, v in g.items():
            if isinstance(v, h5py.Dataset):
                out[k] = v[()]
            elif k in ('gpositions', 'gvelocities', 'transforms', 'model'):
                out[k] = {kk: vv[()] for kk, vv in v.items()}
    return out


def compare(what, data, seen, timeline, opts):
    tr, st, mo, flat = opts
    groups = (['transforms'] if tr else []) + \
        (['gpositions', 'gvelocities'] if st else []) + (['model'] if mo else [])
    require(set(data) == set(groups) | {'timeline'}, '%scontains %s' % (
        what, sorted(data)))
    n = len(timeline) - 1
    same(what + 'timeline', data['timeline'], np.array(timeline[:-1]), 1e-9)
    for g in groups:
        want = {k: np.array([s[g][k] for s in seen]) for k in seen[0][g]}
        require(set(data[g]) == set(want), '%s%s contains %s instead of %s' % (
            what, g, sorted(data[g]), sorted(want)))
        for k in want:
            same('%s%s/%s' % (what, g, k), np.array(data[g][k], float),
                 want[k], 1e-12)


def logger(fmt, file, opts, group='/', protocol=0, mode=None,
           short=False):
    from arboris.observers import PickleLogger, Hdf5Logger
    kw = dict(save_transforms=bool(opts[0]), save_state=bool(opts[1]),
              save_model=bool(opts[2]), flat=bool(opts[3]))
    if short:
        # leave out the options that have their default value
        kw = dict((k, v) for k, v in kw.items()
                  if v != (k == 'save_transforms'))
    if mode:
        kw['mode'] = mode
    if fmt == 'pickle':
        return PickleLogger(file, protocol=protocol, **kw)
    return Hdf5Logger(file, group=group, **kw)


def run_log(case, cov):
    from arboris.core import simulate
    w = scen.build(case['s'])['world']
    name_all(w)
    start = scen.state(w)
    file = path(case['f'])
    group = GROUPS[case['g']]
    log = logger(case['f'], file, case['o'], group, case['p'],
                 short=case['t'] == 1)
    seen = []
    timeline = TIMES[case['t']]
    simulate(w, timeline, [log, user_observer(
        seen, '', w, lambda: spy_of(w, case['o'][3]))])
    seen = [e[4] for e in seen if e[0] == 'obs update']
    compare('%s: ' % case, read(case['f'], file, group), seen, timeline,
            case['o'])
    os.remove(file)
    cov.step(len(seen))
    cov.check(5 * len(seen))
    cov.nontrivial = bool(abs(scen.state(w) - start).max() > 1e-9)
    cov.state(case['s'], case['f'], case['o'], case['t'])


def run_shared(case, cov):
    """Two simulations in two groups of one file, next to other data."""
    from arboris.core import simulate
    import h5py
    file = path('hdf5')
    with h5py.File(file, 'w') as f:
        f['other'] = np.arange(3)
        f.create_group('one')['kept'] = 5.
    for g, t in (('one', 0), ('two/three', 1)):
        w = scen.build(case['s'])['world']
        name_all(w)
        log = logger('hdf5', file, case['o'], g)
        seen = []
        simulate(w, TIMES[t], [log, user_observer(
            seen, '', w, lambda: spy_of(w, case['o'][3]))])
        seen = [e[4] for e in seen if e[0] == 'obs update']
        if g == 'one':
            first = seen
        cov.step(len(seen))
    with h5py.File(file, 'r') as f:
        require(list(f['other'][()]) == [0, 1, 2], 'other data of the file')
        require(f['one/kept'][()] == 5., 'other data of the group')
    data = read('hdf5', file, 'one')
    data.pop('kept')
    compare('first group: ', data, first, TIMES[0], case['o'])
    compare('second group: ', read('hdf5', file, 'two/three'), seen, TIMES[1],
            case['o'])
    os.remove(file)
    cov.check(4)
    cov.nontrivial = True
    cov.state('shared', case['s'], case['o'])


def run_twice(case, cov):
    """The same pickle logger used for two simulations, with another
    timeline; the file is that of the last one."""
    from arboris.core import simulate
    w = scen.build(case['s'])['world']
    name_all(w)
    file = path('pkl')
    log = logger('pickle', file, case['o'], protocol=2)
    for t in (0, 1, 0):
        seen = []
        simulate(w, TIMES[t], {'a': log, 'b': user_observer(
            seen, '', w, lambda: spy_of(w, case['o'][3]))})
        seen = [e[4] for e in seen if e[0] == 'obs update']
        compare('run with timeline %d: ' % t, read('pickle', file, ''), seen,
                TIMES[t], case['o'])
        cov.step(len(seen))
        cov.check(5)
    os.remove(file)
    cov.nontrivial = True
    cov.state('twice', case['s'], case['o'])


def _rename(w):
    for x in list(w.iterjoints()) + list(w.iterbodies()):
        if x is not w.ground:
            x.name = 'new' + x.name


def _replace(w):
    from arboris.joints import TxJoint, RzRyJoint
    j = list(w.iterjoints())
    w.replace_joint(j[0], TxJoint(name='slide'))
    w.replace_joint(j[2], RzRyJoint(name='twoaxes'))


def _grow(w):
    from arboris.joints import RyJoint
    from arboris.core import MovingSubFrame
    b = scen.body('grown')
    w.add_link(list(w.iterbodies())[1], RyJoint(gvel=[0.3], name='g'), b)
    w.register(MovingSubFrame(b, np.eye(4), 'grownframe'))


def _nothing(w):
    pass


CHANGES = [_nothing, _rename, _replace, _grow]


def run_changed(case, cov):
    """One logger (pickle: the hdf5 file is opened when the logger is made),
    two simulations of a world that changes in between: the
    file of the last one only has what is in the world."""
    from arboris.core import simulate
    w = scen.build('arm')['world']
    name_all(w)
    file = path('pkl')
    log = logger('pickle', file, case['o'], protocol=2)
    for n, t in enumerate((0, 1)):
        if n:
            CHANGES[case['e']](w)
            w.init()
        seen = []
        simulate(w, TIMES[t], [log, user_observer(
            seen, '', w, lambda: spy_of(w, case['o'][3]))])
        seen = [e[4] for e in seen if e[0] == 'obs update']
        compare('simulation %d: ' % n, read('pickle', file, ''), seen,
                TIMES[t], case['o'])
        cov.step(len(seen))
        cov.check(5)
    os.remove(file)
    cov.nontrivial = True
    cov.state('changed', case['o'], case['e'])


def run_names(case, cov):
    """Unnamed joints and bodies are given names, duplicated ones refused,
    when these names are needed."""
    from arboris.core import (simulate, DuplicateNameError, SubFrame,
                              MovingSubFrame)
    opts = case['o']
    links = [[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 1, 1, 'b', 'z'],
             [0, 'RyJoint', 0, 0, 'b', 'z']]
    for dup in (None, 'joint', 'body', 'frame1', 'moving', 'movingbody',
                'movingframe', 'movinganchor', 'movingjoint', 'subframe'):
        s = Sim(links, 1, 0, names=False)
        w = s.world
        if dup is None:
            pass
        elif dup == 'joint':
            s.joints[0].name = s.joints[2].name = 'same'
        elif dup == 'body':
            s.bodies[1].name = s.bodies[2].name = 'same'
        elif dup.startswith('moving'):
            m = MovingSubFrame(s.bodies[0], ref.hom(np.eye(3), [1., 2., 3.]),
                               'same')
            w.register(m)
            if dup == 'moving':
                w.register(MovingSubFrame(s.bodies[1], np.eye(4), 'same'))
            elif dup == 'movingbody':
                # (the second frame of its joint is another one)
                s.bodies[1].name = 'same'
                require(s.joints[1].frames[1] is not s.bodies[1], 'anchor')
            elif dup == 'movingframe':
                s.joints[1].frames[1].name = 'same'
            elif dup == 'movinganchor':
                s.bodies[2].name = 'same'
            else:
                s.joints[0].name = 'same'
            w.init()
        elif dup == 'subframe':
            # not saved
            for i in range(2):
                w.register(SubFrame(s.bodies[i], np.eye(4), 'same'))
            w.init()
        elif dup == 'frame1':
            s.joints[1].frames[1].name = s.bodies[2].name = 'same'
        file = path('pkl')
        log = logger('pickle', file, opts, protocol=2)
        tr, st, mo, flat = opts
        bad = (dup == 'joint' and st) or (dup == 'body' and tr and flat) or \
            (dup == 'frame1' and tr and not flat) or \
            (dup in ('moving', 'movinganchor') and tr) or \
            (dup == 'movingbody' and tr and flat) or \
            (dup == 'movingframe' and tr and not flat)
        seen = []
        obs = user_observer(seen, '', w, lambda: spy_of(w, flat))
        try:
            simulate(w, TIMES[0], [log, obs])
            done = True
        except DuplicateNameError:
            done = False
        require(done != bool(bad), 'duplicated names of %s: %s' % (
            dup, 'accepted' if done else 'refused'))
        if done:
            seen = [e[4] for e in seen if e[0] == 'obs update']
            data = read('pickle', file, '')
            if dup is None or dup.startswith('moving') or dup == 'subframe':
                compare('unnamed: ', data, seen, TIMES[0], opts)
            else:
                require(len(data['timeline']) == 3, 'timeline')
            os.remove(file)
        cov.step()
        cov.check(2)
        cov.state('names', opts, dup)
    cov.nontrivial = True
