"""Names: look-up, dictionaries, automatic names."""
import itertools
import os
import numpy as np
from mc.engine import Cov
from mc.worlds import require, Sim
from mc import ref

META = dict(
    rule='every list of up to 4 (5) objects over an alphabet of names '
         '(unnamed, empty, prefixes of each other, duplicates, objects '
         'without a name attribute) is looked up by every name, index and '
         'slice, converted and named, in every order of operations of a '
         'short history; then the lists of worlds with every assignment of '
         'names to their elements; non-trivial: at least one duplicate or '
         'unnamed object',
    bounds='lists of 0 to 5 objects over 6 kinds; worlds of 3 bodies with '
           'every assignment of 3 names to joints, bodies and frames',
)
CHUNK = 30
KINDS = [None, 'a', 'b', 'ab', '', 'NO']


def cases(tier):
    for n in range(6 if tier != 'thorough' else 8):
        for names in itertools.product(range(6), repeat=n):
            yield {'m': 'list', 'n': list(names)}
    for names in itertools.product(range(3), repeat=3):
        for which in ('joints', 'bodies', 'frames', 'shapes', 'constraints',
                      'controllers'):
            yield {'m': 'world', 'n': list(names), 'w': which}
    # names that automatic naming gave to others (or to the originals of
    # copied elements)
    for n in range(2, 5):
        for names in itertools.product(range(4), repeat=n):
            if 0 in names and any(names):
                yield {'m': 'taken', 'n': list(names)}
    for which in range(5):
        for k in range(3):
            yield {'m': 'copied', 'w': which, 'k': k}
    for k in range(10):
        for same in (0, 1):
            yield {'m': 'shared', 'k': k, 's': same}
    for i in range(len(makers())):
        for a, b in itertools.product(range(len(LABELS)), repeat=2):
            yield {'m': 'made', 'i': i, 'n': [a, b]}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    require(False, '%s: no %s' % (what, exc.__name__))


def run_list(case, cov):
    from arboris.core import (NamedObject, NamedObjectsList, name_all_elements,
                              DuplicateNameError, Controller, Joint)
    objs = []
    for k in case['n']:
        if KINDS[k] == 'NO':
            objs.append(object())
        else:
            objs.append(NamedObject(KINDS[k]))
    named = [(o, getattr(o, 'name', None)) for o in objs]
    L = NamedObjectsList(iter(objs))
    what = 'names %s' % [KINDS[k] for k in case['n']]
    require(len(L) == len(objs) and all(a is b for a, b in zip(L, objs)),
            what + ': content')
    for name in ('a', 'b', 'ab', '', 'c', 'NO', 'A', 'aB', ' a', 'b ', 'a*'):
        found = [o for o, n in named if n == name and isinstance(o, NamedObject)]
        # (the same name, made at run time or by numpy)
        name = (name, '-'.join([name, '-'])[:-2], np.str_(name))[
            (len(case['n']) + sum(case['n'])) % 3]
        got = L.find(name)
        require(len(got) == len(found) and
                all(a is b for a, b in zip(got, found)), what + ': find ' + name)
        if found:
            require(L[name] is found[0], what + ': [%r]' % name)
        else:
            raises(KeyError, lambda: L[name], what + ': [%r]' % name)
        cov.check(2)
    for i in range(-len(objs), len(objs)):
        require(L[i] is objs[i], what + ': [%d]' % i)
    raises(IndexError, lambda: L[len(objs)], what)
    for a in range(len(objs) + 1):
        for st in (1, 2, -1):
            require(all(x is y for x, y in zip(L[a::st], objs[a::st])) and
                    len(L[a::st]) == len(objs[a::st]), what + ': slice')
    # the same objects again, in the other order
    again = objs + objs[::-1]
    L2 = NamedObjectsList(again)
    for name in ('a', 'b', 'ab', '') if len(objs) < 5 else ():
        found = [o for o in again if isinstance(o, NamedObject) and
                 o.name == name]
        got = L2.find(name)
        require(len(got) == len(found) and
                all(a is b for a, b in zip(got, found)),
                what + ', twice: find ' + name)
        cov.check()
    keys = [n for o, n in named if n is not None]
    if len(set(keys)) == len(keys):
        d = L.as_dict()
        require(len(d) == len(keys) and all(
            d[n] is o for o, n in named if n is not None), what + ': as_dict')
    else:
        raises(DuplicateNameError, L.as_dict, what + ': as_dict')
    # automatic names
    pure = [o for o in objs if isinstance(o, NamedObject)]
    keys = [o.name for o in pure if o.name is not None]
    dup = len(set(keys)) != len(keys)
    for form in (0, 1, 2):
        coll = (list(pure), iter(pure), tuple(pure))[form]
        if dup:
            raises(DuplicateNameError,
                   lambda: name_all_elements(coll, True), what + ': unicity')
        else:
            name_all_elements(coll, form != 0)
        if form == 0 and dup:
            name_all_elements(list(pure))
            name_all_elements(list(pure), check_unicity=False)
        names = [o.name for o in pure]
        require(None not in names, what + ': unnamed')
        require(all(isinstance(x, str) for x in names), what + ': not a string')
        for o, n in named:
            if n is not None:
                require(o.name == n, what + ': renamed')
        new = [o.name for o, n in named
               if isinstance(o, NamedObject) and n is None]
        require(len(set(new)) == len(new) and not set(new) & set(keys),
                what + ': automatic names not unique')
        if form:
            require(names == before, what + ': named twice')
        before = names
        cov.check(4)
    cov.step()
    # elements added at the start, in the middle and at the end, then named
    coll = list(pure)
    for where in (0, len(coll) // 2, len(coll) + 2, 0):
        coll.insert(where, NamedObject())
        if where:
            coll.insert(0, NamedObject())
        name_all_elements(coll)
        require(all(isinstance(o.name, str) for o in coll),
                what + ': added elements unnamed')
        require([o.name for o in pure] == names, what + ': renamed by the '
                'addition of others')
        added = [o.name for o in coll if not any(o is p for p in pure)]
        require(len(set(added)) == len(added) and
                not set(added) & set(names), what + ': names of the elements '
                'added: %s and %s' % (added, names))
        cov.check(3)
        cov.step()
    # named piece by piece
    for size in (1, 2):
        pieces = [NamedObject() for _ in range(4)]
        for k in range(0, 4, size):
            name_all_elements(pieces[k:k + size], bool(k))
        auto = [o.name for o in pieces]
        require(len(set(auto + names)) == len(set(names)) + 4,
                what + ': names given piece by piece: %s' % auto)
        cov.check()
    cov.nontrivial = dup or bool(new)
    cov.state(case['n'])


def run_world(case, cov):
    from arboris.core import (DuplicateNameError, SubFrame, Shape,
                              Controller, name_all_elements)
    from arboris.shapes import Sphere
    from arboris.constraints import JointLimits
    from arboris.controllers import WeightController
    names = [(None, 'a', 'b')[k] for k in case['n']]
    s = Sim([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 0, 0, 'b', 'z'],
             [0, 'RyJoint', 0, 0, 'b', 'z']], names=False)
    w = s.world
    which = case['w']
    if which == 'joints':
        objs = [s.joints[i] for i in range(3)]
        get = w.getjoints
        rest = 0
    elif which == 'bodies':
        objs = [s.bodies[i] for i in range(3)]
        get = w.getbodies
        rest = 1
    elif which == 'frames':
        objs = [SubFrame(s.bodies[i]) for i in range(3)]
        for o in objs:
            w.register(o)
        get = w.getframes
        rest = 4
    elif which == 'shapes':
        objs = [Sphere(s.bodies[i]) for i in range(3)]
        for o in objs:
            w.register(o)
        get = w.getshapes
        rest = 0
    elif which == 'constraints':
        objs = [JointLimits(s.joints[i], [-1.], [1.]) for i in range(3)]
        for o in objs:
            w.register(o)
        get = w.getconstraints
        rest = 0
    else:
        objs = [WeightController() for i in range(3)]
        for o in objs:
            w.register(o)
        get = w.getcontrollers
        rest = 0
    for o, n in zip(objs, names):
        o.name = n
    L = get()
    what = '%s named %s' % (which, names)
    require(len(L) == 3 + rest, what + ': %d elements' % len(L))
    for n in ('a', 'b'):
        found = [o for o, m in zip(objs, names) if m == n]
        got = L.find(n)
        require(len(got) == len(found) and
                all(a is b for a, b in zip(got, found)), what + ': find')
        if found:
            require(L[n] is found[0], what + ': first')
        else:
            raises(KeyError, lambda: L[n], what)
    keys = [n for n in names if n is not None]
    if len(set(keys)) == len(keys):
        d = L.as_dict()
        require(all(d[n] is o for o, n in zip(objs, names) if n), what)
    else:
        raises(DuplicateNameError, L.as_dict, what)
    # a world refuses to give unique names only when there are duplicates
    dup = len(set(keys)) != len(keys)
    w.name_all_elements()
    if dup:
        raises(DuplicateNameError, lambda: w.name_all_elements(True), what)
    else:
        w.name_all_elements(check_unicity=True)
    for o, n in zip(objs, names):
        require(isinstance(o.name, str) and (n is None or o.name == n),
                what + ': renamed')
    for o in get():
        require(o.name is not None, what + ': unnamed element')
    for o, n in zip(objs, names):
        if n is None:
            require(get()[o.name] is o, what + ': look-up of automatic names')
    # the automatic names stay, and are unique, when the world grows
    from arboris.core import Body, MovingSubFrame
    from arboris.joints import RzJoint
    before = [(o, o.name) for g in (w.getjoints, w.getframes, w.getshapes,
                                    w.getconstraints, w.getcontrollers)
              for o in g()]
    b = Body()
    w.add_link(s.bodies[case['n'][0] - 1] if case['n'][0] else w.ground,
               RzJoint(), b)
    w.register(MovingSubFrame(b))
    w.register(Sphere(b))
    w.register(WeightController())
    w.register(JointLimits(b.parentjoint, [-1.], [1.]))
    w.init()
    w.name_all_elements()
    for o, n in before:
        require(o.name == n, what + ': renamed when the world grows')
    every = []
    for g in (w.getjoints, w.getframes, w.getshapes, w.getconstraints,
              w.getcontrollers):
        every += [o.name for o in g() if not any(o is p for p in objs) and
                  o is not w.ground]
        auto = [o.name for o in g() if not any(o is p and n is not None
                                               for p, n in zip(objs, names))]
        auto = [n for n in auto if n != 'ground']
        require(all(isinstance(n, str) for n in auto) and
                len(set(auto)) == len(auto), what + ': automatic names %s '
                'after the world has grown' % auto)
        cov.check()
    require(len(set(every)) == len(every), what + ': the automatic names of '
            'elements of different kinds: %s' % every)
    cov.step()
    cov.check(8)
    cov.nontrivial = dup or None in names
    cov.state(which, case['n'])


def run_taken(case, cov):
    """Elements that already have the names that automatic naming gives to
    the next ones."""
    from arboris.core import NamedObject, NamedObjectsList, name_all_elements
    objs = [NamedObject() for _ in case['n']]
    free = [o for o, n in zip(objs, case['n']) if n == 0]
    # the names that each would get alone
    auto = []
    for o in objs:
        name_all_elements([o])
        auto.append(o.name)
        o.name = None
    mine = [auto[i] for i, n in enumerate(case['n']) if n == 0]
    given = {}
    for i, (o, n) in enumerate(zip(objs, case['n'])):
        if n:
            o.name = mine[i % len(mine)] + ('', '_', '1')[n - 1]
            given[i] = o.name
    what = 'elements %s' % case['n']
    for k in range(2):
        name_all_elements(objs)
        names = [o.name for o in objs]
        for i, n in given.items():
            require(names[i] == n, what + ': renamed')
        new = [o.name for o in free]
        require(all(isinstance(n, str) for n in new), what + ': unnamed')
        require(len(set(new)) == len(new) and
                not set(new) & set(given.values()),
                what + ': automatic names %s besides %s' % (new, given))
        if k:
            require(names == before, what + ': not stable')
        before = names
        L = NamedObjectsList(objs)
        for o in free:
            require(L[o.name] is o and L.find(o.name) == [o],
                    what + ': look-up of an automatic name')
        cov.check(4)
    if len(set(given.values())) == len(given):
        name_all_elements(objs, True)
        L.as_dict()
    cov.step()
    cov.state(case['n'])
    cov.nontrivial = True


def run_shared(case, cov):
    """The same name given to two elements of a world: refused within
    joints, frames (bodies and subframes), shapes, constraints or
    controllers, accepted between them."""
    from arboris.core import SubFrame, DuplicateNameError
    from arboris.controllers import WeightController
    from arboris.constraints import JointLimits
    from arboris.shapes import Sphere
    s = Sim([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 0, 0, 'b', 'z']],
            names=False)
    w = s.world
    f = [SubFrame(s.bodies[0], name='f%d' % i) for i in range(2)]
    h = [Sphere(s.bodies[i], name='h%d' % i) for i in range(2)]
    c = [WeightController(name='c%d' % i) for i in range(2)]
    k = [JointLimits(s.joints[i], [-1.], [1.], name='k%d' % i)
         for i in range(2)]
    for x in f + h + c + k:
        w.register(x)
    w.init()
    j, b = s.joints, s.bodies
    a, z = [(j[0], j[1]), (b[0], b[1]), (f[0], f[1]), (h[0], h[1]),
            (c[0], c[1]), (k[0], k[1]), (b[0], f[1]), (w.ground, f[0]),
            (w.ground, b[1]), (f[1], b[1])][case['k']] if not case['s'] else \
        [(j[0], b[0]), (b[0], h[1]), (f[0], h[0]), (h[0], c[1]), (c[0], k[1]),
         (k[0], j[1]), (b[0], c[1]), (w.ground, j[0]), (f[0], k[1]),
         (f[1], c[1])][case['k']]
    a.name = a.name or 'same'
    z.name = ' '.join([a.name, '.'])[:-2]
    if case['s']:
        w.name_all_elements(True)
    else:
        raises(DuplicateNameError, lambda: w.name_all_elements(True),
               'two elements named %s' % a.name)
        w.name_all_elements()
    require(a.name == z.name, 'renamed')
    for g in (w.getjoints, w.getframes, w.getshapes, w.getconstraints,
              w.getcontrollers):
        mine = [x for x in g() if x is a or x is z]
        require(all(x.name for x in g()), 'unnamed element')
        require([x for x in g().find(a.name)] == mine, 'find')
        if len(mine) == 2:
            raises(DuplicateNameError, g().as_dict, 'duplicates')
        else:
            require(len(g().as_dict()) == len(g()), 'dictionary')
        cov.check(2)
    cov.step()
    cov.state(case)
    cov.nontrivial = True


def run_copied(case, cov):
    """A named world copied, then grown: the original names are those of
    elements that are not in the copy."""
    import copy
    import pickle
    from arboris.core import Body, SubFrame
    from arboris.controllers import WeightController
    from arboris.constraints import JointLimits
    from arboris.shapes import Sphere
    from arboris.joints import RzJoint
    s = Sim([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 0, 0, 'b', 'z']],
            names=False)
    w = s.world
    for i in range(3):
        w.register(SubFrame(s.bodies[0]))
        w.register(Sphere(s.bodies[1]))
        w.register(WeightController())
        w.register(JointLimits(s.joints[0], [-1.], [1.]))
    w.init()
    w.name_all_elements(True)
    kinds = ('getjoints', 'getframes', 'getshapes', 'getconstraints',
             'getcontrollers')
    c = copy.deepcopy(w) if case['k'] < 2 else pickle.loads(pickle.dumps(w))
    for g in kinds:
        require([o.name for o in getattr(c, g)()] ==
                [o.name for o in getattr(w, g)()], g + ': names of the copy')
    # elements whose automatic names are those of elements of the copy: the
    # elements of the original itself, that have lost their name
    which = kinds[case['w']]
    taken = [o.name for o in getattr(c, which)()]
    if which == 'getjoints':
        new = list(w.getjoints())
        for j in new:
            j.name = None
            j.set_frames(None, None)
            c.add_link(c.getbodies()[case['k']], j, Body())
    elif which == 'getframes':
        new = [f for f in w.getframes() if isinstance(f, SubFrame)]
        for f in new:
            f.name = None
            c.register(f)
    else:
        new = list(getattr(w, which)())
        for o in new:
            o.name = None
            c.register(o)
    require(len(getattr(c, which)()) == len(taken) + len(new),
            which + ': elements')
    if which == 'getjoints':
        c.init()
    else:
        c.getjoints()
    c.name_all_elements()
    names = [o.name for o in getattr(c, which)()]
    require(len(set(names)) == len(names), '%s: a copy that grows has the '
            'names %s' % (which, sorted(names)))
    c.name_all_elements(True)
    require([o.name for o in getattr(c, which)()] == names, 'not stable')
    cov.check(4)
    cov.step()
    cov.state(case)
    cov.nontrivial = True


LABELS = [None, 'a', 'b', '', 'long name']


def makers():
    """Every kind of named element: (list of the world, function of a world,
    two joints, bodies and shapes that makes one)."""
    import numpy as np
    from arboris import core, joints, shapes, constraints, controllers, \
        observers
    from mc import ref
    res = [(None, lambda x, n: core.World(name=n)),
           (None, lambda x, n: core.NamedObject(n)),
           (None, lambda x, n: core.Observer(n)),
           (None, lambda x, n: core.Constraint(name=n)),
           ('getcontrollers', lambda x, n: core.Controller(name=n)),
           ('bodies', lambda x, n: core.Body(n)),
           ('bodies', lambda x, n: core.Body(name=n, mass=np.eye(6))),
           ('getframes', lambda x, n: core.SubFrame(x['b'], name=n)),
           ('getframes', lambda x, n: core.SubFrame(x['b'], np.eye(4), n)),
           ('getframes', lambda x, n: core.MovingSubFrame(x['b'], name=n)),
           ('getshapes', lambda x, n: core.Shape(x['b'], n))]
    for k in sorted(k for k in ref.JOINTS if hasattr(joints, k)):
        res.append(('joints', lambda x, n, k=k: getattr(joints, k)(name=n)))
    for k in ('Plane', 'Point', 'Box', 'Cylinder', 'Sphere'):
        res.append(('getshapes',
                    lambda x, n, k=k: getattr(shapes, k)(x['b'], name=n)))
    C, K, O = constraints, controllers, observers
    res += [
        ('getconstraints', lambda x, n: C.JointLimits(x['j'], [-1.], [1.],
                                                      name=n)),
        ('getconstraints', lambda x, n: C.JointLimits(x['j'], [-1.], [1.],
                                                      [0.1], n)),
        ('getconstraints', lambda x, n: C.BallAndSocketConstraint(
            (x['b'], x['c']), name=n)),
        ('getconstraints', lambda x, n: C.SoftFingerContact(
            (x['s'], x['t']), 0.5, name=n)),
        ('getcontrollers', lambda x, n: K.WeightController(name=n)),
        ('getcontrollers', lambda x, n: K.WeightController(-1., n)),
        ('getcontrollers', lambda x, n: K.ProportionalDerivativeController(
            [x['j']], name=n)),
        (None, lambda x, n: O.EnergyMonitor(name=n)),
        (None, lambda x, n: O.PerfMonitor(name=n)),
        (None, lambda x, n: O.PerfMonitor(True, n)),
        (None, lambda x, n: O.CoMObserver([x['b']], name=n)),
        (None, lambda x, n: O.PickleLogger(os.devnull, name=n)),
        (None, lambda x, n: O.RecordJointGpos(x['j'], name=n)),
        (None, lambda x, n: O.RecordJointGvel(x['j'], name=n)),
        (None, lambda x, n: O.RecordFramePose(x['b'], name=n)),
        (None, lambda x, n: O.RecordFrameTwist(x['b'], name=n)),
        (None, lambda x, n: O.RecordConstForce(
            C.JointLimits(x['j'], [-1.], [1.]), name=n)),
        (None, lambda x, n: O.RecordDistance(x['s'], x['t'], name=n)),
        (None, lambda x, n: O.RecordCoMPosition([x['b']], name=n)),
    ]
    return res


def run_made(case, cov):
    """The elements have the names they are made with, and are found by it."""
    from arboris.core import NamedObject, NamedObjectsList, Body
    from arboris.joints import FixedJoint
    from arboris.shapes import Sphere
    i, names = case['i'], [LABELS[k] for k in case['n']]
    s = Sim([[-1, 'RzJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 0, 0, 'b', 'z']],
            names=False)
    w = s.world
    x = {'b': s.bodies[0], 'c': s.bodies[1], 'j': s.joints[1]}
    x['s'], x['t'] = Sphere(x['b']), Sphere(x['c'])
    where, make = makers()[i]
    objs = [make(x, n) for n in names]
    what = 'a %s made with the name ' % type(objs[0]).__name__
    for o, n in zip(objs, names):
        require(isinstance(o, NamedObject) and o.name == n and
                type(o.name) is type(n), what + '%r: %r' % (n, o.name))
        cov.check(1)
    if where == 'joints':
        for o in objs:
            w.add_link(w.ground, o, Body())
        get = w.getjoints
    elif where == 'bodies':
        for o in objs:
            w.add_link(w.ground, FixedJoint(), o)
        get = w.getbodies
    elif where:
        for o in objs:
            w.register(o)
        get = getattr(w, where)
    else:
        get = lambda: NamedObjectsList(objs)
    cov.step()
    w.init()
    for o, n in zip(objs, names):
        require(o.name == n, what + '%r: %r once in a world' % (n, o.name))
        if n is None:
            continue
        found = [y for y, m in zip(objs, names) if m == n]
        got = [y for y in get().find(n) if any(y is z for z in objs)]
        require(len(got) == len(found) and
                all(a is b for a, b in zip(got, found)), what + '%r: find' % n)
        require(get()[n] is found[0], what + '%r: []' % n)
        cov.check(3)
    cov.step()
    cov.nontrivial = names[0] != names[1]
    cov.state(case)
