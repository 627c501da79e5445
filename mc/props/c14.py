"""Discovery and activation of the contacts."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, make_joint
from mc import ref, worlds

META = dict(
    rule='discovery: every sequence of three shapes (kind x owner) registered '
         'in a world, and longer ones; the contacts found are compared with '
         'the set of pairs of shapes on different bodies that have a solver. '
         'Activation: every world of a list, every pair of bodies, every '
         'contact pose, distance around the threshold, step and proximity: '
         'status, frames, jacobian and reset of the force are compared with '
         'the motion of the reference model; non-trivial: at least one '
         'contact, or relative motion of the two bodies',
    bounds='5 kinds x 7 owners (ground, 2 bodies, their subframes, a fixed '
           'body): 42875 triples (quick: half of the owners, 8000), 5-shape '
           'scenes; 30 worlds of 1 to 4 bodies, 4 contact poses, 9 distances, '
           '3 steps, 4 proximities; 4 shapes around the threshold of '
           '5 proximities, in both orders',
)
CHUNK = 4

KINDS = ['Sphere', 'Point', 'Plane', 'Box', 'Cylinder']
SOLVED = {frozenset(p) for p in [('Sphere',), ('Sphere', 'Point'),
                                 ('Plane', 'Sphere'), ('Plane', 'Point'),
                                 ('Box', 'Sphere'), ('Box', 'Point')]}
OWNERS = ['g', 'a', 'b', 'gs', 'as', 'bs', 'f']

# how the bodies are linked: (parent, child, joint)
TREES = [
    [('g', 'a', 'FreeJoint'), ('g', 'b', 'FreeJoint'), ('a', 'f', 'FixedJoint')],
    [('g', 'a', 'TzJoint'), ('a', 'f', 'RyJoint'), ('f', 'b', 'RzJoint')],
    [('g', 'b', 'FixedJoint'), ('b', 'a', 'RzRyRxJoint'), ('a', 'f', 'TxJoint')],
    [('g', 'b', 'RxJoint'), ('g', 'f', 'TxTyTzJoint'), ('f', 'a', 'FixedJoint')],
    [('g', 'f', 'FreeJoint'), ('f', 'a', 'FreeJoint'), ('a', 'b', 'RyRxJoint')],
]

JOINT_SETS = [
    [[-1, 'FreeJoint', 0, 0], [-1, 'FreeJoint', 1, 3]],
    [[-1, 'FreeJoint', 0, 0]],
    [[-1, 'RzRyRxJoint', 0, 3], [0, 'TxTyTzJoint', 3, 0]],
    [[-1, 'RzJoint', 0, 0], [0, 'RxJoint', 1, 0], [1, 'RyJoint', 3, 1]],
    [[-1, 'TxJoint', 2, 0], [-1, 'RzRyJoint', 0, 1], [1, 'FixedJoint', 3, 0]],
    [[-1, 'FreeJoint', 3, 1], [0, 'RzJoint', 1, 2], [0, 'RyRxJoint', 3, 1],
     [-1, 'TzJoint', 1, 0]],
]


def contact_poses():
    return [ref.hom(np.eye(3), [0.2, -0.1, 0.4]),
            ref.hom(ref.rotation_from((1, 0, 0), -np.pi / 2), [1., 0.3, 0.]),
            ref.hom(ref.rotation_from((1, 2, 3), 2.), [-0.4, 2., 0.7]),
            ref.hom(ref.rotation_from((0, 1, 0), np.pi), [0., 0., -5.])]


def cases(tier):
    thorough = tier == 'thorough'
    items = [[k, o] for k in range(5)
             for o in range(7 if thorough else 4)]
    for a in items:
        for b in items:
            yield {'m': 'find', 's': [a, b], 'n': len(items)}
    for s in range(60 if not thorough else 400):
        yield {'m': 'many', 's': s}
    for w in range(len(JOINT_SETS)):
        for k in range(5 if not thorough else 13):
            for vk in range(3 if not thorough else 7):
                yield {'m': 'update', 'w': w, 'k': k, 'vk': vk}
        # some null coordinates and velocities
        for k in range(6 if not thorough else 40):
            yield {'m': 'update', 'w': w, 'k': k, 'vk': k,
                   'b': [(k * 1237 + w) % 4096, (k * 2731 + 5 * w) % 4096]}
    for other in range(4):
        for order in range(2):
            for prox in range(5):
                for k in range(3 if not thorough else 9):
                    yield {'m': 'auto', 'o': other, 'r': order, 'p': prox,
                           'k': k}
    for h in itertools.product(range(3), repeat=4 if not thorough else 6):
        yield {'m': 'reset', 'h': list(h)}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


def scene(items):
    """items: (kind, owner) -> world, shapes."""
    from arboris.core import World, Body, SubFrame
    from arboris import shapes
    w = World()
    # the same place of the bodies, however they are linked
    pose = {n: ref.hom(ref.rotation_from((1, 1, 0), k), [k, 3., 0.5 * k])
            for n, k in (('a', 1.), ('b', -2.))}
    pose['g'] = np.eye(4)
    pose['f'] = pose['a'].dot(ref.hom(np.eye(3), [0, 0.7, 0]))
    body = {'g': w.ground}
    for parent, child, joint in TREES[sum(
            (n + 2) * (3 * k + o) for n, (k, o) in enumerate(items)) %
            len(TREES)]:
        b = Body(mass=np.eye(6), name=child)
        H = ref.hinv(pose[parent]).dot(pose[child])
        if joint == 'FreeJoint':
            w.add_link(body[parent], make_joint(joint, H), b)
        else:
            w.add_link(SubFrame(body[parent], H), make_joint(joint), b)
        body[child] = b
    sub = {}
    for n, (k, o) in enumerate(items):
        kind, owner = KINDS[k], OWNERS[o]
        f = body[owner[0]]
        if len(owner) == 2:
            f = SubFrame(f, ref.hom(ref.rotation_from((0, 1, 1), n + 0.3),
                                    [0.1 * n, 0.2, -0.3]))
        if kind == 'Sphere':
            s = shapes.Sphere(f, 0.3 + 0.01 * n)
        elif kind == 'Box':
            s = shapes.Box(f, (0.2, 0.3, 0.1 + 0.01 * n))
        elif kind == 'Plane':
            s = shapes.Plane(f, (0., 1., 0., 0.1 * n - 7.))
        elif kind == 'Point':
            s = shapes.Point(f)
        else:
            s = shapes.Cylinder(f)
        w.register(s)
        sub[n] = (s, kind, owner[0])
    w.init()
    w.update_dynamic()
    return w, sub, body


def expected_pairs(sub):
    """Unordered pairs of the shapes of the world on different bodies."""
    out = []
    for i, j in itertools.combinations(sorted(sub), 2):
        if sub[i][2] != sub[j][2] and \
           frozenset((sub[i][1], sub[j][1])) in SOLVED:
            out.append((i, j))
    return out


_cls = []


def spy_class():
    """A contact class of the user that notes what it is given."""
    if not _cls:
        from arboris.constraints import SoftFingerContact

        class Spy(SoftFingerContact):
            def __init__(self, shapes, **kw):
                SoftFingerContact.__init__(self, shapes, **kw)
                self.given = (tuple(shapes), kw)
        _cls.append(Spy)
    return _cls[0]


def check_scene(cov, items, what, kw=None):
    from arboris.constraints import get_all_contacts, SoftFingerContact
    from arboris.collisions import choose_solver
    w, sub, body = scene(items)
    pairs = expected_pairs(sub)
    want = {frozenset((id(sub[i][0]), id(sub[j][0]))) for i, j in pairs}
    kw = kw or {'friction_coeff': 0.7, 'proximity': 0.5}
    found = get_all_contacts(w, spy_class(), **kw)
    got = [frozenset(map(id, c.given[0])) for c in found]
    require(len(got) == len(set(got)), what + ': a pair found twice')
    require(set(got) == want, '%s: %d contacts instead of %d (%s)' % (
        what, len(set(got)), len(want), sorted(set(
            '%s/%s' % (type(a).__name__, type(b).__name__)
            for a, b in (c.given[0] for c in found)))))
    for c in found:
        require(c.given[1] == kw, what + ': arguments given: %r' % (c.given[1],))
    require(len(list(w.iterconstraints())) == 0, what + ': contacts registered')
    # the default class: same contacts, recognized by their contact points
    found = get_all_contacts(w, friction_coeff=0.3)
    require(len(found) == len(want), what + ': %d contacts of the default class'
            ' instead of %d' % (len(found), len(want)))
    require(all(type(c) is SoftFingerContact for c in found), what + ': class')
    expect = []
    for i, j in pairs:
        sh, solver = choose_solver(sub[i][0], sub[j][0])
        sd, H0, H1 = solver(sh)
        if np.isfinite(H0).all() and np.isfinite(H1).all():
            expect.append((sh[0].frame.body, H0, sh[1].frame.body, H1))
    rest = list(found)
    if len(expect) == len(found):
        for c in found:
            before = set(map(id, w.getframes()))
            w.register(c)
            c.update(0.01)
            new = [f for f in w.getframes() if id(f) not in before]
            require(len(new) == 2, what + ': %d contact frames' % len(new))
            hit = None
            for e in expect:
                for f0, f1 in (new, new[::-1]):
                    if f0.body is e[0] and f1.body is e[2] and \
                       abs(f0.pose - e[1]).max() < 1e-7 and \
                       abs(f1.pose - e[3]).max() < 1e-7:
                        hit = e
            require(hit is not None, what + ': contact frames of no pair')
            expect = [e for e in expect if e is not hit]
        require(len(w.getconstraints()) == len(found), what + ': registered')
    cov.step()
    cov.check(4)
    cov.state(items)
    cov.nontrivial |= bool(want)


def run_find(case, cov):
    n = case['n']
    owners = n // 5
    # the first two are given, with and without every third one
    check_scene(cov, case['s'], str(case['s']))
    for k in range(5):
        for o in range(owners):
            items = case['s'] + [[k, o]]
            check_scene(cov, items, str(items))


def run_many(case, cov):
    s = case['s']
    items = [[(s + 2 * i + s // 5) % 5, (s // 3 + 3 * i) % 7]
             for i in range(5 + s % 4)]
    check_scene(cov, items, str(items),
                {'friction_coeff': 0.1 * (s % 7), 'proximity': 0.01 * s,
                 'name': 'c%d' % s} if s % 2 else {'friction_coeff': s})


def relative_twist(t, m, a, b, H0):
    """Velocity of body b with regard to body a in the frame H0, and the
    matrix giving it from the generalized velocity."""
    out = []
    for i in (b, a):
        pose, J = m['pose'][i], m['J'][i]
        R, p = pose[:3, :3], pose[:3, 3]
        Jw = R.dot(J[:3])
        Jv = R.dot(J[3:]) + ref.hat(p - H0[:3, 3]).dot(Jw)
        out.append(np.vstack((H0[:3, :3].T.dot(Jw), H0[:3, :3].T.dot(Jv))))
    return out[0] - out[1]


def run_update(case, cov):
    from arboris.constraints import SoftFingerContact
    from arboris.shapes import Sphere
    links = [l + ['b', 'z'] for l in JOINT_SETS[case['w']]]
    s = Sim(links, case['k'], case['vk'])
    w = s.world
    n = len(links)
    boxes = {}
    conts = []
    for a, b in itertools.permutations(range(-1, n), 2):
        sa, sb = Sphere(s.bodies[a], 0.1), Sphere(s.bodies[b], 0.2)
        for prox in (None, 0., 0.02, 0.3):
            if prox is not None and (a + b + case['k']) % 2:
                continue
            key = len(conts)

            def solver(shapes, key=key, sa=sa, sb=sb):
                require(shapes[0] is sa and shapes[1] is sb,
                        'shapes given to the solver')
                return boxes[key]
            kw = {} if prox is None else {'proximity': prox}
            c = SoftFingerContact((sa, sb), 0.5, collision_solver=solver, **kw)
            before = set(map(id, w.getframes()))
            w.register(c)
            new = [f for f in w.getframes() if id(f) not in before]
            require(len(new) == 2, 'frames of a contact')
            # which of the two is on which body
            fa = [f for f in new if f.body is s.bodies[a]]
            fb = [f for f in new if f.body is s.bodies[b]]
            require(len(fa) == 1 and len(fb) == 1, 'bodies of the frames')
            conts.append((c, a, b, fa[0], fb[0], 0.02 if prox is None else prox))
    w.init()
    for k in range(2):
        s.set_config(case['k'] + k, case['vk'] + 2 * k, 0, 1.,
                     *case.get('b', [0, 0]))
        w.update_dynamic()
        m = s.model()
        for ci, H0 in enumerate(contact_poses()):
            for key, (c, a, b, fa, fb, prox) in enumerate(conts):
                Jrel = relative_twist(s.tree, m, a, b, H0)
                v = Jrel.dot(m['v'])
                dt = (0.001, 0.1, 0.02)[(key + ci) % 3]
                scale = max(1., abs(v).max())
                for d in (prox - dt * v[5] - 1e-6 * scale,
                          prox - dt * v[5] + 1e-6 * scale, -0.3, 0.3, 0.01):
                    margin = d + dt * v[5] - prox
                    if abs(margin) < 1e-8 * scale:
                        continue
                    H1 = H0.copy()
                    H1[:3, 3] += d * H0[:3, 2]
                    boxes[key] = (d, H0.copy(), H1)
                    c.update(dt)
                    what = 'bodies %d, %d, pose %d, distance %g, normal ' \
                        'velocity %g, dt %g, proximity %g: ' % (
                            a, b, ci, d, v[5], dt, prox)
                    require(bool(c.is_active()) == (margin < 0),
                            what + 'active: %s' % c.is_active())
                    same(what + 'frame 0', fa.pose, H0, 1e-9)
                    same(what + 'frame 1', fb.pose, H1, 1e-9)
                    same(what + 'jacobian', c.jacobian, Jrel[2:], 1e-9)
                    same(what + 'force', c.gforce, np.zeros(s.tree.ndof), 0.)
                    same(what + 'distance given', boxes[key][0], d, 0.)
                    cov.check(6)
                    cov.nontrivial |= bool(abs(v).max() > 1e-6)
                cov.step()
                cov.state(case['w'], case['k'] + k, case['vk'] + 2 * k, ci, key)
    # the same distance again, for other velocities, then other places, then
    # other steps
    poses = list(contact_poses())[:3]
    for step in range(7):
        s.set_config(case['k'] + step // 4, case['vk'] + step // 2, 0,
                     (1., -1.)[step % 2], *case.get('b', [0, 0]))
        w.update_dynamic()
        m = s.model()
        for key, (c, a, b, fa, fb, prox) in enumerate(conts):
            H0 = poses[step // 3]
            Jrel = relative_twist(s.tree, m, a, b, H0)
            v = Jrel.dot(m['v'])
            d = prox + 0.01
            H1 = H0.copy()
            H1[:3, 3] += d * H0[:3, 2]
            for dt in (0.1, 0.01):
                margin = 0.01 + dt * v[5]
                if abs(margin) < 1e-8 * max(1., abs(v).max()):
                    continue
                boxes[key] = (d, H0.copy(), H1)
                c.update(dt)
                what = 'again, bodies %d, %d, step %d, normal velocity %g, ' \
                    'dt %g: ' % (a, b, step, v[5], dt)
                require(bool(c.is_active()) == (margin < 0),
                        what + 'active: %s' % c.is_active())
                same(what + 'frame 0', fa.pose, H0, 1e-9)
                same(what + 'frame 1', fb.pose, H1, 1e-9)
                same(what + 'jacobian', c.jacobian, Jrel[2:], 1e-9)
                cov.check(4)
        cov.step()


def run_auto(case, cov):
    """The solver is chosen by the contact itself, whatever the order of the
    shapes; a ball that is moved around the threshold."""
    from arboris.constraints import SoftFingerContact
    from arboris.core import World, Body, SubFrame
    from arboris import shapes
    from mc import scen
    w = World()
    j, ball = scen.ball(w, 1.)
    X = ref.hom(ref.rotation_from((1, 2, -1), 0.6 * case['k']),
                [0.4, -0.2, 0.3 * case['k']])
    home = SubFrame(w.ground, X, 'home')
    w.register(home)
    # distance of the surface along the y axis of home
    if case['o'] == 0:
        other, top = shapes.Plane(home, (0., 1., 0., 0.1)), 0.1
    elif case['o'] == 1:
        other, top = shapes.Sphere(home, 0.25), 0.25
    elif case['o'] == 2:
        other, top = shapes.Box(home, (1., 0.2, 1.)), 0.2
    else:
        other, top = shapes.Point(home), 0.
    prox = (None, 0., 0.005, 0.3, 2.)[case['p']]
    kw = {} if prox is None else {'proximity': prox}
    c = SoftFingerContact((ball, other)[::(1, -1)[case['r']]], 0.5, **kw)
    w.register(c)
    w.init()
    limit = 0.02 if prox is None else prox
    for dt in (0.01, 0.1):
        for vy in (0., -1., 3.):
            for gap in (limit - dt * vy - 1e-6, limit - dt * vy + 1e-6,
                        -0.01, 0.01, 0.1, 1., 3.):
                margin = gap + dt * vy - limit
                if abs(margin) < 1e-8 or gap < -0.1:
                    continue
                p = X[:3, :3].dot([0., top + 0.3 + gap, 0.]) + X[:3, 3]
                R = ref.rotation_from((2, 1, 1), 0.5 + gap)
                j.gpos[:] = ref.hom(R, p)
                # (spinning around the normal)
                n = R.T.dot(X[:3, 1])
                j.gvel[:] = np.concatenate((0.4 * n, vy * n))
                w.update_dynamic()
                c.update(dt)
                require(bool(c.is_active()) == (margin < 0), '%s: gap %g, '
                        'velocity %g, dt %g, proximity %s: active: %s' % (
                            [type(s).__name__ for s in (ball, other)][
                                ::(1, -1)[case['r']]], gap, vy, dt, prox,
                            c.is_active()))
                cov.step()
                cov.check()
                cov.state(case['o'], case['r'], limit, gap, vy, dt)
    cov.nontrivial = True


def run_reset(case, cov):
    """A ball that is pushed on the floor, above it, or far away: no force
    remains from the former steps."""
    from arboris.constraints import SoftFingerContact
    from arboris.core import World
    from arboris.shapes import Plane
    from mc import scen
    w = World()
    j, ball = scen.ball(w, 1.)
    floor = Plane(w.ground, (0., 1., 0., 0.), 'floor')
    c = SoftFingerContact((ball, floor) if case['h'][0] else (floor, ball), 0.5)
    w.register(c)
    w.init()
    for h in case['h']:
        j.gpos[:] = ref.hom(ref.rotation_from((1, 2, 1), h), [
            0.3, (0.29, 0.31, 5.)[h], 0.])
        j.gvel[:] = [(0.1, 0, 0, 0.5, -1., 0), (0, 0, 0, 0, 0, 0),
                     (0, 1., 0, 0, -3., 0)][h]
        w.update_dynamic()
        w.update_controllers(0.01)
        w.update_constraints(0.01)
        require(bool(c.is_active()) == (h != 2), 'status %s in %s' % (
            c.is_active(), case['h']))
        f = np.array(c.gforce)
        if h == 0:
            require(abs(f).max() > 0.1, 'no force')
        else:
            same('force in %s' % case['h'], f, np.zeros(6), 1e-12)
        same('sum of the forces', w.gforce, f, 1e-9)
        w.integrate(0.01)
        cov.step()
        cov.check(3)
        cov.state(case['h'][:1], h, j.gvel)
    cov.nontrivial = 0 in case['h']
