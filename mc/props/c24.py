"""Traversal of the world and drawing."""
import colorsys
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, FRAMES
from mc import ref, vis
from mc.spaces import kinematic_worlds

META = dict(
    rule='every world of the kinematic space, with frames, moving frames, '
         'shapes, constraints and controllers registered in several orders: '
         'the calls made by the traversal are compared with the content of '
         'the world (each element once, after what it needs); the tree of '
         'nodes drawn, flat or not, is multiplied out and compared with the '
         'poses of the reference model, again after the world has moved and '
         'only the nodes that are said to change were updated. colors: every '
         'assignment of colors to objects and names; non-trivial: at least '
         'two bodies',
    bounds='kinematic space (1 to 40 bodies), flat and not, 4 arrangements '
           'of shapes and frames; hue x saturation x value grid; palettes of '
           '1 to 8 colors',
)
CHUNK = 20


def cases(tier):
    n = 0
    for c in kinematic_worlds(tier):
        n += 1
        if len(c['l']) == 1 and n % 4 and tier != 'thorough':
            continue
        for flat in (0, 1):
            yield {'m': 'draw', 'l': c['l'], 'mv': bool(c['mv']), 'f': flat,
                   'o': n % 4, 'k': n % 13, 'h': len(c['h'])}
    for nb in range(0, 9):
        for over in itertools.product(range(4), repeat=2):
            yield {'m': 'color', 'n': nb, 'o': list(over)}
    for s in range(11):
        yield {'m': 'hsv', 's': s}
    for a in itertools.product((None, 'same', 'b'), repeat=3):
        for over in range(4):
            yield {'m': 'homonyms', 'a': list(a), 'o': over}
    yield {'m': 'options'}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    return cov


class Spy(object):
    def __init__(self):
        self.calls = []

    def init_parse(self, ground, up, current_time):
        self.calls.append(('init', ground, np.array(up), current_time))

    def register(self, obj):
        self.calls.append(('register', obj))

    def add_link(self, f0, j, f1):
        self.calls.append(('link', f0, j, f1))


def dress(s, o):
    """Frames and shapes in the world."""
    from arboris.core import SubFrame, MovingSubFrame
    from arboris import shapes
    from arboris.constraints import JointLimits
    from arboris.controllers import WeightController
    w = s.world
    made = []
    nb = sorted(s.bodies)
    owners = []
    for n, i in enumerate(nb):
        b = s.bodies[i]
        if (n + o) % 2 == 0 or o == 3:
            f = SubFrame(b, ref.hom(ref.rotation_from((1, 1, 0), 0.3 * n + 0.2),
                                    [0.1, 0., 0.2 * n]), 'sub%d' % i)
            owners.append(f)
        if (n + o) % 3 == 0:
            f = MovingSubFrame(b, ref.hom(ref.rotation_from((0, 1, 0), 0.4),
                                          [0., 0.3, -0.1 * n]), 'mov%d' % i)
            owners.append(f)
        owners.append(b)
    if o % 2:
        owners.reverse()
    for f, b, _ in s.frames:
        owners.append(f)
    for n, f in enumerate(owners):
        if n % 2:
            w.register(f)
        k = (n + o) % 7
        if k == 0:
            x = shapes.Sphere(f, 0.3 + n, 'shape%d' % n)
        elif k == 1:
            x = shapes.Point(f, 'shape%d' % n)
        elif k == 2:
            x = shapes.Box(f, (1., 2. + n, 0.3), 'shape%d' % n)
        elif k == 3:
            x = shapes.Cylinder(f, 2. + n, 0.2, 'shape%d' % n)
        elif k == 4:
            x = shapes.Plane(f, (0.6, 0., 0.8, 0.1 * n), 'shape%d' % n)
        else:
            w.register(f)
            continue
        w.register(x)
        made.append(x)
        if n % 5 == 0:
            # another one on the same frame
            x = shapes.Sphere(f, 2.5, 'second%d' % n)
            w.register(x)
            made.append(x)
    w.register(WeightController(name='weight'))
    lin = [i for i in s.joints if s.spec[i][1] not in ('FreeJoint',
                                                        'FixedJoint')]
    for i in lin[:2]:
        n = ref.ndof(s.spec[i][1])
        w.register(JointLimits(s.joints[i], [-1.] * n, [1.] * n))
    w.init()
    return made


def run_draw(case, cov):
    s = Sim(case['l'], case['k'], 1, moving=case['mv'])
    w = s.world
    dress(s, case['o'])
    w.update_geometric()
    check_parse(s, cov)
    wd = vis.drawer()
    driver = vis.recorder()
    drawer = wd.Drawer(driver, bool(case['f']))
    w.parse(drawer)
    drawer.finish()
    require(driver.finished == 1, 'the driver is not told that it is finished')
    check_nodes(s, w, drawer, driver, cov)
    check_poses(s, w, drawer, driver, cov, 'drawn')
    for h in range(2):
        s.set_config((case['k'] + 5 * h + 3) % 13, 1, h)
        for n, (f, b, H) in enumerate(s.frames):
            if type(f).__name__ == 'MovingSubFrame' and (n + h) % 2:
                s.move_frame(n, FRAMES[1 + (n + h) % 3].copy())
        w.update_geometric()
        # what an animation has
        if case['f']:
            for b in w.getbodies():
                if b is not w.ground:
                    drawer.frame_nodes[b].args['pose'] = b.pose
        else:
            for j in w.getjoints():
                node = drawer.transform_nodes[j]
                require(node is drawer.frame_nodes[j.frames[1]],
                        'node of joint %s' % j.name)
                node.args['pose'] = j.pose
        for f in w.itermovingsubframes():
            node = drawer.frame_nodes[f]
            require(drawer.transform_nodes[f] is node,
                    'node of moving frame %s' % f.name)
            node.args['pose'] = f.pose if case['f'] else f.bpose
        check_poses(s, w, drawer, driver, cov, 'animated')
        cov.step()
    cov.nontrivial = len(case['l']) > 1
    cov.state(case['l'], case['f'], case['o'])


def check_parse(s, cov):
    w = s.world
    spy = Spy()
    w.parse(spy)
    c = spy.calls
    require(c[0][0] == 'init' and c[0][1] is w.ground and
            (c[0][2] == np.array(w.up)).all() and
            c[0][3] == w.current_time, 'start of the traversal: %r' % (c[0],))
    require(sum(1 for x in c if x[0] == 'init') == 1, 'several starts')
    links = [x for x in c if x[0] == 'link']
    want = list(w.getjoints())
    require(len(links) == len(want) and
            all(x[2] is j for x, j in zip(links, want)),
            'links visited: %s instead of %s' % (
                [x[2].name for x in links], [j.name for j in want]))
    for x in links:
        require(x[1] is x[2].frames[0] and x[3] is x[2].frames[1],
                'frames of the link of %s' % x[2].name)
    regs = [x[1] for x in c if x[0] == 'register']
    every = (list(w.getframes()) + list(w.getshapes()) +
             list(w.getconstraints()) + list(w.getcontrollers()))
    for o in every:
        n = sum(1 for r in regs if r is o)
        require(n == 1, '%s %s registered %d times' % (
            type(o).__name__, o.name, n))
    require(len(regs) == len(every), '%d elements registered instead of %d' % (
        len(regs), len(every)))
    at = {}
    for n, x in enumerate(c):
        at[id(x[1] if x[0] == 'register' else x[2] if x[0] == 'link'
              else x)] = n
    linked = {}
    for n, x in enumerate(c):
        if x[0] == 'link':
            linked[id(x[3].body)] = n
    for o in every:
        if o in w.getconstraints() or o in w.getcontrollers():
            require(at[id(o)] > max([0] + [at[id(x)] for x in
                                           list(w.getframes()) + want]),
                    '%s comes before the bodies' % o.name)
            continue
        frame = getattr(o, 'frame', None)
        if frame is not None:
            require(at[id(o)] > at[id(frame)],
                    'shape %s comes before its frame' % o.name)
            continue
        if o is not o.body:
            require(at[id(o)] > at[id(o.body)],
                    'frame %s comes before its body' % o.name)
        elif o is not w.ground:
            require(at[id(o)] > linked[id(o)],
                    'body %s comes before its link' % o.name)
    for x in links:
        require(at[id(x[2])] > at[id(x[1])],
                'the link of %s comes before its first frame' % x[2].name)
    cov.check(4)
    cov.step(len(c))


def check_nodes(s, w, drawer, driver, cov):
    from arboris import shapes
    g = driver.ground
    require(g is not None and (np.array(g.args['up']) == np.array(w.up)).all(),
            'up axis')
    require(not g.parents, 'the ground has a parent')
    for n in driver.made:
        if n is not g:
            require(len(n.parents) == 1, '%s has %d parents' % (
                n.kind, len(n.parents)))
    require(len(list(g.all())) == len(driver.made), 'nodes out of the tree')
    frames = list(w.getframes())
    nodes = drawer.frame_nodes
    require(set(nodes) == set(frames), 'frames drawn')
    require(len(set(id(n) for n in nodes.values())) == len(frames),
            'two frames have the same node')
    require(nodes[w.ground] is g, 'node of the ground')
    ntr = sum(1 for n in driver.made if n.kind == 'transform')
    require(ntr == len(frames) - 1, '%d transforms for %d frames' % (
        ntr, len(frames)))
    body_color = {}
    for f in frames:
        n = nodes[f]
        kids = [x for x, cat in n.children if cat == 'shape']
        mine = [x for x in w.getshapes() if x.frame is f]
        require(len(kids) == len(mine), '%d shapes drawn on %s instead of %d' %
                (len(kids), f.name, len(mine)))
        for x, k in zip(mine, kids):
            if isinstance(x, shapes.Sphere):
                kind, dims = 'ellipsoid', [x.radius] * 3
            elif isinstance(x, shapes.Point):
                kind, dims = 'ellipsoid', [0.008] * 3
            elif isinstance(x, shapes.Box):
                kind, dims = 'box', x.half_extents
            elif isinstance(x, shapes.Cylinder):
                kind, dims = 'cylinder', (x.length, x.radius)
            else:
                kind, dims = 'plane', x.coeffs
            require(k.kind == kind, '%s drawn as %s' % (x.name, k.kind))
            same('size of ' + x.name, k.args['dims'], np.array(dims))
            c = body_color.setdefault(id(f.body), k.args['color'])
            require(c == k.args['color'], 'shapes of one body in two colors')
        inertia = [x for x, cat in n.children if cat == 'inertia']
        heavy = f is f.body and np.abs(f.mass).max() > 1e-6
        require(len(inertia) == (1 if heavy else 0), '%d inertias drawn on %s' %
                (len(inertia), f.name))
        if heavy:
            same('inertia of ' + str(f.name), inertia[0].args['inertia'], f.mass)
            c = body_color.setdefault(id(f.body), inertia[0].args['color'])
            require(c == inertia[0].args['color'], 'two colors for one body')
        if f is not w.ground:
            arrows = [x for x, cat in n.children if x.kind == 'arrows']
            require(len(arrows) == 1, '%d frame arrows on %s' % (
                len(arrows), f.name))
            require(n.args['name'] == f.name, 'node of %s is named %s' % (
                f.name, n.args['name']))
            # a line from the parent to the frames that do not move
            p = n.parents[0]
            pos = n.args['pose'][:3, 3]
            lines = [x for x, cat in p.children if x.kind == 'line' and
                     abs(np.array(x.args['end']) - pos).max() < 1e-12]
            require(bool(lines) == bool(n.args['constant'] and
                                        np.linalg.norm(pos) > 0) or
                    not n.args['constant'], 'line to %s' % f.name)
            for x in lines:
                same('start of a line', np.array(x.args['start']), np.zeros(3))
    used = list(body_color.values())
    if len(frames) and len(list(w.getbodies())) <= 20:
        require(len(set(used)) == len(used), 'two bodies of the same color')
    cov.check(3 * len(frames))


def node_pose(n):
    H = np.eye(4)
    while n.kind != 'ground':
        H = n.args['pose'].dot(H)
        n = n.parents[0]
    return H


def check_poses(s, w, drawer, driver, cov, what):
    pose = s.tree.jacobians(s.q)[0]
    want = {id(w.ground): np.eye(4)}
    for i in s.joints:
        want[id(s.bodies[i])] = pose[i]
    for f in w.getframes():
        H = want[id(f.body)]
        if f is not f.body:
            H = H.dot(f.bpose)
        same('%s: pose of %s' % (what, f.name), node_pose(
            drawer.frame_nodes[f]), H, 1e-9)
        cov.check()


def run_color(case, cov):
    from arboris.core import SubFrame
    from arboris.shapes import Sphere
    wd = vis.drawer()
    links = [[-1, 'RzJoint', 0, 1, 'b', 'z'], [0, 'RxJoint', 3, 0, 'd', 'd'],
             [0, 'TyJoint', 0, 0, 'b', 'z']]
    s = Sim(links)
    w = s.world
    sub = SubFrame(s.bodies[1], np.eye(4), 'sub')
    w.register(sub)
    sh = Sphere(sub, 1., 'sphere')
    w.register(sh)
    red, blue = (1., 0., 0.), (0., 0.25, 1.)
    keys = [None, s.bodies[1], 'sub', sh]
    m = {}
    for k, col in zip(case['o'], (red, blue)):
        if k:
            m[keys[k]] = col
    gen = wd.ColorGenerator(m or None, nb_colors=case['n'])
    order = [s.bodies[0], sh, sub, s.bodies[1], s.bodies[2], w.ground,
             s.bodies[0], sh, s.bodies[1]]
    got = [gen.get_color(x) for x in order]
    for c in got:
        require(len(c) == 3 and all(0. <= v <= 1. for v in c), 'color %s' % (c,))
    require(got[0] == got[6] and got[1] == got[7] and got[3] == got[8],
            'the color of an object changes')
    body = m.get(s.bodies[1], got[3])
    require(got[3] == body, 'color of a body')
    wsub = m.get('sub', body)
    require(got[2] == wsub, 'color of a frame: %s instead of %s' % (
        got[2], wsub))
    require(got[1] == m.get(sh, body),
            'color of a shape: %s' % (got[1],))
    # in the order they were asked for (the shape asks for its body)
    asked = [s.bodies[0], s.bodies[1], s.bodies[2], w.ground]
    auto = [gen.get_color(x) for x in asked if x not in m]
    fresh = auto[:case['n']]
    require(len(set(fresh)) == len(fresh), 'colors given twice: %s' % (auto,))
    require(all(c == (1., 1., 1.) for c in auto[case['n']:]),
            'colors after the end of the palette')
    w.update_geometric()
    driver = vis.recorder()
    d = wd.Drawer(driver, False, wd.ColorGenerator(m or None))
    w.parse(d)
    node = [x for x, cat in d.frame_nodes[sub].children if cat == 'shape'][0]
    if sh in m:
        require(node.args['color'] == m[sh], 'color of the drawn shape')
    elif s.bodies[1] in m:
        require(node.args['color'] == m[s.bodies[1]],
                'color of the drawn shape')
    for bad in ((1., 0.), (0., 0., 1.5), (-0.1, 0., 0.)):
        try:
            gen.set_color('x', bad)
        except AssertionError:
            pass
        else:
            require(False, 'color %s accepted' % (bad,))
    cov.step(len(order))
    cov.check(8)
    cov.nontrivial = bool(m)
    cov.state(case['n'], case['o'])


def run_homonyms(case, cov):
    """Elements without name, or with the same name, are different
    elements."""
    from arboris.core import Body, SubFrame
    from arboris.shapes import Sphere
    wd = vis.drawer()
    a, b = Body(case['a'][0]), Body(case['a'][1])
    sub = SubFrame(b, np.eye(4), case['a'][1])
    sh = Sphere(sub, 1., case['a'][2])
    c = Body(case['a'][2])
    red = (1., 0., 0.)
    gen = wd.ColorGenerator(None, nb_colors=8)
    chosen = [None, b, sh, c][case['o']]
    if chosen is not None:
        gen.set_color(chosen, red)
    got = {}
    for n, x in enumerate((a, c, sh, sub, b)):
        got[n] = gen.get_color(x)
    want = {None: None, b: (3, 4, 2), sh: (2,), c: (1,)}[chosen]
    for n in got:
        require((got[n] == red) == (want is not None and n in want),
                'color of element %d with the names %s' % (n, case['a']))
    auto = [got[0], got[1], got[4]]
    require(len(set(auto)) == 3, 'one color for two bodies, with the names '
            '%s' % case['a'])
    require(got[3] == got[4], 'color of a frame')
    cov.step(5)
    cov.check(3)
    cov.nontrivial = True
    cov.state('homonyms', case['a'], case['o'])


def run_hsv(case, cov):
    wd = vis.drawer()
    sat = case['s'] / 10.
    for h in list(range(0, 361, 5)) + [0.5, 59.999, 60.001, 359.99, 299.5]:
        for v in (0., 0.1, 0.5, 0.9, 1.):
            same('hsv (%s, %s, %s)' % (h, sat, v),
                 np.array(wd.hsv_to_rgb((h, sat, v)), float),
                 np.array(colorsys.hsv_to_rgb((h / 360.) % 1., sat, v)), 1e-9)
            cov.check()
    cov.step()
    cov.nontrivial = True
    cov.state('hsv', sat)


def run_options(case, cov):
    # the options given by the user are his own
    for a, b in itertools.product((0.1, 1., 3.), repeat=2):
        given = {'display links': False, 'link length': 5.}
        one, two = vis.recorder(a, given), vis.recorder(b, given)
        require(given == {'display links': False, 'link length': 5.},
                'the options given are changed: %s' % given)
        for d, scale in ((one, a), (two, b)):
            same('point radius', d._options['point radius'], 0.008 * scale,
                 1e-12)
        given['display links'] = True
        require(one._options['display links'] is False,
                'the options follow the dictionary of the user')
        cov.check(4)
    for scale in (0.1, 1., 2., 7.5):
        for over in (None, {'point radius': 0.5}, {'display links': False}):
            d = vis.recorder(scale, over)
            n = d.create_point((0., 0., 0.))
            r = over['point radius'] if over and 'point radius' in over \
                else 0.008 * scale
            same('radius of a point', np.array(n.args['dims']), np.array([r] * 3))
            o = d.get_default_options(scale)
            one = d.get_default_options(1.)
            for k in one:
                if isinstance(one[k], bool):
                    require(o[k] == one[k], k)
                else:
                    same(k, np.array(o[k]), scale * np.array(one[k]))
            cov.check()
    cov.step()
    cov.state('options')
