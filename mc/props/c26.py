"""Robots read from URDF files."""
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref, vis

META = dict(
    rule='every robot of the product of the alphabets is written as URDF text '
         '(from a description), loaded in a world with every set of options, '
         'and compared with the description: names, tree, poses in several '
         'configurations, masses, shapes, limits, chains; then written again '
         'by the parser, reloaded and compared again; non-trivial: at least '
         'one joint moves',
    bounds='36 joints (kinds and axes) x 9 origins x 7 inertias x options; every '
           'set of null components of an origin (64) x joints x inertias; all '
           'trees of up to 4 links below the root (5 in the thorough tier) x '
           '6 orders of the elements in the file; 12 shapes x 9 origins; '
           'limits in 8 forms; all the subsets of the optional elements of a '
           'joint',
    assumptions=['masses and moments are above 1e-6 (smaller ones are raised)',
                 'one visual and one collision element per link'],
)
CHUNK = 20

# type, axis (text) and axis (vector; None: no motion)
JOINTS = [
    ('revolute', '1 0 0', (1, 0, 0)), ('revolute', '0 1 0', (0, 1, 0)),
    ('revolute', '0 0 1', (0, 0, 1)), ('revolute', None, (1, 0, 0)),
    ('revolute', '-1 0 0', (-1, 0, 0)), ('revolute', '0 -1 0', (0, -1, 0)),
    ('revolute', '0 0 -1', (0, 0, -1)), ('revolute', '1 1 0', (1, 1, 0)),
    ('revolute', ' 0.6  0\t0.8 ', (0.6, 0, 0.8)),
    ('revolute', '0 0 2', (0, 0, 1)), ('revolute', '-1. 2e0 -.5', (-1, 2, -.5)),
    ('prismatic', '1 0 0', (1, 0, 0)), ('prismatic', '0 1 0', (0, 1, 0)),
    ('prismatic', '0 0 1', (0, 0, 1)), ('prismatic', None, (1, 0, 0)),
    ('prismatic', '0 0 -1', (0, 0, -1)), ('prismatic', '0 -3 4', (0, -3, 4)),
    ('prismatic', '0.01 0 0.01', (1, 0, 1)), ('prismatic', '-1 0 0', (-1, 0, 0)),
    ('prismatic', '0 -1 0', (0, -1, 0)), ('prismatic', '-1 -2 2', (-1, -2, 2)),
    ('revolute', '0 -1e-2 0.001', (0, -10, 1)),
    ('revolute', '0 0.0 -3', (0, 0, -1)), ('prismatic', '5 0 0', (1, 0, 0)),
    ('revolute', '-0.7 0 -0.7', (-1, 0, -1)), ('fixed', None, None),
    ('fixed', '0 1 0', None), ('floating', None, 'free'),
    ('floating', '0 0 1', 'free'),
    # almost along an axis
    ('revolute', '1 3e-4 0', (1, 3e-4, 0)),
    ('revolute', '-2e-5 1 0', (-2e-5, 1, 0)),
    ('revolute', '8e-4 0 1', (8e-4, 0, 1)),
    ('revolute', '0 1e-6 -1', (0, 1e-6, -1)),
    ('prismatic', '1 0 -7e-4', (1, 0, -7e-4)),
    ('prismatic', '0 1 1e-5', (0, 1, 1e-5)),
    ('prismatic', '0 -4e-4 1', (0, -4e-4, 1)),
]
# xyz, rpy (None: not written; 'none': no origin element)
ORIGINS = [
    ('none', 'none'), (None, None), ((0.1, -0.2, 0.3), None),
    (None, (0.4, 0, 0)), (None, (0, 0.4, 0)), ((1, 2, 3), (0, 0, -2.5)),
    ((0, 0, 0.5), (0.3, -0.7, 1.1)), ((-5., 0, 1e-3), (3.0, 1.2, -0.2)),
    ((0, 1, 0), (np.pi, -np.pi / 2, np.pi / 2)),
]
# mass, moments (xx, yy, zz, xy, xz, yz), origin
INERTIAS = [
    None, (2., (0.3, 0.2, 0.4, 0, 0, 0), 0), (1.5, (1, 1, 1, 0, 0, 0), 2),
    (0.4, (0.5, 0.7, 0.9, 0.05, -0.02, 0.04), 0),
    (10., (0.5, 0.7, 0.9, 0.05, -0.02, 0.04), 6),
    (3., (2., 3., 4., 0.3, 0.2, -0.1), 3),
    (1e-3, (1e-4, 2e-4, 2.5e-4, 0, 1e-5, 0), 5),
]
# every set of null components of the origins, of the moments, equal moments
for _x in range(64):
    ORIGINS.append((tuple((0.3, -1.2, 0.7)[i] * (1 - (_x >> i & 1))
                          for i in range(3)),
                    tuple((0.9, -0.4, 2.1)[i] * (1 - (_x >> 3 + i & 1))
                          for i in range(3))))
    INERTIAS.append((1. + _x % 3, ((0.5, 0.7, 0.9), (0.7, 0.7, 0.9),
                                   (0.9, 0.7, 0.7), (0.7, 0.9, 0.7),
                                   (0.8, 0.8, 0.8))[_x % 5] + tuple(
        (0.05, -0.02, 0.04)[i] * (1 - ((5 * _x + _x // 8) >> i & 1))
        for i in range(3)), 9 + _x))
SHAPES = [
    None, ('box', (1., 2., 3.)), ('box', (0.1, 0.1, 0.5)), ('sphere', 0.7),
    ('sphere', 2.), ('cylinder', 0.2, 1.5), ('cylinder', 3., 0.1),
    ('mesh', 'part.dae', None), ('mesh', 'meshes/arm.dae#node', (1., 2., 0.5)),
    ('mesh', 'p.stl', (0.001, 0.001, 0.001)),
]
# (lower, upper) as written; (None, None): no limit element
LIMITS = [(-1., 1.), (0.2, 0.5), (-2., -0.3), (0, 3), (None, 1.), (-1., None),
          ('no', 'no'), (-1e-3, 1e3)]
OPTIONS = [
    {}, {'fixed_base': True}, {'prefix': 'left_'}, {'suffix': '.2'},
    {'prefix': 'a', 'suffix': 'b', 'fixed_base': True,
     'root_joint_name': 'base joint'},
    {'H_init': 6}, {'H_init': 7, 'fixed_base': True, 'prefix': 'x/'},
    {'save_joint_limits': False},
]


def origin(n):
    xyz, rpy = ORIGINS[n]
    p = np.zeros(3) if xyz in (None, 'none') else np.array(xyz, float)
    r, q, y = (0, 0, 0) if rpy in (None, 'none') else rpy
    R = ref.erot(2, float(y)).dot(ref.erot(1, float(q))).dot(
        ref.erot(0, float(r)))
    return ref.hom(R, p)


def num(x, style):
    if style == 0:
        return repr(x)
    if style == 1:
        return '%+.17g' % x
    return '%.17e' % x


def vec(v, style):
    return ('  ' if style else ' ').join(num(x, style) for x in v)


def origin_xml(n, style):
    xyz, rpy = ORIGINS[n]
    if xyz == 'none':
        return ''
    return '<origin%s%s/>' % (
        '' if xyz is None else ' xyz="%s"' % vec(xyz, style),
        '' if rpy is None else ' rpy="%s"' % vec(rpy, style))


def geometry_xml(g, style):
    if g[0] == 'box':
        s = '<box size="%s"/>' % vec(g[1], style)
    elif g[0] == 'sphere':
        s = '<sphere radius="%s"/>' % num(g[1], style)
    elif g[0] == 'cylinder':
        s = '<cylinder radius="%s" length="%s"/>' % (num(g[1], style),
                                                     num(g[2], style))
    else:
        s = '<mesh filename="%s"%s/>' % (
            g[1], '' if g[2] is None else ' scale="%s"' % vec(g[2], style))
    return '<geometry>\n %s </geometry>' % s


def write(robot, order=0, style=0):
    """Text of the robot; the elements come in several orders."""
    links, joints = [], []
    for i, l in enumerate(robot['links']):
        s = '<link name="%s">' % l['name']
        parts = []
        if l['I'] is not None:
            m, I, o = l['I']
            parts.append('<inertial>%s<mass value="%s"/><inertia %s/>'
                         '</inertial>' % (
                             origin_xml(o, style), num(m, style), ' '.join(
                                 '%s="%s"' % (k, num(x, style)) for k, x in
                                 zip(('ixx', 'iyy', 'izz', 'ixy', 'ixz',
                                      'iyz'), I))))
        for kind in ('visual', 'collision'):
            if l[kind] is not None:
                g, o = l[kind]
                parts.append('<%s>%s%s%s</%s>' % (
                    kind, geometry_xml(SHAPES[g], style), origin_xml(o, style),
                    '<material name="m"><color rgba="1 0 0.5 1"/></material>'
                    if kind == 'visual' else '', kind))
        if order % 2:
            parts.reverse()
        links.append(s + '\n'.join(parts) + '</link>\n')
        if i == 0:
            continue
        j = l['joint']
        parts = ['<parent link="%s"/>' % robot['links'][l['parent']]['name'],
                 '<child link="%s"/>' % l['name'],
                 origin_xml(l['origin'], style)]
        kind, axis, _ = JOINTS[j]
        if axis is not None:
            parts.append('<axis xyz="%s"/>' % axis)
        lo, up = LIMITS[l['limit']]
        if kind in ('revolute', 'prismatic') and lo != 'no':
            parts.append('<limit effort="%s" velocity="%s"%s%s/>' % (
                num(30. + i, style), num(2. + i, style),
                '' if lo is None else ' lower="%s"' % num(lo, style),
                '' if up is None else ' upper="%s"' % num(up, style)))
        if i % 2:
            parts.append('<dynamics damping="0.1"/>')
        if order % 2:
            parts.reverse()
        joints.append('<joint name="%s" type="%s">%s</joint>\n' % (
            l['jname'], kind, ''.join(parts)))
    extra = '<!-- nothing --><material name="red"><color rgba="1 0 0 1"/>' \
            '</material><gazebo reference="x"/><transmission name="t"/>'
    if order == 0:
        body = [links[0]] + [e for p in zip(links[1:], joints) for e in p]
    elif order == 1:
        body = links[::-1] + joints[::-1]
    elif order == 2:
        body = joints + [extra] + links
    elif order == 3:
        body = [extra] + links[1:] + links[:1] + joints[1:] + joints[:1]
    elif order == 4:
        body = [e for p in zip(joints[::-1], links[:0:-1]) for e in p] + \
            [links[0]]
    else:
        body = links[len(links) // 2:] + joints[::-1] + links[:len(links) // 2]
    return '<?xml version="1.0"?>\n<!-- a robot -->\n<robot name="%s">\n%s' \
           '</robot>\n' % (robot['name'], ''.join(body))


def expand(case):
    """The description of the robot of a case."""
    names = ['base', 'b_link', 'a_link', 'link 3', 'd', 'e.f']
    links = []
    for i, (p, j, o, I, v, c, lim) in enumerate(case['l']):
        links.append(dict(
            name=names[i], parent=p, joint=j, origin=o, I=INERTIAS[I],
            visual=None if not v else (v, (o + i + 3) % (9 if o < 9 else 73)),
            collision=None if not c else (c, (o + 2 * i + 5) % (9 if o < 9 else 73)),
            jname='%s_joint' % names[(i + 2) % 6], limit=lim))
    return dict(name='robot', links=links)


def cases(tier):
    thorough = tier == 'thorough'
    n = 0
    # one joint
    for j in range(len(JOINTS)):
        for o in range(9):
            for I in range(7):
                n += 1
                for op in (range(len(OPTIONS)) if thorough else
                           (n % 8, (n + 3) % 8)):
                    yield {'m': 'robot', 'l': [
                        [-1, 0, 0, n % 7, 0, n % 10, 0],
                        [0, j, o, I, n % 10, (n + 3) % 10, (n // 3) % 8]],
                        'op': op, 'or': n % 6, 'st': n % 3}
    # null components
    for o in range(9, 73):
        for k in range(64 if thorough else 8):
            n += 1
            yield {'m': 'robot', 'l': [
                [-1, 0, 0, 7 + (o + 9 * k) % 64, 0, 0, 0],
                [0, n % len(JOINTS), o, 7 + (o + (8 + thorough) * k) % 64,
                 n % 10, (n + 3) % 10, n % 8]],
                'op': n % 8, 'or': n % 6, 'st': n % 3}
    # trees
    for size in (2, 3, 4, 5) if thorough else (2, 3, 4):
        for ps in itertools.product(*[range(i + 1) for i in range(size)]):
            for order in range(6):
                for s in range(12 if thorough else (6 if size < 4 else 3)):
                    n += 1
                    links = [[-1, 0, 0, (n + s) % 7, n % 3, 0, 0]]
                    for i, p in enumerate(ps):
                        links.append([p, (5 * n + 7 * i + s) % len(JOINTS),
                                      (n + 4 * i) % 9, 1 + (n + i + s) % 6,
                                      (n + i) % 10, (n + 2 * i) % 10,
                                      (n + i) % 8])
                    yield {'m': 'robot', 'l': links, 'op': n % 8, 'or': order,
                           'st': n % 3}
    # limits that act
    for j in range(len(JOINTS)):
        if JOINTS[j][0] not in ('revolute', 'prismatic'):
            continue
        for lim in range(4):
            for side in (0, 1):
                yield {'m': 'limit', 'j': j, 'lim': lim, 'side': side}
    # several robots in one world
    for a, b in itertools.product(range(len(OPTIONS)), repeat=2):
        if OPTIONS[a].get('prefix', '') + '|' + OPTIONS[a].get('suffix', '') \
                != OPTIONS[b].get('prefix', '') + '|' + \
                OPTIONS[b].get('suffix', ''):
            yield {'m': 'two', 'op': [a, b]}
    # every element of the format that is only kept
    for joint in itertools.product((0, 1), repeat=5):
        for part in range(4):
            yield {'m': 'doc', 'j': list(joint), 'p': part}
    yield {'m': 'refused'}


_scratch = []


def urdf():
    vis.drawer()
    import arboris.robots.urdf
    return arboris.robots.urdf


def run(case):
    cov = Cov()
    mod = urdf()
    tmp = tempfile.mkdtemp(prefix='mc-urdf-')
    old = os.getcwd()
    try:
        import contextlib
        import io
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            globals()['run_' + case['m']](case, cov, mod, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
    cov.traces = 1
    return cov


def converter(mod, text, op, tmp, how, world):
    """The robot, loaded the different ways users do."""
    kw = dict(OPTIONS[op])
    if 'H_init' in kw:
        kw['H_init'] = origin(kw['H_init'])
    path = os.path.join(tmp, 'dir')
    if not os.path.isdir(path):
        os.mkdir(path)
    with open(os.path.join(path, 'robot.urdf'), 'w') as f:
        f.write(text)
    name = os.path.join(path, 'robot.urdf')
    if how % 3 == 2:
        os.chdir(path)
        name = 'robot.urdf'
    if how % 2:
        return mod.URDFConverter(name, world, **kw), kw
    c = mod.URDFConverter(**kw)
    c.urdf_file_name = name
    c.parseURDF(name)
    c.load_in_world(world)
    return c, kw


def run_robot(case, cov, mod, tmp):
    from arboris.core import World
    robot = expand(case)
    text = write(robot, case['or'], case['st'])
    w = World()
    c, kw = converter(mod, text, case['op'], tmp, case['or'] + case['st'], w)
    compare(robot, w, kw, cov, 'loaded')
    queries(robot, c, kw, cov, tmp, w)
    chains(robot, c.robot, cov)
    str(c.robot)
    # written and read again
    again = c.robot.to_xml()
    two = mod.urdf_parser.URDF.parse_xml_string(again)
    c2 = mod.URDFConverter(**kw)
    c2.urdf_file_name = c.urdf_file_name
    c2.robot = two
    w2 = World()
    c2.load_in_world(w2)
    compare(robot, w2, kw, cov, 'written and loaded again')
    queries(robot, c2, kw, cov, tmp, w2)
    chains(robot, two, cov)
    require(two.to_xml() == again, 'written twice, the files differ')
    cov.state(case['l'], case['op'], case['or'])
    cov.nontrivial = any(JOINTS[l['joint']][2] is not None
                         for l in robot['links'][1:])


def full(name, kw):
    return kw.get('prefix', '') + name + kw.get('suffix', '')


def motion(j, q):
    kind, _, u = JOINTS[j]
    if u is None:
        return np.eye(4)
    if isinstance(u, str):
        return q
    u = np.array(u, float) / np.linalg.norm(u)
    if kind == 'revolute':
        return ref.hom(ref.rotation_from(u, q), np.zeros(3))
    return ref.hom(np.eye(3), q * u)


FREE = [ref.hom(ref.rotation_from((1, 2, -1), 0.8), (0.5, 2., -1.)),
        ref.hom(ref.rotation_from((0, 1, 1), -2.), (-0.3, 0., 4.))]


def compare(robot, w, kw, cov, what, others=0):
    links = robot['links']
    bodies, joints = w.getbodies(), w.getjoints()
    if not others:
        require(len(bodies) == len(links) + 1, '%s: %d bodies' % (
            what, len(bodies)))
        require(len(joints) == len(links), '%s: %d joints' % (
            what, len(joints)))
        require(w.ndof == sum(j.ndof for j in joints), what + ': not ready')
    b = [bodies[full(l['name'], kw)] for l in links]
    root = joints[full(kw.get('root_joint_name', 'root_joint'), kw)]
    js = [root] + [joints[full(l['jname'], kw)] for l in links[1:]]
    nd = [0 if kw.get('fixed_base') else 6]
    for i, l in enumerate(links):
        if i:
            u = JOINTS[l['joint']][2]
            nd.append(0 if u is None else 6 if isinstance(u, str) else 1)
        require(b[i].parentjoint is js[i], '%s: joint of %s' % (
            what, l['name']))
        parent = w.ground if not i else b[l['parent']]
        require(js[i].frame0.body is parent and js[i].frame1.body is b[i],
                '%s: bodies of joint %d' % (what, i))
        require(js[i].ndof == nd[i], '%s: dofs of joint %d' % (what, i))
        # inertia
        if l['I'] is None:
            M = np.zeros((6, 6))
        else:
            m, I, o = l['I']
            H = origin(o)
            xx, yy, zz, xy, xz, yz = I
            I = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]], float)
            R = H[:3, :3]
            M = ref.spatial_mass(m, H[:3, 3], R.dot(I).dot(R.T))
        same('%s: mass of %s' % (what, l['name']), b[i].mass, M, 1e-10,
             max(1e-3, np.abs(M).max()))
        cov.check(4)
    # poses
    T0 = np.eye(4) if kw.get('H_init') is None else kw['H_init']
    for k in range(4):
        q = []
        for i, l in enumerate(links):
            if nd[i] == 6:
                x = np.eye(4) if k == 0 else FREE[(i + k) % 2]
            else:
                x = 0. if k == 0 else (-1) ** (i + k) * (0.3 * k + 0.2 * i)
            q.append(x)
            if nd[i] == 6:
                js[i].gpos[:] = x
            elif nd[i]:
                if k == 0:
                    same('%s: first position' % what, js[i].gpos,
                         np.zeros(1), 0.)
                js[i].gpos[:] = x
        if k % 2:
            w.update_geometric()
        else:
            w.update_dynamic()
        pose = {}

        def place(i):
            if i not in pose:
                if i == 0:
                    pose[i] = T0.dot(q[0] if nd[0] else np.eye(4))
                else:
                    l = links[i]
                    pose[i] = place(l['parent']).dot(origin(l['origin'])).dot(
                        motion(l['joint'], q[i]))
            return pose[i]
        for i, l in enumerate(links):
            same('%s, configuration %d: pose of %s' % (what, k, l['name']),
                 b[i].pose, place(i), 1e-9)
            cov.check()
        shapes(robot, w, b, pose, what, cov, others)
        cov.step()


def shapes(robot, w, b, pose, what, cov, others):
    from arboris import shapes as sh
    mine = [s for s in w.itershapes() if s.frame.body in b]
    want = [(i, l['collision']) for i, l in enumerate(robot['links'])
            if l['collision'] is not None and
            SHAPES[l['collision'][0]][0] != 'mesh']
    require(len(mine) == len(want), '%s: %d shapes instead of %d' % (
        what, len(mine), len(want)))
    for i, (g, o) in want:
        s = [x for x in mine if x.frame.body is b[i]]
        require(len(s) == 1, '%s: shapes of body %d' % (what, i))
        s = s[0]
        g = SHAPES[g]
        same('%s: pose of the shape of body %d' % (what, i), s.frame.pose,
             pose[i].dot(origin(o)), 1e-9)
        if g[0] == 'box':
            require(isinstance(s, sh.Box), 'kind of shape')
            same('%s: box' % what, s.half_extents, np.array(g[1]) / 2, 1e-12)
        elif g[0] == 'sphere':
            require(isinstance(s, sh.Sphere), 'kind of shape')
            same('%s: sphere' % what, s.radius, np.array(g[1]), 1e-12)
        else:
            require(isinstance(s, sh.Cylinder), 'kind of shape')
            same('%s: cylinder' % what, [s.radius, s.length],
                 np.array(g[1:]), 1e-12)
        cov.check(2)


def limited(l):
    lo, up = LIMITS[l['limit']]
    return JOINTS[l['joint']][0] in ('revolute', 'prismatic') and lo != 'no'


def queries(robot, c, kw, cov, tmp, w):
    """Limits and shapes told by the converter."""
    links = robot['links']
    lim, eff, vel = {}, {}, {}
    nb = 0
    for i, l in enumerate(links[1:], 1):
        n = full(l['jname'], kw)
        if limited(l):
            eff[n], vel[n] = 30. + i, 2. + i
            lo, up = LIMITS[l['limit']]
            if lo is not None and up is not None:
                lim[n] = (lo, up)
                nb += 1
    require(dict(c.get_joint_limits()) == lim, 'limits: %s instead of %s' % (
        c.get_joint_limits(), lim))
    for name, d in (('get_effort_limits', eff), ('get_velocity_limits', vel)):
        got = {k: v for k, v in getattr(c, name)().items() if v is not None}
        require(got == d, '%s: %s instead of %s' % (name, got, d))
    cons = list(w.iterconstraints())
    require(len(cons) == (nb if kw.get('save_joint_limits', True) else 0),
            '%d limits in the world' % len(cons))
    for kind, got in (('visual', c.get_visual_shapes()),
                      ('collision', c.get_collision_shapes())):
        by = {d['frame']: d for d in got}
        want = {full(l['name'], kw): l[kind] for l in links
                if l[kind] is not None}
        require(len(got) == len(by) and set(by) == set(want),
                '%s shapes: %s' % (kind, sorted(by)))
        for f, (g, o) in want.items():
            d, g = by[f], SHAPES[g]
            require(d['shape'] == g[0], '%s shape of %s' % (kind, f))
            same('%s shape of %s' % (kind, f), d['transform'], origin(o), 1e-12)
            if g[0] == 'mesh':
                want_path = os.path.join(os.path.realpath(tmp), 'dir', g[1])
                require(os.path.realpath(d['mesh']) == want_path,
                        'mesh %s instead of %s' % (d['mesh'], want_path))
                size = 1. if g[2] is None else np.array(g[2])
                drawn = np.asarray(d['scale'], float)
            else:
                path, _, node = d['mesh'].partition('#')
                require(os.path.isfile(path) and g[0] in node,
                        'mesh %s of a %s' % (d['mesh'], g[0]))
                size = {'box': lambda: np.array(g[1]),
                        'sphere': lambda: 2. * np.array([g[1]] * 3),
                        'cylinder': lambda: np.array(
                            [2. * g[1], 2. * g[1], g[2]])}[g[0]]()
                drawn = extent(path, node) * np.asarray(d['scale'], float)
            same('size of the %s shape of %s' % (kind, f), drawn,
                 np.asarray(size, float), 1e-6)
            cov.check(4)
    cov.check(5)


_extents = {}


def extent(path, node):
    """The size of a node of a mesh file."""
    if (path, node) not in _extents:
        import collada
        pts = []

        def collect(n, inside):
            inside = inside or getattr(n, 'id', None) == node
            if inside and isinstance(n, collada.scene.GeometryNode):
                for p in n.geometry.primitives:
                    pts.append(p.vertex)
            for c in getattr(n, 'children', []):
                collect(c, inside)
        for n in collada.Collada(path).scene.nodes:
            collect(n, False)
        require(pts, 'no mesh %s in %s' % (node, path))
        pts = np.concatenate(pts)
        _extents[path, node] = pts.max(axis=0) - pts.min(axis=0)
    return _extents[path, node]


def chains(robot, r, cov):
    links = robot['links']
    require(r.get_root() == links[0]['name'], 'root: %s' % r.get_root())
    require(r.name == robot['name'], 'name of the robot')
    for t in range(len(links)):
        path = [t]
        while True:
            a = path[-1]
            names = []
            for i in path[::-1]:
                if i != a:
                    names.append((links[i]['jname'], 'j', i))
                names.append((links[i]['name'], 'l', i))
            for jf, lf, ff in itertools.product((True, False), repeat=3):
                want = [n for n, k, i in names if (
                    lf if k == 'l' else jf and
                    (ff or JOINTS[links[i]['joint']][0] != 'fixed'))]
                got = list(r.get_chain(links[a]['name'], links[t]['name'], jf,
                                       lf, ff))
                require(got == want, 'chain %d-%d (%s, %s, %s): %s' % (
                    a, t, jf, lf, ff, got))
                cov.check()
            if a == 0:
                break
            path.append(links[a]['parent'])


def run_limit(case, cov, mod, tmp):
    """The limits of the file stop the joint."""
    from arboris.core import World
    lo, up = LIMITS[case['lim']]
    robot = expand({'l': [[-1, 0, 0, 1, 0, 0, 0],
                          [0, case['j'], 2, 3, 0, 0, case['lim']],
                          [1, 2, 5, 5, 0, 0, 6]]})
    w = World()
    c, kw = converter(mod, write(robot), 1, tmp, 1, w)
    j = w.getjoints()[robot['links'][1]['jname']]
    j.gpos[:] = up - 1e-3 if case['side'] else lo + 1e-3
    j.gvel[:] = 3. if case['side'] else -3.
    w.init()
    dt = 0.01
    for k in range(5):
        w.update_dynamic()
        w.update_controllers(dt)
        w.update_constraints(dt)
        w.integrate(dt)
        q = float(j.gpos[0])
        require(lo - 1e-6 <= q <= up + 1e-6, 'limits %s: position %g after '
                '%d steps' % ((lo, up), q, k + 1))
        cov.step()
        cov.check()
    if case['side']:
        require(q > up - 0.02, 'stopped at %g instead of %g' % (q, up))
    else:
        require(q < lo + 0.02, 'stopped at %g instead of %g' % (q, lo))
    # and nothing stops it inside
    mid = (lo + up) / 2
    j.gpos[:] = mid
    j.gvel[:] = 0.2
    w.update_dynamic()
    w.update_controllers(dt)
    before = w.gforce
    w.update_constraints(dt)
    same('force inside the limits', w.gforce, before, 1e-12)
    cov.check(2)
    cov.state(case)
    cov.nontrivial = True


def run_two(case, cov, mod, tmp):
    """Two robots of the same file in one world."""
    from arboris.core import World
    robot = expand({'l': [[-1, 0, 0, 1, 1, 3, 0], [0, 1, 2, 3, 0, 1, 0],
                          [0, 16, 5, 5, 2, 5, 1], [2, 10, 6, 4, 0, 0, 6]]})
    w = World()
    text = write(robot, case['op'][0] % 6)
    kws = [converter(mod, text, op, tmp, op, w)[1] for op in case['op']]
    require(len(w.getbodies()) == 9 and len(w.getjoints()) == 8,
            'bodies and joints of both')
    for kw in kws:
        compare(robot, w, kw, cov, 'robot %s' % kw, others=1)
    cov.state(case)
    cov.nontrivial = True


# element: attribute in the file, attribute of the object
KEPT = {
    'limit': ('limits', [('effort', 'effort'), ('velocity', 'velocity'),
                         ('lower', 'lower'), ('upper', 'upper')]),
    'dynamics': ('dynamics', [('damping', 'damping'),
                              ('friction', 'friction')]),
    'safety_controller': ('safety', [('k_velocity', 'velocity'),
                                     ('k_position', 'position'),
                                     ('soft_lower_limit', 'lower'),
                                     ('soft_upper_limit', 'upper')]),
    'calibration': ('calibration', [('rising', 'rising'),
                                    ('falling', 'falling')]),
    'mimic': ('mimic', [('multiplier', 'multiplier'), ('offset', 'offset')]),
}
NEEDED = {'effort', 'velocity', 'k_velocity'}


def run_doc(case, cov, mod, tmp):
    """What the reader keeps is what is written."""
    parts, want = [], {}
    for n, (on, (tag, (attr, fields))) in enumerate(
            zip(case['j'], sorted(KEPT.items()))):
        want[attr] = None
        if not on:
            continue
        values = {}
        for k, (a, _) in enumerate(fields):
            if a in NEEDED or (case['p'] >> (k % 2)) % 2:
                values[a] = (-1) ** k * (0.125 + n + 10 * k)
        want[attr] = {b: values.get(a) for a, b in fields}
        parts.append('<%s%s %s/>' % (
            tag, ' joint="k"' if tag == 'mimic' else '', ' '.join(
                '%s="%r"' % x for x in values.items())))
    color, texture = case['p'] % 2, case['p'] // 2
    material = '<material name="mat">%s%s</material>' % (
        '<color rgba="0.1 0.2 0.3 0.5"/>' if color else '',
        '<texture filename="t.png"/>' if texture else '')
    text = '<robot name="doc">%s<link name="a"><visual>%s<geometry><sphere ' \
           'radius="2"/></geometry></visual></link><link name="b"/>' \
           '<joint name="k" type="fixed"><parent link="a"/><child link="c"/>' \
           '</joint><link name="c"/><joint name="j" type="revolute"><parent ' \
           'link="a"/><child link="b"/>%s</joint></robot>' % (
               material, material, ''.join(parts))
    r = mod.urdf_parser.URDF.parse_xml_string(text)
    for what in ('read', 'written and read again'):
        j = r.joints['j']
        for attr, d in want.items():
            x = getattr(j, attr)
            require((x is None) == (d is None), '%s: %s' % (what, attr))
            for k, v in (d or {}).items():
                y = getattr(x, k)
                require((y is None) == (v is None) and
                        (v is None or float(y) == v),
                        '%s: %s of %s: %s instead of %s' % (what, k, attr, y, v))
                cov.check()
        if want['mimic'] is not None:
            require(j.mimic.joint_name == 'k', what + ': mimic')
        for m in (r.materials['mat'], r.links['a'].visual.material):
            require(m.name == 'mat', what + ': name of the material')
            require(m.texture == ('t.png' if texture else None),
                    what + ': texture')
            require((m.color is None) == (not color), what + ': color')
            if color:
                same(what + ': color', m.color.rgba, [0.1, 0.2, 0.3, 0.5], 0.)
        require(list(r.links) == ['a', 'b', 'c'] and
                list(r.joints) == ['k', 'j'], what + ': elements')
        cov.check(4)
        cov.step()
        text = r.to_xml()
        str(r)
        r = mod.urdf_parser.URDF.parse_xml_string(text)
    require(r.to_xml() == text, 'written twice, the files differ')
    cov.state(case)
    cov.nontrivial = sum(case['j']) > 0


def run_refused(case, cov, mod, tmp):
    from arboris.core import World
    try:
        mod.URDFConverter().load_in_world(World())
    except ValueError:
        cov.check()
    else:
        require(False, 'no file, and no error')
    for kind in ('continuous', 'planar', 'screw', ''):
        text = '<robot name="r"><link name="a"/><link name="b"/><joint ' \
               'name="j" type="%s"><parent link="a"/><child link="b"/></joint>' \
               '</robot>' % kind
        c = mod.URDFConverter()
        c.robot = mod.urdf_parser.URDF.parse_xml_string(text)
        try:
            c.load_in_world(World())
        except KeyError:
            cov.check()
        else:
            require(False, 'joint of type %r accepted' % kind)
    cov.step()
    cov.state('refused')
    cov.nontrivial = True
