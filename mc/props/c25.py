"""Robots."""
import copy
import itertools
import json
import os
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, qvalue, vvalue, ANG
from mc import ref

META = dict(
    rule='every robot with every value of its parameters of the alphabets is '
         'built and taken through configurations; the tree, poses, mass and '
         'non-linear matrices, frames and shapes are compared with those of '
         'the reference model built from the description of the robot (for '
         'the human: the anatomical data and the results of HuMAnS, for the '
         'iCub its documented data and the mirror symmetry); then every '
         'ordered pair of robots in one world, compared with the two alone; '
         'non-trivial: more than one body',
    bounds='arm: 27 lengths x 9 masses x shapes, 64 lengths from 4 mm to 25 m; '
           'snake: 1 to 5 bodies, 5 sets of parameters, 6 scales, fixed or '
           'not; shapes: 54 dimensions from 3 mm to 40 m; human: '
           '6 heights x 3 masses x 22 sets of lengths; iCub: 4 options, all '
           'the pairs of joints; 30 pairs of robots',
)
CHUNK = 10
GOLD = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'robots.json')))

EDITS = [
    {}, {'yhumerusL': .7, 'yforearmL': .7, 'yhandL': .7},
    {'yhumerusR': 1.2}, {'yforearmR': 0.8}, {'yhandR': 1.5}, {'yhandL': 0.5},
    {'xfootR': 1.1, 'xheelR': 1.1}, {'xfootL': 0.6, 'xheelL': 0.6},
    {'yfootR': 2., 'yfootL': 2.}, {'ytibiaR': 0.5, 'ytibiaL': 0.5},
    {'yfemurR': 1.3, 'yfemurL': 1.3}, {'yvT10': 1.2}, {'xvT10': 0.4},
    {'zhip': 1.6}, {'yvC7': 1.3}, {'yhead': 0.9},
    {'xsternoclavR': 1.2, 'xsternoclavL': 1.2, 'ysternoclavR': 1.1,
     'ysternoclavL': 1.1, 'zsternoclavR': 2., 'zsternoclavL': 2.},
    {'xshoulderR': 1.4, 'yshoulderR': 3., 'zshoulderR': 1.2},
    {'xshoulderL': 1.4, 'yshoulderL': 3., 'zshoulderL': 1.2},
    {'zsternoclavL': 3.}, {'xsternoclavR': 1.3}, {'ysternoclavL': 1.2},
    # lengths moved between the parts of a leg
    {'leg': ['yfemurL', 'ytibiaL']}, {'leg': ['ytibiaR', 'yfootR']},
    {'leg': ['yfootL', 'yfemurL']}, {'leg': ['yfemurR', 'ytibiaR']},
]


def cases(tier):
    ls = (0.2, 0.5, 1.7)
    for n, (l, m) in enumerate(itertools.product(
            itertools.product(ls, repeat=3),
            itertools.product((0.1, 1., 4.), repeat=2))):
        yield {'m': 'arm', 'l': list(l), 'k': list(m) + [0.7], 's': n % 2,
               'n': n % 3}
    # segments of any size and mass
    for n, l in enumerate(itertools.product((0.004, 0.06, 0.4, 25.),
                                            repeat=3)):
        yield {'m': 'arm', 'l': list(l), 'k': [(1e-3, 1., 300.)[n % 3], 0.5,
                                               (1., 40., 2e-4)[n // 3 % 3]],
               's': n % 2, 'n': n % 3}
    for nb in range(1, 6):
        for p in range(5):
            for fixed in (0, 1):
                yield {'m': 'snake', 'n': nb, 'p': p, 'f': fixed}
    for u in ((0.02, 1.), (40., 1.), (1., 1e-4), (1., 500.), (0.01, 1e-3)):
        for nb in (1, 2, 4):
            for fixed in (0, 1):
                yield {'m': 'snake', 'n': nb, 'p': 4, 'f': fixed,
                       'u': list(u)}
    for d in itertools.product((0.1, 1., 2.5), repeat=3):
        for m in (0.2, 1., 30.):
            yield {'m': 'shape', 'd': list(d), 'k': m}
    for d in itertools.product((0.003, 0.2, 40.), repeat=3):
        for m in (1e-5, 2e3):
            yield {'m': 'shape', 'd': list(d), 'k': m}
    for up in ((0., 1., 0.), (0., 0., 1.), (1., 0., 0.), (0., 0.6, 0.8),
               (0., -1., 0.)):
        yield {'m': 'plane', 'u': list(up)}
    for h in (1., 1.5, 1.741, 1.8, 2., 2.3):
        for m in (50., 73., 110.):
            for e in range(len(EDITS)):
                yield {'m': 'human', 'h': h, 'k': m, 'e': e}
    yield {'m': 'humans'}
    for fixed in (0, 1):
        for shapes in (0, 1):
            for contacts in (0, 1):
                yield {'m': 'icub', 'f': fixed, 's': shapes, 'c': contacts}
    pairs = sorted(k for k in GOLD['icub']['limits'])
    for a in range(len(pairs)):
        for b in range(len(pairs)):
            yield {'m': 'mirror', 'j': [pairs[a], pairs[b]]}
    for a in range(6):
        for b in range(6):
            yield {'m': 'pair', 'r': [a, b]}
    for t in range(7):
        yield {'m': 'dh', 't': t}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    cov.state(case)
    return cov


def T(x, y, z):
    return ref.hom(np.eye(3), np.array([x, y, z], float))


def box(hx, hy, hz, m):
    return m / 3. * np.diag([hy * hy + hz * hz, hx * hx + hz * hz,
                             hx * hx + hy * hy])


def parts(M):
    """mass, com and inertia at the com of a mass matrix."""
    M = np.asarray(M)
    m = M[5, 5]
    if m == 0:
        return (0., (0, 0, 0), np.zeros((3, 3)))
    C = M[:3, 3:] / m
    return (m, np.array([C[2, 1], C[0, 2], C[1, 0]]), M[:3, :3] + m * C.dot(C))


class Spec(Sim):
    """links: dicts with parent, joint, F0, F1, mass=(m, c, Ic), body and
    joint names."""

    def __init__(self, w, links, first=0):
        self.world = w
        self.spec = [[l['parent'], l['joint']] for l in links]
        self.links = links
        self.tree = ref.Tree([dict(parent=l['parent'], joint=l['joint'],
                                   F0=l.get('F0', np.eye(4)),
                                   F1=l.get('F1', np.eye(4)))
                              for l in links])
        joints = list(w.getjoints())[first:first + len(links)]
        self.joints, self.bodies = {}, {-1: w.ground}
        for i, j in zip(self.tree.order, joints):
            self.joints[i] = j
            self.bodies[i] = j.frames[1].body
        self.mass = {i: l['mass'] for i, l in enumerate(links)}
        self.visc = {i: np.zeros((6, 6)) for i in range(len(links))}
        self.frames = []
        self.q, self.dq = {}, {}
        self.read_config()

    def check(self, what, k=None, cov=None, first=0):
        w = self.world
        if k is not None:
            self.set_config(k, (k + 1) % 7)
        self.read_config()
        w.update_dynamic()
        m = self.model()
        for i, l in enumerate(self.links):
            same('%s: pose of body %s' % (what, l.get('body', i)),
                 self.bodies[i].pose, m['pose'][i], 1e-9)
            same('%s: jacobian of body %s' % (what, l.get('body', i)),
                 self.bodies[i].jacobian[:, first:first + self.tree.ndof],
                 m['J'][i], 1e-9)
        s = slice(first, first + self.tree.ndof)
        scale = max(abs(m['M']).max(), 1e-12)
        same(what + ': mass matrix', w.mass[s, s], m['M'], 1e-9, scale)
        scale = max(abs(m['N']).max(), scale)
        same(what + ': non-linear effects', w.nleffects[s, s], m['N'], 1e-9,
             scale)
        if cov:
            cov.step()
            cov.check(2 + 2 * len(self.links))
        return m

    def structure(self, what, total):
        w = self.world
        require(len(w.getjoints()) == total, '%s: %d joints' % (
            what, len(w.getjoints())))
        for i, l in enumerate(self.links):
            j = self.joints[i]
            require(type(j).__name__ == l['joint'], '%s: joint %s is a %s' % (
                what, j.name, type(j).__name__))
            require(j.frames[0].body is self.bodies[l['parent']],
                    '%s: parent of %s' % (what, l.get('body', i)))
            if 'body' in l:
                require(self.bodies[i].name == l['body'],
                        '%s: body %s instead of %s' % (
                            what, self.bodies[i].name, l['body']))
            if 'name' in l:
                require(j.name == l['name'], '%s: joint %s instead of %s' % (
                    what, j.name, l['name']))
            M = ref.spatial_mass(*l['mass'])
            same('%s: mass of body %s' % (what, l.get('body', i)),
                 self.bodies[i].mass, M, 1e-9, max(abs(M).max(), 1e-12))
            M = M[:3, :3]
            same('%s: inertia of body %s' % (what, l.get('body', i)),
                 self.bodies[i].mass[:3, :3], M,
                 # (the data of these robots have a few digits)
                 1e-4 if what in ('human', 'iCub') else 1e-9,
                 max(abs(M).max(), 1e-15))
            n = ref.ndof(l['joint'])
            if l['joint'] == 'FreeJoint':
                same(what + ': initial pose', j.gpos, np.eye(4))
            same(what + ': initial velocity', np.array(j.gvel, float),
                 np.array(l.get('v', np.zeros(n)), float))
            if l['joint'] != 'FreeJoint':
                same(what + ': initial position', np.array(j.gpos, float),
                     np.array(l.get('q', np.zeros(n)), float))


def arm_links(l, m, name=''):
    out = []
    for i, (b, j) in enumerate((('Arm', 'Shoulder'), ('Forearm', 'Elbow'),
                                ('Hand', 'Wrist'))):
        out.append(dict(
            parent=i - 1, joint='RzJoint', body=name + b, name=name + j,
            F0=T(0, l[i - 1], 0) if i else np.eye(4),
            mass=(m[i], (0, l[i] / 2., 0),
                  box(l[i] / 20., l[i] / 2., l[i] / 20., m[i]))))
    return out


def run_arm(case, cov):
    from arboris.core import World
    from arboris.robots.simplearm import add_simplearm
    from arboris.shapes import Box
    w = World()
    l, m = case['l'], case['k']
    name = ['', 'Bob', "left "][case['n']]
    args = (tuple(l), list(l), np.array(l))[case['n']]
    add_simplearm(w, name=name, lengths=args, masses=m,
                  with_shapes=bool(case['s']))
    s = Spec(w, arm_links(l, m, name))
    s.structure('arm', 3)
    f = w.getframes()
    for k in (None, 1, 4, 7):
        s.check('arm', k, cov)
        a = np.cumsum([s.q[i][0] for i in range(3)])
        tip = np.array([-np.sin(a).dot(l), np.cos(a).dot(l), 0.])
        same('end effector', f[name + 'EndEffector'].pose[:3, 3], tip)
        same('elbow', f[name + 'ElbowBaseFrame'].pose[:3, 3],
             [-np.sin(a[0]) * l[0], np.cos(a[0]) * l[0], 0.])
        same('wrist', f[name + 'WristBaseFrame'].pose[:3, 3],
             f[name + 'ElbowBaseFrame'].pose[:3, 3] +
             [-np.sin(a[1]) * l[1], np.cos(a[1]) * l[1], 0.])
        sh = w.getshapes()
        require(len(sh) == (3 if case['s'] else 0), '%d shapes' % len(sh))
        if case['s']:
            for i in range(3):
                x = [z for z in sh if z.frame.body is s.bodies[i]]
                require(len(x) == 1 and isinstance(x[0], Box), 'shape')
                same('shape', np.array(x[0].half_extents),
                     [l[i] / 20., l[i] / 2., l[i] / 20.])
                # the shape is where the mass is
                same('place of the shape', x[0].frame.pose[:3, 3],
                     s.bodies[i].pose.dot(np.append(s.mass[i][1], 1.))[:3])
                same('orientation of the shape', x[0].frame.pose[:3, :3],
                     s.bodies[i].pose[:3, :3])
    cov.nontrivial = True


def snake_links(n, lengths, masses, q, dq, fixed):
    out = []
    if not fixed:
        L = lengths[0] / 2.
        out.append(dict(parent=-1, joint='FreeJoint',
                        mass=(masses[0], (0, 0, 0), box(L, L, L, masses[0]))))
    for i in range(n):
        l, m = lengths[i], masses[i]
        r = l / 5.
        t = m * (3 * r * r + l * l) / 12.
        out.append(dict(parent=len(out) - 1, joint='RzJoint',
                        F0=T(0, lengths[i - 1], 0) if i else np.eye(4),
                        q=[q[i]], v=[dq[i]],
                        mass=(m, (0, l / 2., 0),
                              np.diag([t, m * r * r / 2., t]))))
    return out


def run_snake(case, cov):
    from arboris.core import World
    from arboris.robots.snake import add_snake
    n, p = case['n'], case['p']
    lengths = [0.5] * n if p in (0, 3) else [0.3 + 0.4 * ((2 * i + 1) % 5)
                                             for i in range(n)]
    masses = [2.] * n if p in (0, 2) else [1. + 0.7 * ((3 * i + 2) % 5)
                                           for i in range(n)]
    q = [0.] * n if p in (0, 1) else [0.2 * (i + 1) * (-1) ** i
                                      for i in range(n)]
    dq = [0.] * n if p in (0, 1, 2) else [1. - 0.4 * i for i in range(n)]
    if 'u' in case:
        lengths = [case['u'][0] * l for l in lengths]
        masses = [case['u'][1] * m for m in masses]
    kw = {}
    if p not in (0, 3):
        kw['lengths'] = list(lengths)
    if p not in (0, 2):
        kw['masses'] = list(masses)
    if p not in (0, 1):
        kw['gpos'] = list(q)
    if p not in (0, 1, 2):
        kw['gvel'] = list(dq)
    w = World()
    add_snake(w, n, is_fixed=bool(case['f']), **kw)
    links = snake_links(n, lengths, masses, q, dq, case['f'])
    s = Spec(w, links)
    s.structure('snake', len(links))
    for k in (None, 2, 5):
        m = s.check('snake', k, cov)
        H = m['pose'][len(links) - 1].dot(T(0, lengths[-1], 0))
        ends = [f for f in w.getframes() if f is not f.body and
                f.body is s.bodies[len(links) - 1]]
        require(len(ends) == 1, 'end of the snake')
        same('end of the snake', ends[0].pose, H)
    for k in list(kw):
        if len(kw[k]) != n:
            require(False, 'argument changed')
        try:
            add_snake(World(), n + 1, **{k: kw[k]})
        except AssertionError:
            cov.check()
        else:
            require(False, '%s of the wrong size accepted' % k)
    cov.nontrivial = n > 1


def run_shape(case, cov):
    from arboris.core import World
    from arboris.robots import simpleshapes as ss
    a, b, c = case['d']
    m = case['k']
    for n in range(3):
        w = World()
        if n == 0:
            ss.add_sphere(w, a, m, 'it')
            I = 0.4 * m * a * a * np.eye(3)
        elif n == 1:
            ss.add_box(w, (a, b, c), m, 'it')
            I = box(a, b, c, m)
        else:
            ss.add_cylinder(w, a, b, m, 'it')
            I = np.diag([m * (3 * b * b + a * a) / 12.] * 2 +
                        [m * b * b / 2.])
        s = Spec(w, [dict(parent=-1, joint='FreeJoint', body='it',
                          mass=(m, (0, 0, 0), I))])
        s.structure('shape', 1)
        s.check('shape', 1, cov)
        sh = w.getshapes()
        require(len(sh) == 1, '%d shapes' % len(sh))
        sh = sh[0]
        require(type(sh).__name__ == ('Sphere', 'Box', 'Cylinder')[n], 'kind')
        require(sh.frame.body is s.bodies[0], 'shape on another body')
        same('place of the shape', sh.frame.pose, s.bodies[0].pose)
        if n == 1:
            same('extents', np.array(sh.half_extents), [a, b, c])
        else:
            require(sh.radius == (a, None, b)[n], 'radius')
        if n == 2:
            require(sh.length == a, 'length')
    # two in one world
    w = World()
    ss.add_box(w, (a, b, c), m, 'one')
    w.getjoints()[0].gpos[1, 3] = 3.
    w.getjoints()[0].gvel[0] = 0.4
    ss.add_sphere(w, b, 2 * m, 'two')
    ss.add_groundplane(w)
    require(len(w.getbodies()) == 3 and len(w.getshapes()) == 3,
            'two shapes in one world')
    require(w.getjoints()[0].gpos[1, 3] == 3. and
            w.getjoints()[0].gvel[0] == 0.4, 'the first one is moved')
    w.update_dynamic()
    M = np.zeros((12, 12))
    M[:6, :6] = ref.spatial_mass(m, (0, 0, 0), box(a, b, c, m))
    M[6:, 6:] = ref.spatial_mass(2 * m, (0, 0, 0), 0.8 * m * b * b * np.eye(3))
    same('mass matrix of the two', w.mass, M, 1e-9)
    cov.step()
    cov.nontrivial = True


def run_plane(case, cov):
    from arboris.core import World
    from arboris.robots.simpleshapes import add_groundplane
    w = World()
    w.up[:] = case['u']
    add_groundplane(w)
    p = w.getshapes()[0]
    require(p.frame is w.ground or p.frame.body is w.ground, 'plane on the '
            'ground')
    same('plane', np.array(p.coeffs), case['u'] + [0.])
    require(len(w.getshapes()) == 1, 'one plane')
    cov.check(2)
    cov.step()


# ----------------------------------------------------------------- human
def human_lengths(h):
    g = GOLD['lengths']
    r = h / 1.741
    out = {}
    for k in g:
        if k.startswith('zsternoclav'):
            out[k] = 0.0127
        elif k.startswith('zshoulder'):
            out[k] = (g[k] + 0.0127) * r - 0.0127
        else:
            out[k] = g[k] * r
    for s in 'RL':
        out['xheel' + s] = 0.0248 * h
    return out


def human_links(L, mass, prefix, L0):
    """L0: lengths of a human of 1.741 m."""
    def body(name, kx, ky=None, kr=None):
        ky = kx if ky is None else ky
        kr = ky if kr is None else kr
        m, c, I = parts(GOLD['masses'][name])
        return (m * mass / 73., np.array(c) * [kx, ky, 1.],
                np.array(I) * kr ** 2 * mass / 73.)

    def k(n):
        return L[n] / L0[n]

    res = []
    idx = {'': -1}

    def add(parent, x, joint, name, b, m):
        idx[b] = len(res)
        res.append(dict(parent=idx[parent], joint=joint, F0=T(*x),
                        name=prefix + name, body=prefix + b, mass=m))
    add('', (0, L['yfootL'] + L['ytibiaL'] + L['yfemurL'], 0), 'FreeJoint',
        'Root', 'LPT', body('LPT', k('yvT10')))
    for s, z in (('R', 1), ('L', -1)):
        add('LPT', (0, 0, z * L['zhip'] / 2.), 'RzRyRxJoint', 'Hip' + s,
            'Thigh' + s, body('Thigh' + s, k('yfemur' + s)))
        add('Thigh' + s, (0, -L['yfemur' + s], 0), 'RzJoint', 'Knee' + s,
            'Shank' + s, body('Shank' + s, k('ytibia' + s)))
        add('Shank' + s, (0, -L['ytibia' + s], 0), 'RzRxJoint', 'Ankle' + s,
            'Foot' + s, body('Foot' + s, k('xfoot' + s), k('yfoot' + s),
                             k('xfoot' + s)))
    add('LPT', (-L['xvT10'], L['yvT10'], 0), 'RzRyRxJoint', 'Back', 'UPT',
        body('UPT', (k('xsternoclavR') + k('xsternoclavL')) / 2.,
             (k('ysternoclavR') + k('ysternoclavL')) / 2.,
             k('ysternoclavR')))
    for s, z in (('R', 1), ('L', -1)):
        add('UPT', (L['xsternoclav' + s], L['ysternoclav' + s],
                    z * L['zsternoclav' + s]), 'RyRxJoint', 'Torso-Scap' + s,
            'Scapula' + s, (0., (0, 0, 0), np.zeros((3, 3))))
        add('Scapula' + s, (-L['xshoulder' + s], L['yshoulder' + s],
                            z * L['zshoulder' + s]), 'RzRyRxJoint',
            'Arm-Scap' + s, 'Arm' + s, body('Arm' + s, k('yhumerus' + s)))
        add('Arm' + s, (0, -L['yhumerus' + s], 0), 'RzRyJoint', 'Elbow' + s,
            'Forearm' + s, body('Forearm' + s, k('yforearm' + s)))
        add('Forearm' + s, (0, -L['yforearm' + s], 0), 'RzRxJoint',
            'Wrist' + s, 'Hand' + s, body('Hand' + s, k('yhand' + s)))
    add('UPT', (L['xvT10'], L['yvC7'], 0), 'RzRyRxJoint', 'Neck', 'Head',
        body('Head', k('yhead')))
    return res


def human_tags(L, h):
    out = {}
    for s, name, z in (('R', 'Right ', 1), ('L', 'Left ', -1)):
        foot = -L['yfoot' + s]
        out[name + 'foot toe tip'] = (
            'Foot' + s, [L['xfoot' + s] - L['xheel' + s] + 1e-4 * h, foot, 0])
        out[name + 'foot heel'] = ('Foot' + s, [-L['xheel' + s], foot, 0])
        out[name + 'foot phalange 5'] = (
            'Foot' + s, [.0662 * h, foot, z * .0305 * h])
        out[name + 'foot phalange 1'] = (
            'Foot' + s, [.0662 * h, foot, -z * .0305 * h])
        out[name + 'foot lateral malleolus'] = (
            'Shank' + s, [0, -L['ytibia' + s], z * .0249 * h])
        out['Left femoral lateral epicondyle' if s == 'L' else
            'Femoral lateral epicondyle'] = (
                'Thigh' + s, [0, -L['yfemur' + s], z * .0290 * h])
        out[name + 'great trochanter'] = (
            'Thigh' + s, [0, 0, z * (.0941 * h - L['zhip'] / 2.)])
        out[name + 'iliac crest'] = (
            'LPT', [.0271 * h, .0366 * h, z * .0697 * h])
        out[name + 'acromion'] = (
            'Scapula' + s, [-L['xshoulder' + s], .0198 * h +
                            L['yshoulder' + s], z * L['zshoulder' + s]])
        out[name + 'humeral lateral epicondyle (radiale)'] = (
            'Arm' + s, [0, -L['yhumerus' + s], z * .0211 * h])
        out[name + 'stylion'] = ('Forearm' + s, [0, -.1533 * h, z * .0331 * h])
        out[name + '3rd dactylion'] = ('Hand' + s, [0, -L['yhand' + s], 0])
    out['Substernale (Xyphoid)'] = ('UPT', [.1219 * h, 0, 0])
    out['Suprasternale'] = ('UPT', [
        (L['xsternoclavR'] + L['xsternoclavL']) / 2.,
        (L['ysternoclavR'] + L['ysternoclavL']) / 2., 0])
    out['Cervicale'] = ('UPT', [L['xvT10'], L['yvC7'], 0])
    out['Vertex'] = ('Head', [0, L['yhead'], 0])
    return out


def run_human(case, cov):
    from arboris.core import World
    from arboris.robots import human36
    h, m, e = case['h'], case['k'], EDITS[case['e']]
    prefix = ('', 'Bob ', "Casimodo's ")[case['e'] % 3]
    L = human36.anat_lengths_from_height(h)
    want = human_lengths(h)
    require(set(L) == set(want), 'lengths: %s' % sorted(set(L) ^ set(want)))
    for k in want:
        same('length ' + k, L[k], want[k], 1e-6)
    same('height', human36.height_from_anat_lengths(L), h, 1e-12)
    w = World()
    L0 = human36.anat_lengths_from_height(1.741)
    if e or case['e'] % 2:
        for k in e:
            if k == 'leg':
                # (exact sums)
                for part in ('yfoot', 'ytibia', 'yfemur'):
                    for side in 'RL':
                        L[part + side] = round(L[part + side] * 2**20) / 2**20
                L[e[k][0]] += 2. ** -7
                L[e[k][1]] -= 2. ** -7
            else:
                L[k] *= e[k]
        given = dict(L)
        human36.add_human36(w, height=9., mass=m, anat_lengths=L,
                            prefix=prefix)
        require(L == given, 'the lengths given are changed')
    else:
        human36.add_human36(w, h, m, prefix=prefix)
    hh = (L['yfootL'] + L['ytibiaL'] + L['yfemurL'] + L['yvT10'] + L['yvC7'] +
          L['yhead'])
    same('height', human36.height_from_anat_lengths(L), hh, 1e-12)
    links = human_links(L, m, prefix, L0)
    s = Spec(w, links)
    s.structure('human', 17)
    same('total mass', sum(b.mass[5, 5] for b in w.getbodies()), m, 1e-9)
    tags = human_tags(L, hh)
    f = w.getframes()
    for k in (None, 1, 6):
        md = s.check('human', k, cov)
        byname = {l['body']: i for i, l in enumerate(links)}
        for n, (b, x) in tags.items():
            t = f[prefix + n]
            require(t.body is s.bodies[byname[prefix + b]], 'body of ' + n)
            same('tag ' + n, t.pose, md['pose'][byname[prefix + b]].dot(T(*x)),
                 1e-9)
            cov.check()
        if k is None:
            same('the human stands on the ground',
                 f[prefix + 'Left foot heel'].pose[1, 3], 0., 1e-12)
            same('the human stands on the ground',
                 f[prefix + 'Right foot toe tip'].pose[1, 3], 0., 1e-12)
            same('top of the head', f[prefix + 'Vertex'].pose[1, 3], hh, 1e-12)
    sh = {x.name: x for x in w.getshapes()}
    require(set(sh) == {prefix + n for n in tags if ' foot ' in n and
                        'malleolus' not in n}, 'shapes %s' % sorted(sh))
    for n, x in sh.items():
        require(type(x).__name__ == 'Point' and x.frame is f[n], 'shape ' + n)
    if not e and h == 1.741:
        for n, x in GOLD['tags'].items():
            same('HuMAnS tag ' + n, f[prefix + n].bpose[:3, 3], x, 1e-6)
    for a, b in (('yfootR', 'yfootL'), ('ytibiaL', 'ytibiaR'),
                 ('yfemurR', 'yfemurL')):
        bad = dict(L)
        bad[a] *= 0.95
        for g in (lambda: human36.height_from_anat_lengths(bad),
                  lambda: human36.add_human36(World(), anat_lengths=bad)):
            try:
                g()
            except ValueError:
                cov.check()
            else:
                require(False, 'legs of different lengths accepted')
    cov.nontrivial = True


def run_humans(case, cov):
    """The configuration computed by HuMAnS."""
    from arboris.core import World
    from arboris.robots.human36 import add_human36
    from arboris.observers import CoMObserver
    w = World()
    add_human36(w)
    j = w.getjoints()
    j['Root'].gpos[1, 3] = 0.2
    j['HipR'].gpos[0] = -0.0402589
    j['KneeR'].gpos[0] = -0.8147779
    j['HipL'].gpos[0] = 0.2036690
    j['KneeL'].gpos[0] = -0.2575124
    w.update_dynamic()
    f = w.getframes()
    for n, x in GOLD['global_tags'].items():
        same('HuMAnS: position of ' + n, f[n].pose[:3, 3], x, 2e-6)
        cov.check()
    bodies = w.getbodies()
    com = sum(b.mass[5, 5] * b.pose.dot(np.append(parts(b.mass)[1], 1.))[:3]
              for b in bodies) / 73.
    same('HuMAnS: center of mass', com, GOLD['global_com'], 2e-6)
    # several humans
    add_human36(w, height=1.5, mass=40., prefix='kid ')
    require(len(w.getjoints()) == 34 and len(w.getshapes()) == 16, 'two humans')
    same('the first human is moved', w.getjoints()['KneeR'].gpos[0],
         -0.8147779)
    cov.step(2)
    cov.nontrivial = True


# ------------------------------------------------------------------ icub
def icub_world(**kw):
    from arboris.core import World
    from arboris.robots import icub
    w = World()
    icub.add(w, **kw)
    return w


def icub_links(w, fixed):
    """The tree of a world that has only the robot."""
    g = GOLD['icub']
    links, idx = [], {'waist': -1}
    if not fixed:
        links.append(dict(parent=-1, joint='FreeJoint', body='waist',
                          name='root', mass=parts(g['mass']['waist'])))
        idx['waist'] = 0
    chains = [['waist', ('torso_pitch', 'lap_belt_1'),
               ('torso_roll', 'lap_belt_2'), ('torso_yaw', 'chest')],
              ['chest', ('head_pitch', 'neck_1'), ('head_roll', 'neck_2'),
               ('head_yaw', 'head')]]
    for s in 'lr':
        chains.append(['chest'] + [(s + '_' + a, s + '_' + b) for a, b in (
            ('shoulder_pitch', 'shoulder_1'), ('shoulder_roll', 'shoulder_2'),
            ('shoulder_yaw', 'arm'), ('elbow_pitch', 'elbow_1'),
            ('elbow_yaw', 'forearm'), ('wrist_roll', 'wrist_1'),
            ('wrist_pitch', 'hand'))])
        chains.append(['waist'] + [(s + '_' + a, s + '_' + b) for a, b in (
            ('hip_pitch', 'hip_1'), ('hip_roll', 'hip_2'),
            ('hip_yaw', 'thigh'), ('knee', 'shank'),
            ('ankle_pitch', 'ankle_1'), ('ankle_roll', 'foot'))])
    for c in chains:
        p = c[0]
        for j, b in c[1:]:
            idx[b] = len(links)
            H = ref.hinv(np.array(g['pose'][p])).dot(np.array(g['pose'][b]))
            if p == 'waist' and fixed:
                H = np.array(g['pose'][b])
            links.append(dict(parent=idx[p], joint='RzJoint', F0=H, body=b,
                              name=j, mass=parts(g['mass'][b])))
            p = b
    return links


class IcubSpec(Spec):
    def __init__(self, w, links):
        Spec.__init__(self, w, links)
        # whatever the order in which the limbs were added
        js = w.getjoints()
        for i, l in enumerate(links):
            self.joints[i] = js[l['name']]
            self.bodies[i] = self.joints[i].frames[1].body
        self.read_config()


def run_icub(case, cov):
    from arboris.robots import icub
    g = GOLD['icub']
    kw = {}
    if case['f']:
        kw['is_fixed'] = True
    if not case['s']:
        kw['create_shapes'] = False
    if not case['c']:
        kw['create_contacts'] = False
    w = icub_world(**kw)
    links = icub_links(w, case['f'])
    s = IcubSpec(w, links)
    s.structure('iCub', len(links))
    perm = [s.joints[i].dof for i in s.tree.order]
    perm = np.concatenate([np.arange(d.start, d.stop) for d in perm])
    for k in (None, 1, 4, 9):
        if k is not None:
            s.set_config(k, (k + 1) % 7)
        s.read_config()
        w.update_dynamic()
        m = s.model()
        for i, l in enumerate(links):
            same('iCub: pose of ' + l['body'], s.bodies[i].pose, m['pose'][i],
                 1e-5)
            same('iCub: mass of ' + l['body'], s.bodies[i].mass,
                 s.body_mass(i), 1e-8)
        scale = abs(m['M']).max()
        same('iCub: mass matrix', w.mass[np.ix_(perm, perm)], m['M'], 1e-5,
             scale)
        cov.step()
        cov.check(len(links) + 1)
    lim = icub.get_joint_limits()
    deg = icub.get_joint_limits(in_radian=False)
    require(set(lim) == set(deg) == set(g['limits']) ==
            set(j.name for j in w.getjoints()) - {'root'}, 'joint limits')
    require(set(icub.get_torque_limits()) == set(lim), 'torque limits')
    for k in lim:
        same('limits of ' + k, np.array(deg[k], float), g['limits'][k])
        same('limits of ' + k, np.array(lim[k]), np.radians(g['limits'][k]))
        same('torque of ' + k, icub.get_torque_limits()[k], g['torque'][k])
    shapes = w.getshapes()
    n = 0
    byname = {b: w.ground if (b == 'waist' and case['f']) else
              w.getbodies()[b] for b in g['mass']}
    if case['s']:
        data = icub.get_bodies_data()
        for b, items in icub.get_bodies_shapes_data().items():
            mine = [x for x in shapes if x.name == b + '.body_shape']
            require(len(mine) == len(items), 'shapes of ' + b)
            n += len(mine)
            for (dims, H), x in zip(items, mine):
                require(x.frame.body is byname[b], 'body of the shapes of ' + b)
                same('place of the shapes of ' + b, x.frame.bpose, H)
                if len(dims) == 3:
                    same('box', np.array(x.half_extents), dims)
                elif len(dims) == 2:
                    same('cylinder', np.array([x.length, x.radius]), dims)
                else:
                    same('sphere', x.radius, dims[0])
        # the masses are those of the shapes
        for b, items in data.items():
            M = np.zeros((6, 6))
            for dims, m, H in items:
                if len(dims) == 3:
                    I = box(dims[0], dims[1], dims[2], m)
                elif len(dims) == 2:
                    l, r = dims
                    I = np.diag([m * (3 * r * r + l * l) / 12.] * 2 +
                                [m * r * r / 2.])
                else:
                    I = 0.4 * m * dims[0] ** 2 * np.eye(3)
                R = np.asarray(H)[:3, :3]
                M += ref.spatial_mass(m, np.asarray(H)[:3, 3],
                                      R.dot(I).dot(R.T))
            same('documented mass of ' + b, M, g['mass'][b], 1e-8)
            if byname[b] is not w.ground:
                same('mass of ' + b, byname[b].mass, M, 1e-8)
    if case['c']:
        for name, (b, dims, H) in g['contacts'].items():
            mine = [x for x in shapes if x.name == name]
            require(len(mine) == 1, 'contact shape ' + name)
            n += 1
            x = mine[0]
            require(x.frame is w.getframes()[name] and
                    x.frame.body is byname[b], 'frame ' + name)
            same('frame ' + name, x.frame.bpose, H, 1e-6)
            if dims:
                same('radius of ' + name, x.radius, dims[0])
            else:
                require(type(x).__name__ == 'Point', 'shape ' + name)
    require(len(shapes) == n, '%d shapes instead of %d' % (len(shapes), n))
    cov.nontrivial = True


def run_mirror(case, cov):
    """The left and right sides are mirror images."""
    w = icub_world(create_shapes=False)
    js = w.getjoints()
    S = np.diag([1., -1., 1.])
    for n, name in enumerate(case['j']):
        if name[:2] in ('l_', 'r_'):
            for k in ('l', 'r'):
                js[k + name[1:]].gpos[0] = 0.4 + 0.7 * n
                js[k + name[1:]].gvel[0] = 0.3 - n
        elif name in ('torso_pitch', 'head_pitch'):
            js[name].gpos[0] = -0.3
    w.update_dynamic()
    b = {x.name: x for x in w.getbodies()}
    for n in list(b):
        if n.startswith('l_'):
            r = b['r' + n[1:]]
            m, c, I = parts(b[n].mass)
            m2, c2, I2 = parts(r.mass)
            R, R2 = b[n].pose[:3, :3], r.pose[:3, :3]
            same('mirrored mass of ' + n, m, m2)
            same('mirrored position of ' + n, S.dot(b[n].pose[:3, 3]),
                 r.pose[:3, 3], 1e-9)
            same('mirrored center of mass of ' + n,
                 S.dot(b[n].pose.dot(np.append(c, 1))[:3]),
                 r.pose.dot(np.append(c2, 1))[:3], 1e-9)
            same('mirrored inertia of ' + n, S.dot(R.dot(I).dot(R.T)).dot(S),
                 R2.dot(I2).dot(R2.T), 1e-9, abs(I2).max())
            cov.check(4)
    f = w.getframes()
    for a, c in (('lh1', 'rh2'), ('lh2', 'rh1'), ('lh3', 'rh4'),
                 ('lh4', 'rh3'), ('l_hand_tip', 'r_hand_tip'),
                 ('l_hand_palm', 'r_hand_palm'), ('lf1', 'rf1'),
                 ('lf2', 'rf2'), ('lf3', 'rf3'), ('lf4', 'rf4'),
                 ('l_sole', 'r_sole')):
        same('mirrored position of ' + a, S.dot(f[a].pose[:3, 3]),
             f[c].pose[:3, 3], 1e-9)
    cov.step()
    cov.nontrivial = True


# ------------------------------------------------------------ two robots
ROBOTS = ['arm', 'snake', 'freesnake', 'human', 'icub', 'box']


def add_robot(w, n, tag):
    from arboris.robots import simplearm, snake, human36, icub, simpleshapes
    if n == 0:
        simplearm.add_simplearm(w, tag, with_shapes=True)
    elif n == 1:
        snake.add_snake(w, 3)
    elif n == 2:
        snake.add_snake(w, 2, is_fixed=False)
    elif n == 3:
        human36.add_human36(w, prefix=tag)
    elif n == 4:
        icub.add(w)
    else:
        simpleshapes.add_box(w, (1., 2., 3.), 2., tag)


def run_pair(case, cov):
    from arboris.core import World
    alone = []
    for n, r in enumerate(case['r']):
        w = World()
        add_robot(w, r, 'xy'[n])
        place(w.getjoints(), n)
        w.update_dynamic()
        alone.append(w)
    both = World()
    add_robot(both, case['r'][0], 'x')
    n0 = len(both.getjoints())
    place(both.getjoints(), 0)
    keep = [np.array(j.gpos, float) for j in both.getjoints()]
    add_robot(both, case['r'][1], 'y')
    js = both.getjoints()
    for j, q in zip(js[:n0], keep):
        same('adding a robot moves the first one', np.array(j.gpos, float), q)
    place(js[n0:], 1)
    both.update_dynamic()
    k = alone[0].ndof
    n = both.ndof
    require(n == k + alone[1].ndof, '%d degrees of freedom' % n)
    for what in ('mass', 'nleffects', 'viscosity'):
        M = np.zeros((n, n))
        M[:k, :k] = getattr(alone[0], what)
        M[k:, k:] = getattr(alone[1], what)
        same('%s of the two robots' % what, getattr(both, what), M, 1e-9)
    b = list(both.getbodies())[1:]
    want = list(alone[0].getbodies())[1:] + list(alone[1].getbodies())[1:]
    require(len(b) == len(want), 'bodies')
    for x, y in zip(b, want):
        same('pose of %s' % x.name, x.pose, y.pose, 1e-9)
        require(x.name == y.name, 'name of %s' % x.name)
    require(len(both.getshapes()) == sum(len(w.getshapes()) for w in alone),
            'shapes')
    cov.step()
    cov.check(3 + len(b))
    cov.nontrivial = True


def place(joints, n):
    for i, j in enumerate(joints):
        kind = type(j).__name__
        if kind == 'FreeJoint':
            j.gpos[:] = qvalue(kind, i + n, 1)
        else:
            j.gpos[:] = qvalue(kind, i + n, 0)
        j.gvel[:] = vvalue(kind, i, n)


def run_dh(case, cov):
    from arboris.robots.icub import T_DH
    vals = (0., 0.3, -1.2)
    t = ANG[case['t']]
    for d, r, a in itertools.product(vals, vals, ANG[:8]):
        want = ref.hom(ref.rotation_from((0, 0, 1), t), np.zeros(3)).dot(
            T(r, 0, d)).dot(ref.hom(ref.rotation_from((1, 0, 0), a),
                                    np.zeros(3)))
        same('DH', T_DH(d, t, r, a), want, 1e-12)
        cov.check()
    cov.step()
    cov.nontrivial = True
