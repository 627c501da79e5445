"""Collada files and viewers."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import types
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, FRAMES, MASSES, make_joint, qvalue
from mc import ref
from mc.spaces import kinematic_worlds
from mc.daefile import Scene
from mc.props import c24

META = dict(
    rule='every world of the list below is written by both drivers, flat or '
         'not, and the file read back by an independent reader: the poses of '
         'all the frames, what is drawn in them (place, size, color, kind), '
         'the inertias; then the world is moved, the values of the moving '
         'transforms (read from the logs of a simulation, from the animation '
         'file, or from the messages received by the viewer) are put in the '
         'scene, and the poses of all the frames and everything drawn are '
         'compared again, at each step. Every list of added meshes of the '
         'alphabet, every array of numbers of the alphabet in an animation; '
         'non-trivial: at least two bodies or a mesh added',
    bounds='1 body: every joint and pair of anchor frames; 2 bodies: every '
           'pair of joints; 3 bodies: every shape of tree; up to 8 bodies; 4 '
           'arrangements of frames and shapes, 3 of names; 3 kinds of logs; '
           'lists of 1 to 3 meshes out of 9 forms; 4 steps of simulation',
    assumptions=['pydaenim and the viewers are not available: the messages '
                 'are received by stand-ins', 'names of frames and shapes of '
                 'the world are distinct (except a shape named like the '
                 'frame it is on)', 'pycollada writes numbers in single '
                 'precision: tolerance 2e-6 relative to the size of the '
                 'scene'],
)
CHUNK = 4
TOL = 2e-6


def load():
    """The package with a stand-in for pydaenim."""
    if 'pydaenim' not in sys.modules:
        m = types.ModuleType('pydaenim')
        m.log = []

        class pydaenimWebSocket(object):
            def __init__(self, host, port, timeout):
                self.host, self.port, self.timeout = host, port, timeout
                self.messages = []
                self.listened = 0
                m.log.append(('socket', self))

            def listen(self):
                self.listened += 1

            def send_message(self, msg):
                self.messages.append(msg)

        def create_pydaenimViewer(*args, **kw):
            m.log.append(('viewer', args, kw))
        m.pydaenimWebSocket = pydaenimWebSocket
        m.create_pydaenimViewer = create_pydaenimViewer
        sys.modules['pydaenim'] = m
    import arboris.visu
    from arboris.visu import dae_writer, visu_collada
    return arboris.visu, dae_writer, visu_collada


# ----------------------------------------------------------------- worlds
def worlds(tier):
    """(links, moving anchors)"""
    for c in kinematic_worlds(tier):
        n = len(c['l'])
        if n > 8 or any(6 <= f <= 7 for l in c['l'] for f in l[2:4]):
            continue
        # (no point masses: they are not valid for massmatrix.principalframe)
        yield [l[:4] + [l[4].replace('p', 'b')] + l[5:] for l in c['l']], \
            bool(c['mv'])


def cases(tier):
    n = 0
    for links, mv in worlds('quick'):
        n += 1
        nb = len(links)
        if tier != 'thorough' and nb > 1 and n % 3:
            continue
        for flat in (0, 1):
            for drv in (0, 1):
                if tier != 'thorough' and nb != 2 and (n + flat + drv) % 2:
                    continue
                yield {'m': 'scene', 'l': links, 'mv': mv, 'f': flat, 'd': drv,
                       'o': (n // 3) % 4, 'k': n % 13, 'a': (n // 2) % 4,
                       's': (n // 5) % 4}
    n = 0
    for links, mv in worlds('quick'):
        if len(links) not in (1, 3):
            continue
        n += 1
        if n % (3 if tier == 'thorough' else 24):
            continue
        links = [l[:4] + [l[4].replace('z', 'a')] + l[5:] for l in links]
        for flat in (0, 1):
            for log in range(4):
                yield {'m': 'anim', 'l': links, 'mv': mv, 'f': flat, 'g': log,
                       'o': n // 24 % 4, 'k': n % 13, 'd': (n // 24 + log) % 2,
                       'a': n // 48 % 2}
            for com in (0, 1, 2):
                yield {'m': 'com', 'l': links, 'mv': mv, 'f': flat, 'c': com,
                       'o': n // 24 % 4, 'k': n % 13, 'a': n // 48 % 2}
    for a, b in itertools.product(range(len(NUMBERS)), repeat=2):
        yield {'m': 'numbers', 'a': a, 'b': b}
    for ln in (1, 2):
        for forms in itertools.product(range(9), repeat=ln):
            yield {'m': 'add', 'x': list(forms), 'f': sum(forms) % 2,
                   'd': (sum(forms) // 2) % 2, 'o': int(forms[0] % 3 == 0)}
    for forms in itertools.product((0, 3, 5, 6, 8) if tier != 'thorough'
                                   else range(9), repeat=3):
        yield {'m': 'add', 'x': list(forms), 'f': sum(forms) % 2,
               'd': (sum(forms) // 2) % 2, 'o': int(forms[0] % 3 == 0)}
    for f, d, k in itertools.product((0, 1), (0, 1), range(4)):
        yield {'m': 'file', 'f': f, 'd': d, 'k': k}
    for u, d in itertools.product(range(len(UPS)), (0, 1)):
        yield {'m': 'up', 'u': u, 'd': d}
    for f, d, e in itertools.product((0, 1), (0, 1), range(3)):
        yield {'m': 'dup', 'f': f, 'd': d, 'e': e}
    for v in range(8):
        yield {'m': 'view', 'v': v}
    for d in range(2):
        yield {'m': 'lines', 'd': d}
    for e in range(len(PROGRAMS)):
        yield {'m': 'program', 'e': e}


def run(case):
    cov = Cov()
    tmp = tempfile.mkdtemp(prefix='c29')
    old, old_dir = sys.stdout, tempfile.tempdir
    sys.stdout = open(os.devnull, 'w')
    tempfile.tempdir = tmp
    try:
        load()
        globals()['run_' + case['m']](case, cov, tmp)
    finally:
        tempfile.tempdir = old_dir
        sys.stdout.close()
        sys.stdout = old
        shutil.rmtree(tmp, ignore_errors=True)
    cov.traces = 1
    cov.state(case)
    return cov


def writer(drv):
    _, dw, vc = load()
    return (dw, vc)[drv].write_collada_scene


def make(case):
    """The world, along the model; names and colors are arranged."""
    s = Sim(case['l'], case['k'], 1, moving=case['mv'], names=case['a'] != 1)
    made = c24.dress(s, case['o'])
    w = s.world
    a = case['a']
    if a in (1, 2):
        moving = set(w.itermovingsubframes())
        used = set(j.frames[1] for j in w.getjoints())
        for n, f in enumerate(list(w.itersubframes())):
            if (n + a) % 2 and not (a == 2 and (f in moving or f in used)):
                f.name = None
    if a == 3:
        for x in made:
            if x.frame is not w.ground:
                x.name = x.frame.name
    return s, made


def poses(s):
    """Poses of all the frames of the world by the model."""
    w = s.world
    body = s.tree.fk(s.q)[0]
    index = {b: i for i, b in s.bodies.items()}
    res = {}
    for b, i in index.items():
        res[b] = body[i]
    for f in list(w.itersubframes()):
        res[f] = body[index[f.body]].dot(f.bpose)
    return res


def moved_values(s, flat):
    """What the viewers are told: name -> value."""
    w = s.world
    P = poses(s)
    res = {}
    if flat:
        for b in s.bodies.values():
            res[b.name] = P[b]
    else:
        for i, j in s.joints.items():
            f0, f1 = j.frames
            res[f1.name] = np.linalg.inv(P[f0]).dot(P[f1])
    for f in w.itermovingsubframes():
        res[f.name] = P[f] if flat else f.bpose.copy()
    return res


# --------------------------------------------------------------- comparison
OPTIONS = [(1, None), (2.5, None), (0.1, {'plane half extents': (3., 0.5)}),
           (1, {'point radius': 0.3, 'frame arrows length': 2.,
                'inertia factor': 0.7})]


def settings(k):
    scale, over = OPTIONS[k]
    o = {'frame arrows length': 0.08 * scale, 'point radius': 0.008 * scale,
         'plane half extents': (1. * scale, 1. * scale),
         'inertia factor': 5. * scale}
    o.update(over or {})
    return scale, over, o


def apply(H, pts):
    return pts.dot(H[:3, :3].T) + H[:3, 3]


def fits(x, P, pts, opt, tol):
    """Whether the points (in the world) are those of the shape."""
    from arboris import shapes
    loc = apply(np.linalg.inv(P), pts)
    if isinstance(x, shapes.Plane):
        n, d = np.array(x.coeffs[:3]), x.coeffs[3]
        if np.abs(loc.dot(n) - d).max() > tol or len(loc) != 4:
            return False
        c = loc.mean(axis=0)
        a, b = opt['plane half extents']
        r = np.linalg.norm(loc - c, axis=1)
        u = np.sort(np.linalg.norm(loc - loc[0], axis=1))
        want = np.sort([0., 2. * a, 2. * b, 2. * np.hypot(a, b)])
        return np.abs(c - d * n).max() < tol and \
            np.abs(r - np.hypot(a, b)).max() < tol and \
            np.abs(u - want).max() < 2 * tol
    lo, hi = loc.min(axis=0), loc.max(axis=0)
    if isinstance(x, shapes.Box):
        he = np.array(x.half_extents, float)
        return np.abs(lo + he).max() < tol and np.abs(hi - he).max() < tol \
            and len(loc) == 8 and np.abs(np.abs(loc) - he).max() < tol
    if isinstance(x, shapes.Cylinder):
        he = np.array([x.radius, x.radius, x.length / 2.])
        rad = np.hypot(loc[:, 0], loc[:, 1])
        return np.abs(lo + he).max() < tol and np.abs(hi - he).max() < tol \
            and rad.max() < x.radius + tol and rad.max() > x.radius - tol \
            and min((np.abs(rad - x.radius) > tol).sum(), 3) <= 2 \
            and np.abs(np.abs(loc[:, 2]) - x.length / 2.).max() < tol
    r = x.radius if isinstance(x, shapes.Sphere) else opt['point radius']
    d = np.linalg.norm(loc, axis=1)
    return np.abs(d - r).max() < tol and len(loc) > 8


def tolerance(P):
    return TOL * 8 * max([1.] + [np.abs(H[:3, 3]).max() for H in P.values()]
                         + [0.])


def check(sc, s, made, case, opt, colors, what, cov, extra=()):
    """The scene (walked) is the world in its current configuration."""
    from arboris.core import Body
    w = s.world
    P = poses(s)
    tol = tolerance(P)
    ids = dict(sc.nodes)
    for f, H in P.items():
        if f is w.ground:
            same(what + ': ground', ids['ground'], np.eye(4), TOL)
            continue
        if f.name is None:
            continue
        require(f.name in ids, what + ': no node for the frame %s (%s)' % (
            f.name, sorted(ids)))
        same(what + ': pose of the frame %s' % f.name, ids[f.name], H, tol)
        cov.check()
    geoms = {}

    def points(d):
        if d.geom not in geoms:
            geoms[d.geom] = sc.points(d.geom)
        return apply(d.H, geoms[d.geom])
    left = list(sc.drawn)

    def take(pred, msg):
        for k, d in enumerate(left):
            if pred(d):
                del left[k]
                return d
        require(False, what + ': ' + msg)
    daenim = case['d'] == 1
    # shapes of the world
    names = set(f.name for f in P)

    def owner(d):
        return ([n for n in d.path if n in names] or [None])[-1]
    for x in sorted(made, key=lambda x: x.frame.name is None):
        take(lambda d: (not daenim or 'shape' in d.marks) and
             (x.frame.name is None or x.frame.name == owner(d)) and
                 fits(x, P[x.frame], points(d), opt, tol) and
                 (colors is None or x.frame.body not in colors or
                  np.abs(np.array(d.color or (-1, 0, 0)) -
                         colors[x.frame.body]).max() < 1e-5),
                 'the shape %s %s is not drawn at its place, with its size '
                 'and color' % (type(x).__name__, x.name))
        cov.check()
    for pred, msg in extra:
        take(lambda d: pred(d, points(d), P, tol), msg)
        cov.check()
    if not daenim:
        require(not left, what + ': %d unknown things drawn: %s' % (
            len(left), [(d.geom, d.path) for d in left]))
        return
    # arrows, lines and inertias
    size = opt['frame arrows length']
    for f, H in P.items():
        if f is w.ground:
            continue
        take(lambda d: 'frame' in d.marks and
             np.abs(d.H[:3, 3] - H[:3, 3]).max() < tol and
             np.abs(d.H[:3, :3] - size * H[:3, :3]).max() < TOL * 20 * size,
             'no arrows for the frame %s' % f.name)
        cov.check()
    anchors = {j.frames[1]: j for j in w.getjoints()}
    moving = set(w.itermovingsubframes())
    for f, H in P.items():
        if isinstance(f, Body) or f in moving or \
                np.linalg.norm(f.bpose[:3, 3]) == 0:
            continue
        a, b = H[:3, 3], P[f.body][:3, 3]
        if np.linalg.norm(a - b) < 1e-9:
            continue

        def line(d):
            p = points(d)
            return 'link' in d.marks and len(p) == 2 and min(
                max(np.abs(p[0] - a).max(), np.abs(p[1] - b).max()),
                max(np.abs(p[1] - a).max(), np.abs(p[0] - b).max())) < tol
        take(line, 'no line from the body to the frame %s' % f.name)
        cov.check()
    for i, b in s.bodies.items():
        if i == -1 or case['l'][i][4] == 'z':
            continue
        m, c, Ic = MASSES[case['l'][i][4]]
        k = opt['inertia factor']
        R = P[b][:3, :3]
        want = R.dot(k * k * Ic.dot(Ic)).dot(R.T)
        center = P[b][:3, :3].dot(c) + P[b][:3, 3]
        take(lambda d: 'inertia' in d.marks and
             np.abs(d.H[:3, 3] - center).max() < tol and
             np.abs(d.H[:3, :3].dot(d.H[:3, :3].T) - want).max() <
             TOL * 20 * max(np.abs(want).max(), 1e-3),
             'no ellipsoid for the inertia of the body %s' % b.name)
        cov.check()
    require(not left, what + ': %d unknown things drawn: %s' % (
        len(left), [(d.geom, d.path, sorted(d.marks)) for d in left]))


def check_structure(sc, s, flat, what, cov):
    """Which node is in which."""
    w = s.world
    for b in s.bodies.values():
        if b is not w.ground and flat and b.name is not None:
            require(sc.above[b.name] == ('ground',), what + ': the node of the '
                    'body %s is in %s' % (b.name, sc.above[b.name]))
    if not flat:
        for j in w.getjoints():
            f0, f1 = j.frames
            if f0.name is not None:
                require(sc.above[f1.name][-1] == f0.name, what +
                        ': the node %s is in %s' % (f1.name,
                                                    sc.above[f1.name]))
    cov.check()


def check_inertias(sc, s, case, what, cov):
    want = {}
    nb = 0
    for i, b in s.bodies.items():
        if i == -1 or case['l'][i][4] == 'z':
            continue
        nb += 1
        if b.name is not None:
            want[b.name] = MASSES[case['l'][i][4]]
    got = sc.bodies()
    require(len(got) == nb, what + ': %d inertias instead of %d' % (
        len(got), nb))
    by = {g[0]: g for g in got}
    for name, (m, c, Ic) in want.items():
        require(name in by, what + ': no inertia for %s' % name)
        _, gm, gc, R, d = by[name]
        same(what + ': mass of ' + name, gm, m, 1e-9)
        same(what + ': center of ' + name, gc, np.array(c, float), 1e-7)
        same(what + ': inertia of ' + name, R.dot(np.diag(d)).dot(R.T), Ic,
             1e-6 * max(np.abs(Ic).max(), m * 1e-3))
        cov.check(3)


def snapshot(w):
    return ([j.gpos.copy() for j in w.getjoints()
             if j.ndof], w.gvel.copy(),
            [f.bpose.copy() for f in list(w.itersubframes())])


def palette(s, case):
    """Colors chosen by the user."""
    _, dw, _ = load()
    from arboris.visu.world_drawer import ColorGenerator
    if case['k'] % 2:
        return None, None
    m = {b: (0.25 + 0.5 * (n % 2), n / 16., 1. - n / 32.)
         for n, (i, b) in enumerate(sorted(s.bodies.items()))}
    return ColorGenerator(dict(m)), {b: np.array(c) for b, c in m.items()}


def run_scene(case, cov, tmp):
    s, made = make(case)
    w = s.world
    flat = bool(case['f'])
    # (the configuration is changed after the last update)
    s.set_config((case['k'] + 4) % 13, 1, case['k'] % 2)
    before = snapshot(w)
    scale, over, opt = settings(case['s'])
    gen, colors = palette(s, case)
    path = os.path.join(tmp, 'scene.dae')
    given = None if over is None else dict(over)
    writer(case['d'])(w, path, scale, given, flat, gen)
    what = 'scene %s (%s, %s)' % (case['l'], 'flat' if flat else 'not flat',
                                  ('dae_writer', 'visu_collada')[case['d']])
    require(given == over, what + ': the options are modified')
    for a, b in zip(snapshot(w), before):
        for x, y in zip(a, b):
            require(np.array_equal(x, y), what + ': the world is modified')
    sc = Scene(path).walk()
    require(sc.up == 'Y_UP', 'up axis %s' % sc.up)
    check(sc, s, made, case, opt, colors, what, cov)
    check_structure(sc, s, flat, what, cov)
    check_inertias(sc, s, case, what, cov)
    if colors is None:
        # the automatic colors of the bodies are not the same
        seen = {}
        for d in sc.drawn:
            if 'inertia' in d.marks:
                seen.setdefault(tuple(d.color), []).append(d.path)
        for c, l in seen.items():
            require(len(l) == 1, what + ': %d inertias have the same color' %
                    len(l))
    # other configurations: only the moving transforms are changed
    for k in (case['k'] + 1, case['k'] + 7):
        s.set_config(k % 13, 1, k % 2)
        for n, f in enumerate(w.itermovingsubframes()):
            f.bpose = FRAMES[(k + n) % 5 + 1]
        for i, j in s.joints.items():
            f0 = j.frames[0]
            if f0 in list(w.itermovingsubframes()):
                s.tree.links[i]['F0'] = f0.bpose.copy()
        sc.walk(moved_values(s, flat))
        check(sc, s, made, case, opt, colors, what + ' moved', cov)
        cov.step()
    cov.nontrivial = len(case['l']) > 1


# -------------------------------------------------------------- simulations
TIMELINE = [0., 0.0123, 0.03, 0.0456789, 0.06]


def damp(w):
    """(so that any mass, configuration and velocity goes)"""
    from mc.users import user_controller
    w.register(user_controller([np.zeros(w.ndof)], [-np.eye(w.ndof)]))
    w.init()
    for j in w.getjoints():
        if j.ndof:
            j.gvel[:] = 0.3
    for c in w.iterconstraints():
        c.disable()     # (limits far from the configuration)


class Recorder(object):
    """An observer: the configurations at the steps, as the model."""

    def __new__(cls, s, flat):
        from arboris.core import Observer

        class Rec(Observer):
            def __init__(self):
                Observer.__init__(self, 'recorder')
                self.times, self.conf = [], []

            def init(self, world, timeline):
                pass

            def update(self, dt):
                w = s.world
                anchors = [j.frames[0] for j in w.getjoints()]
                for n, f in enumerate(w.itermovingsubframes()):
                    if f in anchors:
                        # (the poses have been computed already)
                        continue
                    f.bpose = FRAMES[(len(self.times) + n) % 5 + 1]
                s.read_config()
                self.times.append(w.current_time)
                self.conf.append((dict(s.q), [
                    (f, f.bpose.copy()) for f in w.itermovingsubframes()]))

            def finish(self):
                pass
        return Rec()


def restore(s, conf):
    s.q = conf[0]
    for f, H in conf[1]:
        f.bpose = H
        for i, j in s.joints.items():
            if j.frames[0] is f:
                s.tree.links[i]['F0'] = H.copy()


def run_anim(case, cov, tmp):
    from arboris.core import simulate
    from arboris.observers import Hdf5Logger, PickleLogger
    visu, dw, vc = load()
    s, made = make(case)
    w = s.world
    flat = bool(case['f'])
    rec = Recorder(s, flat)
    damp(w)
    g = case['g']
    name = 'sim.' + ('h5', 'hdf5', 'pkl', 'data')[g]
    sim = os.path.join(tmp, name)
    scene, anim = [os.path.join(tmp, x) for x in ('scene.dae', 'anim.dae')]
    writer(case['d'])(w, scene, flat=flat)
    kw = {}
    if g == 0:
        log = Hdf5Logger(sim, mode='w', flat=flat)
    elif g == 1:
        log = Hdf5Logger(sim, group='a/b', mode='w', flat=flat,
                         save_state=True)
        kw['hdf5_group'] = 'a/b'
    else:
        log = PickleLogger(sim, flat=flat, save_model=True)
        if g == 3:
            kw['file_type'] = 'pickle'
    simulate(w, TIMELINE, [rec, log])
    if case['k'] % 3 == 0:
        kw['precision'] = 4
    prec = kw.get('precision', 8)
    f = (dw, vc)[case['d']].write_collada_animation
    f(anim, scene, sim, **kw)
    sc = Scene(anim)
    an = sc.animations()
    what = 'animation of %s from %s' % (case['l'], name)
    times = np.array(rec.times)
    want = set()
    names = None
    for k, conf in enumerate(rec.conf):
        restore(s, conf)
        vals = moved_values(s, flat)
        if names is None:
            names = set(vals)
            targets = {t.split('/')[0]: t for t in an}
            require(set(targets) - {'ground'} == names - {'ground'},
                    what + ': animated nodes %s instead of %s' % (
                        sorted(targets), sorted(names)))
        moved = {}
        for n in targets:
            require(targets[n] == n + '/matrix', what + ': target ' + targets[n])
            t, v = an[targets[n]]
            same(what + ': times', t, times, 10. ** -prec)
            same(what + ': value of %s at %g' % (n, t[k]), v[k],
                 vals.get(n, np.eye(4)), 0.51 * 10. ** -prec + 1e-9, 1.)
            moved[n] = v[k]
            cov.check(2)
        sc.walk(moved)
        if prec == 8:
            check(sc, s, made, case, settings(0)[2], None,
                  what + ' step %d' % k, cov)
        cov.step()
    cov.nontrivial = len(case['l']) > 1


def run_com(case, cov, tmp):
    """The viewers receive at each step what moves the scene."""
    from arboris.core import simulate
    visu, dw, vc = load()
    import pydaenim
    s, made = make(case)
    w = s.world
    flat = bool(case['f'])
    rec = Recorder(s, flat)
    damp(w)
    scene = os.path.join(tmp, 'scene.dae')
    case = dict(case, d=0 if case['c'] == 0 else 1)
    what = 'messages to the viewer, %s' % case['l']
    if case['c'] != 2:
        writer(case['d'])(w, scene, flat=flat)
    if case['c'] == 0:
        pydaenim.log[:] = []
        obs = visu.pydaenimCom(scene, flat=flat, port=5000)
        sock = pydaenim.log[0][1]
        simulate(w, TIMELINE, [rec, obs])
        require(sock.listened == 1, 'the socket does not listen')
        msgs = [json.loads(m) for m in sock.messages]
        for m, t in zip(msgs, rec.times):
            require(m[0] == 'update_transforms', 'message %s' % m[0])
            same(what + ': time', m[1], t, 1e-12)
        steps = [m[2] for m in msgs]
        wait_viewer(scene)
    else:
        out = os.path.join(tmp, 'received')
        viewer = fake_viewer(tmp, out)
        obs = vc.DaenimCom(scene if case['c'] == 1 else None, viewer,
                           host='127.8.%d.%d' % (os.getpid() % 200 + 1,
                                                 case['k'] + 20 * case['f'] + 1),
                           timeout=30, flat=flat, options='-a "b c"')
        simulate(w, TIMELINE, [rec, obs])
        end = time.time() + 20
        while not os.path.exists(out + '.done') and time.time() < end:
            time.sleep(0.005)
        require(os.path.exists(out + '.done'), what + ': no end of the viewer')
        args = json.load(open(out + '.args'))
        require(args[1:] == ['-socket', obs.host, str(obs.port), '-a', 'b c'],
                'arguments of the viewer: %s' % args)
        require(case['c'] == 2 or args[0] == scene,
                'the viewer is told to read %s' % args[0])
        scene = out + '.scene'
        text = open(out).read()
        tail = 'close_connection'
        require(text.endswith(tail), what + ': end %r' % text[-40:])
        lines = text[:-len(tail)].splitlines()
        n = len(moved_values(s, flat))
        require(len(lines) == n * len(rec.times), what + ': %d lines instead '
                'of %d' % (len(lines), n * len(rec.times)))
        steps = []
        for k in range(len(rec.times)):
            d = {}
            for l in lines[n * k:n * k + n]:
                words = l.split(' ')
                d[words[0]] = [float(x) for x in words[1:]]
            require(len(d) == n, what + ': %s' % sorted(d))
            steps.append(d)
    require(len(steps) == len(rec.times) == len(TIMELINE) - 1,
            what + ': %d messages' % len(steps))
    sc = Scene(scene)
    for k, conf in enumerate(rec.conf):
        restore(s, conf)
        vals = moved_values(s, flat)
        require(set(steps[k]) == set(vals), what + ': names %s instead of %s'
                % (sorted(steps[k]), sorted(vals)))
        moved = {}
        for n, v in steps[k].items():
            require(len(v) == 12, what + ': %d numbers for %s' % (len(v), n))
            moved[n] = np.vstack([np.array(v).reshape(3, 4), [0, 0, 0, 1.]])
            same(what + ': %s at step %d' % (n, k), moved[n], vals[n], 1e-9)
            cov.check()
        sc.walk(moved)
        check(sc, s, made, case, settings(0)[2], None, what + ' step %d' % k,
              cov)
        cov.step()
    cov.nontrivial = len(case['l']) > 1


def wait_viewer(scene):
    import pydaenim
    end = time.time() + 20
    while time.time() < end:
        for e in pydaenim.log:
            if e[0] == 'viewer':
                require(e[1][0] == scene, 'the viewer shows %s' % (e[1],))
                require(e[2]['port'] == 5000, 'port of the viewer')
                return
        time.sleep(0.01)
    require(False, 'the viewer is not started')


def fake_viewer(tmp, out):
    """A program in place of the viewer."""
    path = os.path.join(tmp, 'viewer')
    with open(path, 'w') as f:
        f.write('''#!%s -ISE
import sys, json, shutil, socket, os
out = %r
json.dump(sys.argv[1:], open(out + '.args', 'w'))
shutil.copy(sys.argv[1], out + '.scene')
if '-socket' in sys.argv:
    k = sys.argv.index('-socket')
    s = socket.create_connection((sys.argv[k + 1], int(sys.argv[k + 2])), 30)
    with open(out, 'wb') as f:
        last = b''
        while not last.endswith(b'close_connection'):
            d = s.recv(65536)
            if not d:
                break
            f.write(d)
            last = last[-20:] + d
open(out + '.done', 'w').close()
''' % (os.path.realpath(sys.executable), out))
    os.chmod(path, 0o755)
    return path


# ------------------------------------------------------------------ numbers
NUMBERS = [
    [0., -0., 1., -1.], [10., 100., 0.5, 20.05], [1e-3, -1e-5, 3e-8, 2e-10],
    [1e5, -123456.75, 1e7, 8e9], [0.1234567891, -9.87654321, 2. / 3, -0.05],
    [np.float32(0.25), 3, -7, np.int64(12)], [1.0000001, 99.999999999, 0.0099,
                                              -5.00],
    [1000.0, 1e2, 5.0e1, 10.01],
]


def run_numbers(case, cov, tmp):
    """Any values and times."""
    visu, dw, vc = load()
    from arboris.core import World, Body
    w = World()
    for i in range(2):
        w.add_link(w.ground, make_joint('TxJoint'), Body('n%d' % i))
    w.init()
    scene, anim = [os.path.join(tmp, x) for x in ('scene.dae', 'anim.dae')]
    dw.write_collada_scene(w, scene)
    a, b = NUMBERS[case['a']], NUMBERS[case['b']]
    nt = 1 + (case['a'] + case['b']) % 4
    times = np.cumsum(np.abs(np.array(a[:nt], float)))
    tr = {}
    for n in range(2):
        tr['n%d' % n] = np.array([[b[(i + k + n) % 4] if i < 12 else i == 15
                                   for i in range(16)] for k in range(nt)],
                                 float).reshape(nt, 4, 4)
    for prec in (8, 3, 12, 0, 1, 15):
        kept = {k: v.copy() for k, v in tr.items()}
        dw.write_collada_animation_from_transforms(
            anim, scene, times, tr, precision=prec)
        an = Scene(anim).animations()
        require(set(an) == {'n0/matrix', 'n1/matrix'}, 'targets %s' %
                sorted(an))
        for k in tr:
            require(np.array_equal(tr[k], kept[k]), 'transforms modified')
            t, v = an[k + '/matrix']
            eps = 0.5000001 * 10. ** -prec
            require(t.shape == times.shape and (np.abs(t - times) <= eps +
                    1e-12 * np.abs(times)).all(),
                    'times %s instead of %s' % (t, times))
            require(v.shape == tr[k].shape and (np.abs(v - tr[k]) <= eps +
                    1e-12 * np.abs(tr[k])).all(),
                    'values %s instead of %s' % (v.ravel(), tr[k].ravel()))
            cov.check(2)
        # an animation of a file that has one already
        dw.write_collada_animation_from_transforms(
            anim, scene, times, {'n0': tr['n0']}, prec)
        require(set(Scene(anim).animations()) == {'n0/matrix'}, 'one animation')
        cov.step()


# ------------------------------------------------------------------- meshes
LINKS = [[-1, 'RzJoint', 1, 0, 'b', 'z'], [0, 'RxJoint', 3, 2, 'a', 'z']]
HS = ref.hom(ref.rotation_from((1, 2, 0), 0.7), [0.5, -2., 3.])


def mesh_file(tmp, other=False):
    """A file of meshes: the vertices of the nodes are known.

    The other file has other meshes under the same names, with another color,
    and its meshes are in instances of nodes of the library.
    """
    path = os.path.join(tmp, 'other.dae' if other else 'meshes.dae')
    if not os.path.exists(path):
        import collada
        d = collada.Collada()
        nodes = []
        # (the scenes have an effect and a material of these names too)
        eff = collada.material.Effect('effect_0', [], 'phong',
                                      diffuse=COLORS[bool(other)])
        mat = collada.material.Material('material_0', 'mat', eff)
        d.effects.append(eff)
        d.materials.append(mat)
        for name, (pts, H) in MESHES.items():
            pts = np.array(pts, float) + 0.5 * bool(other)
            src = collada.source.FloatSource(name + '-pos', np.array(
                pts, float).ravel(), ('X', 'Y', 'Z'))
            geom = collada.geometry.Geometry(d, 'g_' + name, name, [src])
            il = collada.source.InputList()
            il.addInput(0, 'VERTEX', '#%s-pos' % name)
            geom.primitives.append(geom.createTriangleSet(
                np.arange(len(pts)), il, 'matref'))
            d.geometries.append(geom)
            child = collada.scene.GeometryNode(
                geom, [collada.scene.MaterialNode('matref', mat, inputs=[])])
            if other:
                node = collada.scene.Node('lib_' + name, children=[child])
                d.nodes.append(node)
                child = collada.scene.NodeNode(node)
            n = collada.scene.Node(name, children=[child])
            n.transforms.append(collada.scene.MatrixTransform(H.ravel()))
            nodes.append(n)
        sc = collada.scene.Scene('s', nodes)
        d.scenes.append(sc)
        d.scene = sc
        d.write(path)
    return path


MESHES = {
    'tri': ([(0, 0, 0), (1, 0, 0), (0, 2, 0)], np.eye(4)),
    'moved': ([(0, 0, 1), (1, 0, 1), (0, 3, 1)],
              ref.hom(ref.rotation_from((0, 1, 1), 0.5), [0.25, 0.5, 1.])),
}


COLORS = [(1, 0, 0.5), (0, 0.25, 0.75)]


def run_add(case, cov, tmp):
    """Meshes added to the frames of a scene."""
    visu, dw, vc = load()
    c = dict(l=LINKS, mv=False, k=3, a=0, o=1, f=case['f'], d=case['d'])
    s, made = make(c)
    w = s.world
    flat = bool(case['f'])
    scene = os.path.join(tmp, 'scene.dae')
    out = scene if case['o'] else os.path.join(tmp, 'out.dae')
    writer(case['d'])(w, scene, flat=flat)
    path = mesh_file(tmp)
    other = mesh_file(tmp, True)
    frames = {f.name: f for f in s.world.getframes()}
    b1, f1 = 'b1', s.frames[-1][0].name
    forms = [
        # given, then (frame, node or None for all, transform, scale)
        ([b1, path], (b1, None, None, 1.)),
        (('b0', path + '#tri'), ('b0', 'tri', None, 1.)),
        ([b1, path + '#moved', HS], (b1, 'moved', HS, 1.)),
        ([f1, path + '#moved', HS, 2.], (f1, 'moved', HS, 2.)),
        (['b0', path + '#tri', np.eye(4), (1., 2., 0.5)],
         ('b0', 'tri', None, (1., 2., 0.5))),
        ({'frame': 'b0', 'mesh': other + '#moved', 'scale': 3},
         ('b0', 'moved', None, 3.)),
        ({'frame': b1, 'mesh': other, 'transform': HS, 'scale': [2., 1., 3.],
          'shape': 'mesh'}, (b1, None, HS, (2., 1., 3.))),
        (['nobody', path + '#tri'], None),
        ([b1, path + '#nothing'], None),
    ]
    given = [forms[k][0] for k in case['x']]
    kept = [repr(g) for g in given]
    if case['o'] and len(given) == 2:
        # (in two times)
        dw.add_shapes_to_dae(scene, given[:1])
        dw.add_shapes_to_dae(scene, given[1:])
    else:
        dw.add_shapes_to_dae(scene, given, None if case['o'] else out)
    require([repr(g) for g in given] == kept, 'the list is modified')
    extra = []
    for k in case['x']:
        if forms[k][1] is None:
            continue
        frame, node, H, sc = forms[k][1]
        H = np.eye(4) if H is None else H
        S = np.diag(list(np.ones(3) * sc) + [1.])
        for n in ([node] if node else sorted(MESHES)):
            pts, own = MESHES[n]
            pts = np.array(pts, float) + 0.5 * (k in (5, 6))

            def pred(d, p, P, tol, frame=frame, pts=pts,
                     M=H.dot(S).dot(own), color=COLORS[k in (5, 6)]):
                want = apply(P[frames[frame]].dot(M), np.array(pts, float))
                return d.color is not None and \
                    np.abs(np.array(d.color) - color).max() < 1e-5 \
                    and len(want) == len(p) and all(
                        np.abs(p - q).max(axis=1).min() < tol for q in want)
            extra.append((pred, 'the mesh %s (form %d of %s) is not drawn at '
                          'its place in %s' % (n, k, case['x'], frame)))
    for step in range(2):
        sc = Scene(out)
        if step:
            s.set_config(7, 1, 0)
            sc.walk(moved_values(s, flat))
        else:
            sc.walk()
        check(sc, s, made, c, settings(0)[2], None,
              'meshes %s added' % case['x'], cov, extra)
        cov.step()
    cov.nontrivial = True


def run_file(case, cov, tmp):
    """All the nodes of a file are added to the frames of the same names."""
    visu, dw, vc = load()
    c = dict(l=LINKS, mv=False, k=5, a=0, o=1, f=case['f'], d=case['d'])
    s, made = make(c)
    flat = bool(case['f'])
    names = [['b0'], ['b1', 'b0'], [], ['b1', 'nobody']][case['k']]
    scene = os.path.join(tmp, 'scene.dae')
    writer(case['d'])(s.world, scene, flat=flat)
    old = dict(MESHES)
    MESHES.clear()
    try:
        for n, name in enumerate(names or ['other']):
            MESHES[name] = old[('moved', 'tri')[n]]
        path = mesh_file(tmp)
        mine = dict(MESHES)
    finally:
        MESHES.clear()
        MESHES.update(old)
    out = os.path.join(tmp, 'out.dae')
    dw.add_shapes_to_dae(scene, path, out)
    extra = []
    frames = {f.name: f for f in s.world.getframes()}
    for n in names:
        if n not in frames:
            continue
        pts, own = mine[n]

        def pred(d, p, P, tol, n=n, pts=pts, own=own):
            want = apply(P[frames[n]].dot(own), np.array(pts, float))
            return d.color is not None and len(p) == len(want) and all(
                np.abs(p - q).max(axis=1).min() < tol for q in want)
        extra.append((pred, 'the mesh of the frame %s is not drawn' % n))
    for step in range(2):
        sc = Scene(out)
        if step:
            s.set_config(8, 1, 0)
            sc.walk(moved_values(s, flat))
        else:
            sc.walk()
        check(sc, s, made, c, settings(0)[2], None, 'file of meshes %s' %
              names, cov, extra)
        cov.step()
    cov.nontrivial = True


# -------------------------------------------------------------------- others
UPS = [((1., 0., 0.), 'X_UP'), ((0., 1., 0.), 'Y_UP'), ((0., 0., 1.), 'Z_UP'),
       ((0., 0., -1.), None), ((0.6, 0.8, 0.), None)]


def driver(drv, path, *args):
    _, dw, vc = load()
    return (dw.pydaenimColladaDriver, vc.DaenimColladaDriver)[drv](path, *args)


def run_up(case, cov, tmp):
    import warnings
    up, want = UPS[case['u']]
    path = os.path.join(tmp, 'up.dae')
    d = driver(case['d'], path)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        d.init()
        d.add_ground(np.array(up))
    d.finish()
    sc = Scene(path).walk()
    require(sc.up == (want or 'Y_UP'), 'up axis %s for %s' % (sc.up, up))
    require((len(got) > 0) == (want is None), 'warnings: %s' % got)
    same('ground', sc.nodes['ground'], np.eye(4))
    cov.check(2)
    cov.step()


def run_dup(case, cov, tmp):
    """Two moving frames with the same name are refused."""
    from arboris.core import World, Body, SubFrame, MovingSubFrame, \
        DuplicateNameError
    w = World()
    e = case['e']
    b = [Body('x'), Body('x' if e == 0 else 'y')]
    for i in range(2):
        w.add_link(w.ground if i == 0 else b[0], make_joint('RxJoint'), b[i])
    if e == 1:
        w.register(MovingSubFrame(b[0], FRAMES[1].copy(), 'm'))
        w.register(MovingSubFrame(b[1], FRAMES[2].copy(), 'm'))
    w.init()
    path = os.path.join(tmp, 'd.dae')
    try:
        writer(case['d'])(w, path, flat=bool(case['f']))
        require(e == 2, 'two moving frames with the same name are accepted')
        sc = Scene(path).walk()
        require({'x', 'y'} <= set(sc.nodes), 'nodes')
    except DuplicateNameError:
        require(e != 2, 'refused with distinct names')
    cov.check()
    cov.step()


def run_lines(case, cov, tmp):
    """The pieces of the drivers, one by one."""
    pts = [(0., 0., 0.), (1., 0., 0.), (0.3, -0.4, 0.5), (0., 0., -2.),
           (-3., 0.2, 0.), (0., -1., 0.)]
    path = os.path.join(tmp, 'l.dae')
    d = driver(case['d'], path)
    g = d.add_ground(np.array([0., 1., 0.]))
    want = []
    if case['d']:
        for a, b in itertools.permutations(pts, 2):
            d.add_child(g, d.create_line(a, np.array(b), (0., 0., 1.)), 'link')
            want.append((np.array(a), np.array(b)))
    for p in itertools.product((0., 0.6, -0.8, 1.), (0., -0.6, 0.8),
                               (0., 1.), (0., -0.7, 3.)):
        n = np.array(p[:3])
        if abs(np.linalg.norm(n) - 1.) > 1e-9:
            continue
        d.add_child(g, d.create_plane(np.array(p), (0., 1., 0.), 'plane'),
                    'shape')
        want.append(np.array(p))
    d.finish()
    sc = Scene(path).walk()
    require(len(sc.drawn) == len(want), '%d drawn' % len(sc.drawn))
    for x, t in zip(sc.drawn, want):
        p = apply(x.H, sc.points(x.geom))
        if isinstance(t, tuple):
            e = min(max(np.abs(p[i] - t[0]).max(), np.abs(p[1 - i] - t[1]).max())
                    for i in (0, 1))
            require(e < 1e-5, 'line from %s to %s drawn from %s to %s' % (
                t + (p[0], p[1])))
        else:
            require(np.abs(p.dot(t[:3]) - t[3]).max() < 1e-5 and
                    np.abs(p.mean(axis=0) - t[3] * t[:3]).max() < 1e-5 and
                    abs(np.linalg.norm(p[0] - p[-1]) - 8 ** .5) < 1e-5,
                    'plane %s drawn at %s' % (t, p))
        cov.check()
    cov.step(len(want))
    # the same name several times
    d = driver(case['d'], path)
    g = d.add_ground(np.array([0., 1., 0.]))
    for k in range(12):
        d.add_child(g, d.create_transform(np.eye(4), False, 'n'))
    d.finish()
    sc = Scene(path).walk()
    require(len(sc.nodes) == 13 and 'n' in sc.nodes, 'nodes %s' %
            sorted(sc.nodes))


def run_view(case, cov, tmp):
    """The functions that show a scene with the viewer."""
    from arboris.core import simulate
    from arboris.observers import Hdf5Logger
    visu, dw, vc = load()
    import pydaenim
    v = case['v']
    c = dict(l=LINKS, mv=True, k=v, a=0, o=1, f=0, d=1 if v >= 2 else 0)
    s, made = make(c)
    w = s.world
    scene = os.path.join(tmp, 'scene.dae')
    pydaenim.log[:] = []
    out = os.path.join(tmp, 'seen')
    prog = fake_viewer(tmp, out)
    if v in (0, 1):
        if v == 0:
            visu.view(w, host='h')
        else:
            dw.write_collada_scene(w, scene)
            visu.view(scene, host='h')
        (kind, args, kw), = pydaenim.log
        require(kw.get('host') == 'h', 'arguments of the viewer')
        require(v == 0 or args[0] == scene, 'the viewer shows %s' % (args,))
        sc = Scene(args[0]).walk()
        check(sc, s, made, c, settings(0)[2], None, 'view', cov)
    elif v in (2, 3):
        if v == 2:
            vc.view(w, daenim_path=prog)
        else:
            vc.write_collada_scene(w, scene)
            vc.view(scene, daenim_path=prog)
        sc = Scene(out + '.scene').walk()
        check(sc, s, made, c, settings(0)[2], None, 'view', cov)
    else:
        vc.write_collada_scene(w, scene)
        rec = Recorder(s, False)
        damp(w)
        sim = os.path.join(tmp, 'sim.h5')
        kw = {} if v in (4, 5) else {'group': 'g'}
        simulate(w, TIMELINE, [rec, Hdf5Logger(sim, mode='w', **kw)])
        args = (scene, sim) + (('g',) if kw else ())
        vc.view(*args, daenim_path=prog)
        sc = Scene(out + '.scene')
        an = sc.animations()
        for k, conf in enumerate(rec.conf):
            restore(s, conf)
            sc.walk({t.split('/')[0]: x[1][k] for t, x in an.items()})
            check(sc, s, made, c, settings(0)[2], None, 'view of a simulation',
                  cov)
            cov.step()
    if v >= 2:
        a = json.load(open(out + '.args'))
        require(len(a) == 1, 'arguments of the viewer: %s' % a)
        require(v == 3 or not os.path.exists(a[0]) or a[0] == scene,
                'temporary file left')
    cov.step()
    cov.nontrivial = True


STUB = """
class pydaenimWebSocket(object):
    host, port = '127.0.0.1', 5000
    def __init__(self, *args, **kw): pass
    def listen(self): pass
    def send_message(self, msg): pass
def create_pydaenimViewer(*args, **kw): pass
"""
# the program, the steps of its simulation, (animation, scene)
PROGRAMS = [
    ('add_shapes_separately.py', 1000, [('anim.dae', 'scene.dae')]),
    ('00_some_mecanics.py', 0, []),
    ('01_arboris_structure.py', 0, []),
    ('add_shapes_to_robot.py', 200, [('anim.dae', 'scene.dae')]),
    ('sim_minimal.py', 200, [('anim_h5.dae', 'scene.dae'),
                             ('anim_pkl.dae', 'scene.dae'),
                             ('anim_daenim_h5.dae', 'scene_daenim.dae'),
                             ('anim_daenim_pkl.dae', 'scene_daenim.dae')]),
]


def run_program(case, cov, tmp):
    """The example programs, in a directory of their own."""
    import arboris
    repo = os.path.dirname(os.path.dirname(os.path.abspath(arboris.__file__)))
    name, steps, files = PROGRAMS[case['e']]
    where = os.path.join(tmp, 'examples')
    shutil.copytree(os.path.join(repo, 'examples'), where)
    # (two of them have a print statement of Python 2)
    path = os.path.join(where, name)
    with open(path, encoding='utf8') as f:
        text = f.read()
    with open(path, 'w', encoding='utf8') as f:
        f.write(re.sub(r'(?m)^print ([^(].*)$', r'print(\1)', text))
    os.mkdir(os.path.join(tmp, 'stub'))
    with open(os.path.join(tmp, 'stub', 'pydaenim.py'), 'w') as f:
        f.write(STUB)
    env = dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
               HOME=tmp,
               PYTHONPATH=os.pathsep.join([repo, os.path.join(tmp, 'stub')]))
    p = subprocess.run([sys.executable, '-W', 'ignore', name], cwd=where,
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=400)
    require(p.returncode == 0, 'example %s: %s' % (
        name, p.stdout.decode('utf8', 'replace')[-300:]))
    cov.check(1)
    cov.step()
    for anim, scene in files:
        a = Scene(os.path.join(where, anim)).animations()
        s = Scene(os.path.join(where, scene))
        ids = set(s.ids)
        targets = set(k.split('/')[0] for k in a)
        require(targets and targets <= ids, 'example %s: %s moves %s' % (
            name, anim, sorted(targets - ids)))
        for k, (times, values) in a.items():
            require(len(times) == len(values) == steps - 1 and
                    np.all(np.diff(times) > 0), 'example %s: %d times of %s' % (
                        name, len(times), k))
            cov.check(1)
        cov.step()
    cov.nontrivial = bool(files)
