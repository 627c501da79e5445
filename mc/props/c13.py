"""Distance and contact frames between shapes."""
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref
from mc.props.c10 import rotations

META = dict(
    rule='for each pair of kinds of shapes, in both orders, every size, every '
         'pose of the first shape and every relative place of the second one '
         '(regions of the box: inside near each face, on faces, edges, '
         'corners, outside each of the 26 zones; near, touching, penetrating '
         'and far spheres) a world is placed by its joints and the answer of '
         'the chosen solver is compared with the closest points found '
         'independently; non-trivial: the normal is unique',
    bounds='6 to 40 poses x 125 to 343 relative places x 4 to 6 sizes per '
           'pair of shapes, scenes of 1e-4 to 1e3 times this size; shapes on bodies, subframes and the ground',
)
CHUNK = 10

PAIRS = [('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Plane', 'Sphere'),
         ('Plane', 'Point'), ('Box', 'Sphere'), ('Box', 'Point')]
RADII = [0.1, 1., 0.25, 3.]
BOXES = [(1., 1., 1.), (0.5, 1., 2.), (3., 0.1, 0.7), (0.2, 0.2, 1.)]
PLANES = [(0, 1, 0, 0), (0, 0, 1, 0.5), (1, 0, 0, -2.), (1, 2, 2, 3.),
          (0, -3, 0, 1.5), (-0.6, 0, 0.8, 0.2), (1, 1, 1, -1)]
TRANS = [(0, 0, 0), (1, 2, 3), (-0.5, 0, 10.)]


def frames():
    R = rotations()
    return [ref.hom(R[i], TRANS[i % 3]) for i in range(len(R))]


def cases(tier):
    n = len(frames())
    step = 1 if tier == 'thorough' else 4
    for p in range(len(PAIRS)):
        for f in list(range(0, n, step)) + ([25, 30] if step > 1 else []):
            for size in range(7 if PAIRS[p][0] == 'Plane' else 4):
                for how in range(3):
                    if how and tier != 'thorough' and (f + size) % 3 != how:
                        continue
                    yield {'p': p, 'f': f, 's': size, 'how': how}
    # scenes of any size
    for p in range(len(PAIRS)):
        for u in (1e-4, 1e-2, 1e3):
            for f in range(0, n, 1 if tier == 'thorough' else 7):
                for size in range(7 if PAIRS[p][0] == 'Plane' else 4):
                    if tier == 'thorough' or (f // 7 + size) % 2:
                        yield {'p': p, 'f': f, 's': size, 'how': (f + size) % 3,
                               'u': u}
    yield {'p': -1}


def places(kind, size):
    """Centers of the second shape, in the frame of the first one."""
    if kind == 'Box':
        h = BOXES[size]
        lev = []
        for d in h:
            lev.append([0., 0.3 * d, -0.8 * d, 0.999 * d, -d, d + 1e-6,
                        d + 0.05, -d - 0.3, d + 4.])
        return list(itertools.product(*lev))
    if kind == 'Plane':
        g = [0., 0.4, -0.7, 3., -20.]
        return list(itertools.product(g, g, g))
    r = RADII[size]
    g = [0., 0.3 * r, -r, 1.5 * r, -1.001 * r, 4. * r, 1e-3 * r]
    return [p for p in itertools.product(g, g, g) if any(p)]


def zoom(H, u):
    H = H.copy()
    H[:3, 3] *= u
    return H


def place_world(how, H, kind0, kind1, size, u=1.):
    """Two shapes whose poses are H and (later) anything."""
    from arboris.core import World, Body, SubFrame, MovingSubFrame
    from arboris.joints import FreeJoint, TxTyTzJoint
    from arboris import shapes
    w = World()
    b1 = Body('b1', mass=np.eye(6))
    F = zoom(ref.hom(ref.rotation_from((1, 1, 0), 0.7), (0.1, -0.4, 0.2)), u)
    H = zoom(H, u)
    if how == 0:
        b0 = Body('b0', mass=np.eye(6))
        w.add_link(w.ground, FreeJoint(gpos=H), b0)
        f0 = b0
    elif how == 1:
        f0 = SubFrame(w.ground, H)
    else:
        b0 = Body('b0', mass=np.eye(6))
        w.add_link(w.ground, FreeJoint(gpos=H.dot(ref.hinv(F))), b0)
        f0 = MovingSubFrame(b0, F)
    if how == 2:
        j1 = FreeJoint()
        w.add_link(w.ground, j1, b1)
        f1 = SubFrame(b1, F)
    else:
        j1 = TxTyTzJoint() if how == 1 else FreeJoint()
        w.add_link(w.ground, j1, b1)
        f1 = b1

    def move(p):
        p = u * np.asarray(p, float)
        if how == 1:
            j1.gpos[:] = p
        else:
            T = ref.hom(ref.rotation_from((0, 1, 0.2), 1.1), p)
            j1.gpos[:] = T.dot(ref.hinv(F)) if how == 2 else T
        w.update_geometric()

    def shape(kind, f, n):
        # (without an argument when it is the default value)
        if u != 1.:
            if kind == 'Sphere':
                return shapes.Sphere(f, u * RADII[size if n == 0 else
                                                  (size + 1) % 4])
            if kind == 'Box':
                return shapes.Box(f, [u * h for h in BOXES[size]])
            if kind == 'Plane':
                # (n.p = d, for a normal of any length)
                c = PLANES[size]
                return shapes.Plane(f, (c[0], c[1], c[2], u * c[3]))
        if kind == 'Sphere':
            r = RADII[size if n == 0 else (size + 1) % 4]
            return shapes.Sphere(f) if r == 1. else shapes.Sphere(f, r)
        if kind == 'Box':
            return shapes.Box(f, BOXES[size]) if size else shapes.Box(f)
        if kind == 'Plane':
            return shapes.Plane(f, PLANES[size]) if size else shapes.Plane(f)
        return shapes.Point(f)
    s0, s1 = shape(kind0, f0, 0), shape(kind1, f1, 1)
    w.register(s0)
    w.register(s1)
    w.init()
    return w, s0, s1, move


def closest_on_box(h, p):
    """signed distance, closest point of the surface, normal, unique?"""
    h = np.array(h)
    q = np.clip(p, -h, h)
    d = p - q
    n = np.sqrt(d.dot(d))
    if n > 0:
        return n, q, d / n, n > 1e-8
    gaps = np.concatenate((h - p, h + p))
    k = int(np.argmin(gaps))
    order = np.sort(gaps)
    q = p.copy()
    q[k % 3] = h[k % 3] if k < 3 else -h[k % 3]
    normal = np.zeros(3)
    normal[k % 3] = 1. if k < 3 else -1.
    return -gaps[k], q, normal, order[1] - order[0] > 1e-7


def on_surface(kind, size, q, n=0):
    """Distance from q (in the frame of the shape) to its surface."""
    if kind == 'Sphere':
        return abs(np.sqrt(q.dot(q)) - RADII[size if n == 0 else (size + 1) % 4])
    if kind == 'Point':
        return np.sqrt(q.dot(q))
    if kind == 'Plane':
        c = np.array(PLANES[size], float)
        c = c / np.sqrt(c[:3].dot(c[:3]))
        return abs(c[:3].dot(q) - c[3])
    h = np.array(BOXES[size])
    if (np.abs(q) > h + 1e-9).any():
        return 1.
    return np.min(np.abs(np.abs(q) - h))


def run(case):
    if case['p'] < 0:
        return run_refused(case)
    from arboris.collisions import choose_solver
    cov = Cov()
    k0, k1 = PAIRS[case['p']]
    size = case['s']
    H = frames()[case['f']]
    u = case.get('u', 1.)
    w, s0, s1, move = place_world(case['how'], H, k0, k1, size, u)
    answers = []
    for a, b in ((s0, s1), (s1, s0)):
        (x, y), solver = choose_solver(a, b)
        require({id(x), id(y)} == {id(a), id(b)}, 'other shapes returned')
        answers.append(((x, y), solver))
    r1 = 0. if k1 == 'Point' else RADII[(size + 1) % 4]
    for m, rel in enumerate(places(k0, size)):
        rel = np.array(rel, float)
        c1 = H[:3, :3].dot(rel) + H[:3, 3]
        move(c1)
        unique = True
        if k0 == 'Sphere':
            d = np.sqrt(rel.dot(rel))
            dist, normal = d - RADII[size] - r1, rel / d
            q0 = RADII[size] * normal
        elif k0 == 'Plane':
            c = np.array(PLANES[size], float)
            c = c / np.sqrt(c[:3].dot(c[:3]))
            normal = c[:3]
            d = normal.dot(rel) - c[3]
            dist = d - r1
            q0 = rel - d * normal
        else:
            d, q0, normal, unique = closest_on_box(BOXES[size], rel)
            dist = d - r1
        for shapes, solver in (answers if m % 4 == 0 else answers[m % 2:m % 2 + 1]):
            what = '%s/%s size %d, frame %d, at %s: ' % (
                k0, k1, size, case['f'], rel.tolist())
            sd, Hc0, Hc1 = solver(shapes)
            if u != 1.:
                what = 'scale %g, ' % u + what
                sd, Hc0, Hc1 = sd / u, zoom(Hc0, 1. / u), zoom(Hc1, 1. / u)
            swap = shapes[0] is not s0
            same(what + 'distance', float(sd), dist, 1e-9,
                 max(1., np.abs(c1).max()))
            for Hc in (Hc0, Hc1):
                same(what + 'orthonormal frame', Hc[:3, :3].T.dot(Hc[:3, :3]),
                     np.eye(3), 1e-9)
                require(np.linalg.det(Hc[:3, :3]) > 0, what + 'left-handed')
                same(what + 'last row', Hc[3], np.array([0, 0, 0, 1.]), 0.)
            same(what + 'common orientation', Hc1[:3, :3], Hc0[:3, :3], 1e-9)
            z = Hc0[:3, 2]
            same(what + 'distance along the normal', Hc1[:3, 3] - Hc0[:3, 3],
                 sd * z, 1e-8, max(1., np.abs(c1).max()))
            if swap:
                Hc0, Hc1, z = Hc1, Hc0, -z
            # on the surfaces
            p0 = H[:3, :3].T.dot(Hc0[:3, 3] - H[:3, 3])
            e = on_surface(k0, size, p0)
            require(e < 1e-8, what + 'first contact point at %g of the '
                    'surface' % e)
            p1 = Hc1[:3, 3] - c1
            e = on_surface(k1, size, p1, 1)
            require(e < 1e-8, what + 'second contact point at %g of the '
                    'surface' % e)
            if unique:
                same(what + 'normal', z, H[:3, :3].dot(normal), 1e-7)
                same(what + 'first contact point', p0, q0, 1e-7,
                     max(1., np.abs(c1).max()))
                same(what + 'second contact point', p1,
                     -r1 * H[:3, :3].dot(normal), 1e-7)
                cov.nontrivial = True
            cov.check(8)
        cov.step()
        cov.state(case['p'], size, H, rel)
    cov.traces = 1
    return cov


def run_refused(case):
    from arboris.collisions import choose_solver
    from arboris.core import World
    from arboris import shapes
    cov = Cov()
    w = World()
    S = {'Sphere': shapes.Sphere(w.ground, 1.), 'Point': shapes.Point(w.ground),
         'Plane': shapes.Plane(w.ground), 'Box': shapes.Box(w.ground),
         'Cylinder': shapes.Cylinder(w.ground)}
    other = {'Sphere': shapes.Sphere(w.ground, 2.),
             'Point': shapes.Point(w.ground), 'Plane': shapes.Plane(w.ground),
             'Box': shapes.Box(w.ground), 'Cylinder': shapes.Cylinder(w.ground)}
    ok = set(PAIRS) | set((b, a) for a, b in PAIRS)
    for a, b in itertools.product(S, S):
        try:
            sh, solver = choose_solver(S[a], other[b])
            got = True
        except NotImplementedError:
            got = False
        require(got == ((a, b) in ok), '%s/%s: %s' % (
            a, b, 'solver found' if got else 'no solver'))
        if got:
            require(set(map(id, sh)) == {id(S[a]), id(other[b])}, 'shapes')
        cov.step()
        cov.check()
        cov.state(a, b)
    cov.nontrivial = True
    cov.traces = 1
    return cov
