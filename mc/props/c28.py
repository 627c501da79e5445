"""Isolation: worlds do not disturb each other, arguments are not touched."""
import copy
import itertools
import pickle
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import ref, scen

META = dict(
    rule='every interleaving of the construction and the operations of two '
         'worlds, for every pair of scenarios, against each world alone; every '
         'kind of element built twice from the same arguments, against the '
         'same elements built from copies; copies of a world (deep or pickled) made '
         'after any step, with every interleaving of the steps that follow; default arguments; every function of the modules of '
         'geometry on every form of its arguments (read-only, Fortran order, '
         'strided, lists, integers); values read at each step, looked at again '
         'after the others; non-trivial: every execution compares two runs',
    bounds='2 worlds, 5 (1 step) to 13 (3 steps) operations each, 22 '
           'scenarios; 12 kinds of shared arguments x 3 steps; 35 functions '
           'x 7 forms x 2 calls; 22 scenarios x 4 steps',
    assumptions=['one thread: the operations are interleaved, not simultaneous'],
)
CHUNK = 8
OPS = ['build', 'dynamic', 'controllers', 'constraints', 'integrate']
DT = 0.01
_alone = {}


def cases(tier):
    thorough = tier == 'thorough'
    names = scen.NAMES
    for a, b in itertools.product(names, names):
        if a > b and not thorough:
            continue
        # one step each, all the interleavings of the operations
        for k in range(0, 252, 12):
            yield {'m': 'ops', 'a': a, 'b': b, 'k': [k, k + 12], 'n': 1}
    # several steps, all the interleavings of the steps
    for a, b in itertools.product(names, names):
        if a > b:
            continue
        yield {'m': 'steps', 'a': a, 'b': b, 'n': 5 if thorough else 3}
    if thorough:
        # two steps each, all the interleavings of the operations: C(18, 9)
        for a, b in (('all', 'all'), ('pd', 'limits'), ('contact', 'all')):
            for k in range(0, 48620, 20):
                yield {'m': 'ops', 'a': a, 'b': b, 'k': [k, k + 20], 'n': 2}
    for n, a in enumerate(scen.MORE):
        for b in (names[n % len(names)], scen.MORE[(n + 5) % 12], a):
            yield {'m': 'steps', 'a': a, 'b': b, 'n': 3}
            if b == a or thorough:
                for k in range(0, 252, 12):
                    yield {'m': 'ops', 'a': a, 'b': b, 'k': [k, k + 12],
                           'n': 1}
    for kind in SHARE:
        for v in range(3):
            yield {'m': 'share', 's': kind, 'v': v}
    for kind in DEFAULTS:
        yield {'m': 'defaults', 'd': kind}
    for f in range(len(functions())):
        yield {'m': 'pure', 'f': f}
    # the copies of a world, made at any step, and every interleaving of the
    # steps that follow
    for s in names + scen.MORE:
        for pre in range(4):
            for how in ('deep', 'pickle', 'twice'):
                for n in (1, 2, 3) if thorough else (2,):
                    yield {'m': 'copy', 's': s, 'pre': pre, 'how': how, 'n': n}
    for s in names + scen.MORE:
        for v in range(3):
            yield {'m': 'snap', 's': s, 'v': v}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces += 1
    cov.nontrivial = True
    return cov


# -- two worlds --------------------------------------------------------------
class Runner(object):
    def __init__(self, name, dt):
        self.name = name
        self.dt = dt
        self.n = 0
        self.w = None

    def op(self):
        k = self.n
        self.n += 1
        if k == 0:
            self.w = scen.build(self.name)['world']
        else:
            k = (k - 1) % 4
            if k == 0:
                self.w.update_dynamic()
            elif k == 1:
                self.w.update_controllers(self.dt)
            elif k == 2:
                self.w.update_constraints(self.dt)
            else:
                self.w.integrate(self.dt)

    def step(self):
        if self.n == 0:
            self.op()
        else:
            for i in range(4):
                self.op()

    def result(self):
        w = self.w
        out = [scen.state(w), np.array(w.mass).ravel(),
               np.array(w.gforce).ravel(), np.array(w.gvel),
               np.array([w.current_time])]
        for f in w.iterframes() if hasattr(w, 'iterframes') else w.getframes():
            out.append(np.array(f.pose).ravel())
        return np.concatenate(out)


def alone(name, dt, n):
    key = (name, dt, n)
    if key not in _alone:
        r = Runner(name, dt)
        for i in range(1 + 4 * n):
            r.op()
        _alone[key] = r.result()
    return _alone[key]


def interleavings(n):
    """Positions of the operations of the first world among all."""
    return itertools.combinations(range(2 * n), n)


def run_ops(case, cov):
    n = 1 + 4 * case['n']
    for pos in itertools.islice(interleavings(n), *case['k']):
        two(case, pos, 2 * n, 'op', case['n'], cov)


def run_steps(case, cov):
    n = 1 + case['n']
    for pos in interleavings(n):
        two(case, pos, 2 * n, 'step', case['n'], cov)


def two(case, pos, total, how, n, cov):
    da, db = DT, 0.004
    a, b = Runner(case['a'], da), Runner(case['b'], db)
    first = set(pos)
    for i in range(total):
        getattr(a if i in first else b, how)()
    what = 'order %s' % ''.join('ab'[i not in first] for i in range(total))
    same('%s: the world a' % what, a.result(), alone(case['a'], da, n), 1e-12)
    same('%s: the world b' % what, b.result(), alone(case['b'], db, n), 1e-12)
    cov.state(case['a'], case['b'], what)
    cov.step(total)
    cov.check(2)


# -- shared arguments --------------------------------------------------------
SHARE = ['freegpos', 'freegvel', 'lingpos', 'lingvel', 'mass', 'viscosity',
         'bpose', 'moving', 'gains', 'targets', 'limits', 'proximity',
         'half_extents', 'coeffs', 'register', 'moved']


def run_copy(case, cov):
    name, pre, n = case['s'], case['pre'], case['n']
    if case['how'] == 'pickle' and '+' in name:
        return          # (the joints that the user defines)
    want = alone(name, DT, pre + n)
    for pos in interleavings(n):
        a = Runner(name, DT)
        for i in range(1 + pre):
            a.step()
        before = scen.state(a.w)
        b = Runner(name, DT)
        if case['how'] == 'pickle':
            b.w = pickle.loads(pickle.dumps(a.w))
        else:
            b.w = copy.deepcopy(a.w)
            if case['how'] == 'twice':
                b.w = copy.deepcopy(b.w)
        same('original', scen.state(a.w), before, 0.)
        b.n = a.n
        b.w.init()
        for i in range(2 * n):
            (a if i in set(pos) else b).step()
        what = '%s copy after %d steps, order %s: ' % (
            case['how'], pre, ''.join('ab'[i not in pos]
                                      for i in range(2 * n)))
        same(what + 'the original', a.result(), want, 1e-12)
        same(what + 'the copy', b.result(), want, 1e-12)
        names = [[x.name for x in w.getframes()] for w in (a.w, b.w)]
        require(names[0] == names[1], what + 'names')
        ids = [set(map(id, list(w.iterbodies()) + list(w.iterjoints())))
               for w in (a.w, b.w)]
        require(not ids[0] & ids[1], what + 'shared elements')
        cov.state(name, what)
        cov.step(2 * n)
        cov.check(4)


def run_share(case, cov):
    """Two elements made from the same arrays behave as with two copies."""
    res = []
    for shared in (True, False):
        res.append(share(case['s'], case['v'], shared))
    same('two elements made from the same %s' % case['s'], res[0], res[1],
         1e-12)
    cov.state(case['s'], case['v'])
    cov.step(8)
    cov.check(1)


def share(kind, v, shared):
    from arboris.core import World, SubFrame, MovingSubFrame, Body
    from arboris.joints import FreeJoint, RzRyRxJoint, RzJoint
    from arboris.controllers import (WeightController,
                                     ProportionalDerivativeController)
    from arboris.constraints import JointLimits, SoftFingerContact
    from arboris.shapes import Box, Plane, Sphere

    kept = []

    def arg(a):
        """The function that gives the argument."""
        a = np.array(a, float)
        if v == 1:
            a.flags.writeable = False
        if v == 2:
            a = a.tolist()
        kept.append((a, np.array(a)))
        if shared:
            return lambda: a
        return lambda: np.array(a)

    H = ref.hom(ref.rotation_from((1, 2, -1), 0.3), [0.1, 0.6, -0.3])
    gpos, gvel = arg(H), arg([0.3, -0.2, 0.1, 0.4, 1., -0.5])
    lpos, lvel = arg([0.2, -0.4, 0.5]), arg([0.5, 0.3, -1.])
    M = np.array(ref.spatial_mass(*scen.MASSES['d']))
    # the matrices and vectors that are kept as they are: arrays only
    mass = arg(M) if v < 2 else (lambda: M)
    N = np.diag([1., 2., 3., 0.5, 0.5, 0.7])
    visc = (lambda: N)
    bp = ref.hom(ref.rotation_from((0, 1, 1), 0.7), [0.2, 0.1, 0.3])
    bpose = arg(bp) if v < 2 else (lambda: bp.copy())
    kp, kd = arg(np.diag([9., 7., 5.])), arg(np.diag([1., 0.5, 0.2]))
    des = arg([0.3, -0.3, 0.1])
    lo, hi, prox = arg([-0.5, -0.41, -0.4]), arg([0.21, 0.3, 0.6]), \
        arg([0.1, 0.2, 0.3])
    he, co = arg([0.3, 0.2, 0.4]), arg([0.1, 1., 0.2, -0.3])

    w = World('w')
    joints, frames = [], []
    for i in range(2):
        if kind in ('freegpos', 'freegvel', 'half_extents', 'coeffs'):
            j = FreeJoint(gpos=gpos(), gvel=gvel(), name='j%d' % i)
        else:
            j = RzRyRxJoint(gpos=lpos(), gvel=lvel(), name='j%d' % i)
        b = Body('b%d' % i, mass=mass(),
                 viscosity=visc() if kind == 'viscosity' else None)
        s = SubFrame(w.ground if i == 0 else joints[0].frame1.body, bpose(),
                     's%d' % i)
        w.add_link(s, j, b)
        joints.append(j)
        if kind in ('moving', 'moved'):
            m = MovingSubFrame(b, bpose(), 'm%d' % i)
            w.register(m)
            frames.append(m)
    w.init()
    w.register(WeightController(name='weight'))
    for i in range(2):
        if kind in ('gains', 'targets'):
            w.register(ProportionalDerivativeController(
                [joints[i]], kp(), kd(), des(), des(), 'pd%d' % i))
        if kind in ('limits', 'proximity'):
            w.register(JointLimits(joints[i], lo(), hi(), prox(),
                                   'limits%d' % i))
    if kind in ('half_extents', 'coeffs'):
        for i in range(2):
            box = Box(joints[i].frame1.body, he(), 'box%d' % i)
            plane = Plane(w.ground, co(), 'plane%d' % i)
            w.register(box)
            w.register(plane)
            ball = Sphere(joints[1 - i].frame1.body, 0.2, 'sphere%d' % i)
            w.register(SoftFingerContact((box, ball), 0.5, name='c%d' % i))
            w.register(SoftFingerContact((plane, ball), 0.5, name='p%d' % i))
    w.init()
    if kind in ('moving', 'register'):
        for f in frames[:1]:
            # one of the two is moved
            f.bpose = ref.hom(np.eye(3), [1., 2., 3.])
    out = []
    for i in range(3):
        if kind == 'moved':
            # both are moved with the same array, which is then reused
            H = ref.hom(ref.rotation_from((1, 1, 0), 0.3 * (i + 1)),
                        [i, 0.5, -0.2])
            given = arg(H) if v < 2 else (lambda H=H: np.array(H))
            for f in frames:
                f.bpose = given()
            old = np.array(H)
            x = given()
            if v == 0:
                kept.pop()
                x[...] = np.eye(4)
            w.update_dynamic()
            for j, f in enumerate(frames):
                same('placement of a moved frame', f.bpose, old, 0.)
                same('pose of a moved frame', f.pose,
                     f.body.pose.dot(old), 1e-12)
            f = frames[i % 2]
            H2 = f.bpose
            H2[...] = 7.
            same('placement of a moved frame', f.bpose, old, 0.)
            frames[0].bpose = np.eye(4)
            same('placement of the other frame', frames[1].bpose, old, 0.)
        scen.step(w, 0.01)
        out.append(scen.state(w))
        for j in joints[:1]:
            if kind.startswith('lin'):
                # a change of the first joint is not one of the second
                j.gpos[:] = [0.1 * i, 0.2, 0.]
        w.update_dynamic()
        for f in w.getframes():
            out.append(np.array(f.pose).ravel())
    for a, old in kept:
        require(np.array_equal(np.array(a), old),
                'an argument (%s) is modified by the simulation' % old.tolist())
    return np.concatenate(out)


# -- default arguments -------------------------------------------------------
DEFAULTS = ['World', 'Body', 'SubFrame', 'MovingSubFrame', 'FreeJoint',
            'RzRyRxJoint', 'RzRyJoint', 'RzRxJoint', 'RyRxJoint', 'RzJoint',
            'RyJoint', 'RxJoint', 'TxTyTzJoint', 'TxJoint', 'TyJoint',
            'TzJoint', 'Point', 'Sphere', 'Plane', 'Cylinder', 'Box']


def arrays_of(x):
    out = {}
    for n in dir(type(x)) + list(vars(x)):
        if n.startswith('_'):
            continue
        try:
            v = getattr(x, n)
        except Exception:
            continue        # not computed yet
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fi':
            out[n] = v
    return out


def run_defaults(case, cov):
    """An element made with the default arguments is changed in place: the
    others, made before or after, keep their values."""
    import arboris.core as core
    import arboris.joints as joints
    import arboris.shapes as shapes
    name = case['d']
    cls = getattr(core, name, None) or getattr(joints, name, None) or \
        getattr(shapes, name)
    home = core.World().ground

    def new():
        if name in ('SubFrame', 'MovingSubFrame', 'Point', 'Sphere', 'Plane',
                    'Cylinder', 'Box'):
            return cls(home)
        return cls()
    first, second = new(), new()
    before = {n: np.array(a) for n, a in arrays_of(second).items()}
    changed = 0
    for n, a in arrays_of(first).items():
        if a.flags.writeable and a.size:
            a[...] = 77.
            changed += 1
            third = new()
            for who, y in (('made before', second), ('made after', third)):
                now = arrays_of(y)
                require(set(now) == set(before), '%s: attributes of the one '
                        '%s' % (name, who))
                for m in before:
                    require(np.array_equal(now[m], before[m]),
                            '%s.%s of the one %s is changed with the %s of '
                            'another' % (name, m, who, n))
                    cov.check()
        cov.step()
    cov.state(name, changed)


# -- functions ---------------------------------------------------------------
_functions = None


def functions():
    global _functions
    if _functions is not None:
        return _functions
    import arboris.homogeneousmatrix as Hg
    import arboris.adjointmatrix as Ad
    import arboris.twistvector as Tw
    import arboris.massmatrix as Mm
    from arboris.rigidmotion import RigidMotion
    H = ref.hom(ref.rotation_from((1, 2, -1), 0.8), [0.5, -1., 2.])
    HI = np.array([[0, -1, 0, 3], [1, 0, 0, -2], [0, 0, 1, 1], [0, 0, 0, 1]])
    T, TI = np.array([.3, -.2, .5, 1., 2., -1.]), np.array([1, 0, 0, 2, -1, 3])
    A, AI = ref.ad_of_pose(H), np.array(np.round(ref.ad_of_pose(HI)), int)
    M = np.array(ref.spatial_mass(*scen.MASSES['d']))
    MI = np.diag([3, 4, 5, 2, 2, 2])
    p, pI = np.array([.1, .2, -.7]), np.array([1, 2, -3])
    L = []

    def add(name, f, *args):
        L.append((name, f, args))
    for name in ('inv', 'adjoint', 'iadjoint', 'rotzyx_angles',
                 'ishomogeneousmatrix'):
        add('homogeneousmatrix.' + name, getattr(Hg, name), (H, HI))
    for name in ('pdot', 'vdot'):
        add('homogeneousmatrix.' + name, getattr(Hg, name), (H, HI), (p, pI))
    add('homogeneousmatrix.dAdjoint', Hg.dAdjoint, (A, AI), (T, TI))
    add('homogeneousmatrix.zaligned', Hg.zaligned, (p / np.linalg.norm(p),
                                                    np.array([0, 1, 0])))
    for name, n in (('transl', 3), ('rotzyx', 3), ('rotzy', 2), ('rotzx', 2),
                    ('rotyx', 2), ('rotx', 1), ('roty', 1), ('rotz', 1)):
        f = getattr(Hg, name)
        add('homogeneousmatrix.' + name,
            (lambda f, n: lambda a: f(*[a[i] for i in range(n)]))(f, n),
            (p, pI))
    for name in ('inv', 'isadjointmatrix'):
        add('adjointmatrix.' + name, getattr(Ad, name), (A, AI))
    for name in ('adjacency', 'exp'):
        add('twistvector.' + name, getattr(Tw, name), (T, TI))
    add('massmatrix.ismassmatrix', Mm.ismassmatrix, (M, MI))
    add('massmatrix.transport', Mm.transport, (M, MI), (H, HI))
    add('massmatrix.principalframe', Mm.principalframe, (M, MI))
    for name in ('box', 'ellipsoid'):
        f = getattr(Mm, name)
        add('massmatrix.' + name, (lambda f: lambda a: f(a, 2.))(f),
            (np.abs(p), np.abs(pI)))

    class Motion(RigidMotion):
        def __init__(self, H, T):
            self.H, self.T = H, T

        @property
        def pose(self):
            return self.H

        @property
        def twist(self):
            return self.T
    for name in ('ipose', 'itwist'):
        add('RigidMotion.' + name,
            (lambda n: lambda H, T: getattr(Motion(H, T), n))(name),
            (H, HI), (T, TI))
    for name in ('adjoint', 'iadjoint', 'adjacency', 'iadjacency', 'dadjoint',
                 'idadjoint'):
        add('RigidMotion.' + name,
            (lambda n: lambda H, T: getattr(Motion(H, T), n))(name),
            (H, HI), (T, TI))
    _functions = L
    return L


def forms(a):
    """The same values in other arrays."""
    a = np.array(a, float)
    yield 'plain', a
    r = a.copy()
    r.flags.writeable = False
    yield 'read-only', r
    yield 'Fortran', np.asfortranarray(a.copy())
    big = np.full(tuple(3 * n for n in a.shape), np.nan)
    view = big[tuple(slice(1, None, 3) for n in a.shape)]
    view[...] = a
    yield 'strided', view
    yield 'reversed', np.array(a[::-1])[::-1]


def flat(r):
    if isinstance(r, tuple):
        return np.concatenate([np.ravel(np.array(x, float)) for x in r])
    return np.ravel(np.array(r, float))


def parts(r):
    return [x for x in (r if isinstance(r, tuple) else (r,))
            if isinstance(x, np.ndarray)]


def run_pure(case, cov):
    name, f, args = functions()[case['f']]
    want = flat(f(*[np.array(a[0], float) for a in args]))
    for variants in itertools.product(*[list(forms(a[0])) for a in args]):
        what = '%s on %s arrays' % (name, [v[0] for v in variants])
        given = [v[1] for v in variants]
        before = [np.array(g) for g in given]
        r1 = f(*given)
        kept = flat(r1)
        same(what, kept, want, 1e-12)
        for g, b in zip(given, before):
            require(np.array_equal(g, b), what + ': an argument is modified')
        # the result is the caller's: it may be modified
        r2 = f(*given)
        for x in parts(r1):
            if x.flags.writeable and not any(x is g for g in given):
                x[...] = 123.
        for g, b in zip(given, before):
            require(np.array_equal(g, b),
                    what + ': the result shares the memory of an argument')
        same(what + ': result of another call, after the modification of the '
             'first', flat(r2), want, 1e-12)
        same(what + ': new call', flat(f(*given)), want, 1e-12)
        cov.state(name, what)
        cov.step(3)
        cov.check(5)
    # arrays that are filled again
    given = [np.array(a[1], float) for a in args]
    other = flat(f(*given))
    for g, a in zip(given, args):
        g[...] = a[0]
    same('%s on arrays that are filled again' % name, flat(f(*given)), want,
         1e-12)
    for g, a in zip(given, args):
        g[...] = a[1]
    same('%s on arrays that are filled twice again' % name, flat(f(*given)),
         other, 1e-12)
    cov.check(2)
    # integers
    want = flat(f(*[np.array(a[1], float) for a in args]))
    for how in ('int', 'int32'):
        given = [np.array(a[1], how) for a in args]
        same('%s on integers' % name, flat(f(*given)), want, 1e-12)
        cov.check(1)
    cov.state(name, 'int')


# -- what is read ------------------------------------------------------------
def run_snap(case, cov):
    """What is read at one step is not changed by the next ones."""
    what = case['s']
    w = scen.build(what)['world']
    other = scen.build(what)['world']
    read = []
    for k in range(4):
        w.update_dynamic()
        w.update_controllers(DT)
        w.update_constraints(DT)
        for a in ('gvel', 'gforce', 'admittance'):
            x = getattr(w, a)
            read.append(('world.' + a, k, x, np.array(x)))
            if case['v'] == 1:
                # a copy
                getattr(w, a)[...] = 77.
        for f in w.getframes():
            for a in ('pose', 'jacobian', 'djacobian', 'twist', 'bpose'):
                x = getattr(f, a)
                read.append(('%s.%s' % (f.name, a), k, x, np.array(x)))
            if f is not w.ground and case['v'] == 1:
                f.bpose[...] = 77.
        for j in w.getjoints():
            for a in ('pose', 'twist', 'jacobian', 'djacobian'):
                x = getattr(j, a)
                read.append(('%s.%s' % (j.name, a), k, x, np.array(x)))
                if case['v'] == 1 and isinstance(x, np.ndarray) and \
                        x.flags.writeable:
                    x[...] = 77.
        if case['v'] == 2:
            # the vectors of the joints are replaced with equal ones
            for j in w.getjoints():
                j.gpos = np.array(j.gpos)
                j.gvel[:] = np.array(j.gvel)
        w.integrate(DT)
        scen.step(other, DT)
        same('%s: simulation where the values are read' % what, scen.state(w),
             scen.state(other), 1e-12)
        for name, k0, x, old in read:
            if case['v'] == 1 and '.' in name and name.split('.')[1] in (
                    'pose', 'twist', 'jacobian', 'djacobian') and \
                    name.split('.')[0] in [j.name for j in w.getjoints()]:
                continue
            require(np.array_equal(np.array(x), old),
                    '%s: %s read at step %d is changed at step %d' % (
                        what, name, k0, k))
        cov.check(1 + len(read))
        cov.step()
        cov.state(what, scen.state(w))
