"""Construction of the tree."""
import itertools
import numpy as np
from mc.engine import Cov, Violation
from mc.worlds import require, make_joint, FRAMES
from mc import ref

META = dict(
    rule='explicit-state search of the reference model of the tree (bodies, '
         'ordered links, registered objects); every transition of the model '
         'is replayed, with the path that leads to it, on a fresh real world '
         'and every observable is compared; non-trivial: the operation '
         'changes the tree or must be refused',
    bounds='5 bodies, 4 kinds of joints, links anchored to bodies or to '
           'subframes; every sequence of 3 operations (quick) or 4 (thorough) '
           'up to equality of the model states, from the empty world; every '
           'operation (quick) or pair (thorough) from every shape of up to 4 '
           'bodies',
    assumptions=['a link starts from a body that is already in the world'],
)
CHUNK = 60
NB = 5
JT = ['RzJoint', 'RzRyRxJoint', 'FixedJoint', 'FreeJoint']


# ----------------------------------------------------------------- model
class Model(object):
    """Abstract state."""

    def __init__(self):
        self.links = {}       # label -> (type, parent, f0, child, f1)
        self.children = {'g': []}
        self.parent = {}      # body -> label
        self.frames = []      # registered subframes (labels)
        self.fbody = {}       # frame label -> body
        self.shapes, self.constraints, self.controllers = [], [], []
        self.count = 0
        self.dof = None       # labels -> (start, stop), None: not up to date

    def key(self):
        """Canonical form: labels of joints, frames... numbered in order."""
        num = {}

        def n(x):
            return num.setdefault(x, len(num))
        ls = tuple((b, tuple((n(l),) + self.links[l][:2] + (self.links[l][3],)
                             for l in ls))
                   for b, ls in sorted(self.children.items()))
        fr = tuple((n(f), self.fbody[f]) for f in self.frames)
        anch = tuple(tuple(n(x) if x else -1 for x in (self.links[l][2],
                                                      self.links[l][4]))
                     for b, ls_ in sorted(self.children.items()) for l in ls_)
        return (ls, fr, anch, len(self.shapes), len(self.constraints),
                len(self.controllers), self.dof is not None)

    def bodies(self):
        """Depth first."""
        res = []

        def rec(b):
            res.append(b)
            for l in self.children[b]:
                rec(self.links[l][3])
        rec('g')
        return res

    def joints(self):
        res = []

        def rec(b):
            for l in self.children[b]:
                res.append(l)
                rec(self.links[l][3])
        rec('g')
        return res

    def ancestors(self, b):
        res = []
        while b in self.parent:
            b = self.links[self.parent[b]][1]
            res.append(b)
        return res

    def fresh(self):
        used = set(self.bodies())
        for i in range(NB):
            if 'b%d' % i not in used:
                return 'b%d' % i
        return None

    # the operations are lists of strings; they give the expected outcome:
    # None or the exceptions that refuse it
    def ops(self):
        att = self.bodies()
        new = self.fresh()
        ls = self.joints()
        big = len(att) > 2
        if new:
            for p in att:
                for jt in JT if not big else JT[:3]:
                    for s0, s1 in ((0, 0), (1, 0), (0, 1), (1, 1)):
                        if big and s0 != s1:
                            continue
                        yield ['add', p, jt, new, s0, s1]
            for f in self.frames:
                if self.fbody[f] in att:
                    yield ['addon', f, 'RzJoint', new]
            if len(att) < NB:
                for p in att:
                    yield ['add2', p, new]
                if len(att) < NB - 1:
                    yield ['add3', att[-1], new, 0]
                    yield ['add3', att[-1], new, 1]
            yield ['addused', att[-1], new]
            for kind in range(7):
                yield ['addbad', att[-1], new, kind, 0]
                yield ['addbad', 'g', new, kind, 1]
            for to in (new, 'g'):
                yield ['floatbad', new, to, 0, 0]
                yield ['floatbad', new, to, 1, 0]
                yield ['floatbad', new, to, 0, 1]
                yield ['floatbad', new, to, 1, 1]
        for p in att:
            for c in att:
                yield ['loop', p, c, 0]
                yield ['loop', p, c, 1]
        for l in ls:
            yield ['rep1', l, 'RzJoint']
            yield ['rep1', l, 'FreeJoint']
            yield ['rep1', l, 'FixedJoint']
            yield ['rep3', l, 'RzRyRxJoint', 0]
            yield ['rep3', l, 'RzJoint', 1]
            yield ['repself', l]
            if new:
                yield ['rep6', l, new, 'RzJoint', 'RzRyRxJoint']
                yield ['repbadmid', l, 'twice', new]
                for kind in range(4):
                    yield ['repbadlink', l, new, kind]
                if len(att) < NB:
                    yield ['rep9', l, new]
            yield ['rep0', l]
            yield ['rep2', l]
            for m in att:
                yield ['repbadmid', l, m]
            yield ['repused', l]
            for b in att:
                if b != self.links[l][1]:
                    yield ['repbadbody', l, b, 0]
                if b != self.links[l][3]:
                    yield ['repbadbody', l, b, 1]
        yield ['sub', att[-1]]
        yield ['sub', 'g']
        yield ['same', att[-1]]
        yield ['mov', att[0]]
        for f in self.frames[:2]:
            yield ['again', f]
        yield ['shape', att[-1], 1]
        yield ['shape', 'g', 0]
        yield ['shape', att[-1], 2]
        if self.shapes:
            yield ['shapeagain']
        if ls:
            yield ['ctrl', ls[-1]]
            yield ['limits', ls[-1]]
            yield ['contact', att[-1]]
            yield ['regjoint', ls[0]]
        yield ['regbody', att[-1]]
        yield ['regjunk']
        yield ['init']


class Both(object):
    """Applies the operations to a model and to a real world."""

    def __init__(self, real):
        self.m = Model()
        self.real = real
        if real:
            from arboris import core
            self.core = core
            self.w = core.World()
            self.o = {'g': self.w.ground}

    # ---- helpers
    def body(self, b):
        if self.real and b not in self.o:
            self.o[b] = self.core.Body(name=b, mass=np.eye(6))
        return b

    def new(self, kind):
        self.m.count += 1
        return '%s%d' % (kind, self.m.count)

    def joint(self, jt):
        l = self.new('j')
        if self.real:
            self.o[l] = make_joint(jt, label=l)
        return l

    def sub(self, b, moving=False, name=None):
        l = self.new('f')
        self.m.fbody[l] = b
        if self.real:
            cls = self.core.MovingSubFrame if moving else self.core.SubFrame
            self.o[l] = cls(self.o[b], FRAMES[1], name or l)
        return l

    def call(self, expect, fn, *args):
        """Call the real code; it must be refused with one of ``expect``, or
        accepted if ``expect`` is None."""
        if not self.real:
            return
        args = [self.o.get(a, a) if isinstance(a, str) else a for a in args]
        try:
            fn(*args)
        except Exception as e:
            if expect is None or not isinstance(e, expect):
                raise Violation('%s%r: unexpected %s: %s' % (
                    getattr(fn, '__name__', fn), tuple(args),
                    type(e).__name__, e))
            return
        if expect is not None:
            raise Violation('%s%r: should have been refused' % (
                fn.__name__, tuple(args)))

    def reg(self, f):
        if f not in self.m.frames:
            self.m.frames.append(f)

    def mlink(self, p, f0, l, jt, c, f1):
        m = self.m
        m.links[l] = (jt, p, f0, c, f1)
        m.children[p].append(l)
        m.children.setdefault(c, [])
        m.parent[c] = l
        for f in (f0, f1):
            if f:
                self.reg(f)
        m.dof = None

    # ---- one operation
    def do(self, op):
        m, k = self.m, op[0]
        W = self.w if self.real else None
        add = W.add_link if W else None
        rep = W.replace_joint if W else None
        BAD = (ValueError, AssertionError)
        if k == 'add':
            _, p, jt, c, s0, s1 = op
            self.body(c)
            f0 = self.sub(p) if s0 else None
            f1 = self.sub(c) if s1 else None
            l = self.joint(jt)
            self.call(None, add, f0 or p, l, f1 or c)
            self.mlink(p, f0, l, jt, c, f1)
        elif k == 'addon':
            _, f, jt, c = op
            self.body(c)
            l = self.joint(jt)
            self.call(None, add, f, l, c)
            self.mlink(m.fbody[f], f, l, jt, c, None)
        elif k == 'add2':
            _, p, c = op
            self.body(c)
            d = 'b%d' % (int(c[1]) + 1)
            while d in m.bodies():
                d = 'b%d' % (int(d[1]) + 1)
            self.body(d)
            l0, l1 = self.joint('RzJoint'), self.joint('FreeJoint')
            f = self.sub(c)
            self.call(None, add, p, l0, c, f, l1, d)
            self.mlink(p, None, l0, 'RzJoint', c, None)
            self.mlink(c, f, l1, 'FreeJoint', d, None)
        elif k == 'add3':
            # the second link starts from the ground, the third from the
            # first of the new bodies
            _, p, c, s = op
            self.body(c)
            free = ['b%d' % i for i in range(NB + 2)
                    if 'b%d' % i not in m.bodies() + [c]]
            d, e = self.body(free[0]), self.body(free[1])
            ls = [self.joint(j) for j in ('RzJoint', 'FreeJoint', 'RxJoint')]
            g = self.sub('g') if s else None
            f = self.sub(e) if s else None
            self.call(None, add, p, ls[0], c, g or 'g', ls[1], d, c, ls[2],
                      f or e)
            self.mlink(p, None, ls[0], 'RzJoint', c, None)
            self.mlink('g', g, ls[1], 'FreeJoint', d, None)
            self.mlink(c, None, ls[2], 'RxJoint', e, f)
        elif k == 'same':
            # objects with the same name are different objects
            from arboris import shapes, controllers, constraints
            b = op[1]
            for mov in (False, False, True):
                f = self.sub(b, mov, 'same')
                self.call(None, W.register if W else None, f)
                self.reg(f)
            for i in range(2):
                n = [self.new(x) for x in 'sck']
                if self.real:
                    self.o[n[0]] = shapes.Sphere(self.o[b], name='same')
                    self.o[n[1]] = controllers.WeightController(name='same')
                    self.o[n[2]] = constraints.BallAndSocketConstraint(
                        (self.o['g'], self.o[b]), name='same')
                for x in n:
                    self.call(None, W.register if W else None, x)
                m.shapes.append(n[0])
                m.controllers.append(n[1])
                m.constraints.append(n[2])
        elif k == 'addused':
            _, p, c = op
            self.body(c)
            ls = m.joints()
            if ls:
                self.call(BAD, add, p, ls[0], c)
        elif k == 'floatbad':
            # a body that is in no world yet, linked to itself or carrying
            # the ground
            _, p, c, s0, s1 = op
            self.body(p)
            l = self.joint('RzJoint')
            fp = self.sub(p) if s0 else p
            fc = self.sub(c) if s1 else c
            self.call(BAD, add, fp, l, fc)
            if self.real:
                B, J = self.o[p], self.o[l]
                require(B.parentjoint is None and not list(B.childrenjoints),
                        'a refused link leaves the body linked')
                require(tuple(J.frames) == (None, None),
                        'a refused link leaves its joint linked')
        elif k == 'addbad':
            # several links, the last of which is refused
            _, p, c, kind, s = op
            self.body(c)
            d = [x for x in ('b%d' % i for i in range(NB + 2))
                 if x not in m.bodies() + [c]][0]
            self.body(d)
            l = [self.joint(j) for j in ('RzJoint', 'FreeJoint', 'RxJoint')]
            f0 = self.sub(p) if s else p
            f1 = self.sub(c) if s else c
            if not s or kind == 4:
                last = [
                    lambda: (c, l[1], m.bodies()[-1]),
                    lambda: (p, l[0], d),
                    lambda: (p, l[1], f1),
                    lambda: (c, m.joints()[0] if m.links else l[0], d),
                    lambda: (c, l[1], d, d, l[2], c),
                    lambda: (c, l[1], 'junk'),
                    lambda: (self.sub(c) if s else c, 'junk', d)][kind]()
            else:
                # (a subframe of the ground is made and must not be kept)
                last = [
                    lambda: (self.sub('g'), l[1], d, d, l[2], 'g'),
                    lambda: (self.sub('g'), l[1], d, d, l[1], c),
                    lambda: (c, l[1], self.sub(d), c, l[2], d),
                    lambda: (c, l[1], d, d, l[2], self.sub(p)),
                    None,
                    lambda: (c, l[1], d, d, 'junk', 'g'),
                    lambda: (self.sub(c), l[1], d, 'junk', l[2], 'g')][kind]()
            self.call(BAD, add, f0, l[0], f1, *last)
            if self.real:
                for x in (c, d):
                    B = self.o[x]
                    require(B.parentjoint is None and not B.childrenjoints,
                            'refused links leave a body linked')
                for x in l:
                    require(tuple(self.o[x].frames) == (None, None),
                            'refused links leave a joint linked')
        elif k == 'repbadlink':
            _, l, b, kind = op
            jt, p, f0, c, f1 = m.links[l]
            self.body(b)
            n = [self.joint('RzJoint') for _ in range(3)]
            f0, f1 = f0 or p, f1 or c
            args = [(f0, n[0], b, b, n[1], b, b, n[2], f1),
                    (f0, n[0], b, 'junk', n[1], f1),
                    (f0, l, b, b, n[1], b, b, n[2], f1),
                    (f0, n[0], self.sub(b), c, n[1], f1)][kind]
            self.call(BAD, rep, l, *args)
            if self.real:
                B = self.o[b]
                require(B.parentjoint is None and not B.childrenjoints,
                        'a refused replacement leaves a body linked')
        elif k == 'loop':
            _, p, c, s = op
            l = self.joint('RzJoint')
            fp = self.sub(p) if s else p
            fc = self.sub(c) if s else c
            self.call(BAD, add, fp, l, fc)
        elif k == 'rep1' or k == 'repself':
            l = op[1]
            jt, p, f0, c, f1 = m.links[l]
            if k == 'rep1':
                n = self.joint(op[2])
                jt = op[2]
                self.call(None, rep, l, n)
            else:
                n = l
                self.call(None, rep, l, f0 or p, l, f1 or c)
            self.mreplace(l, [(p, f0, n, jt, c, f1)])
        elif k == 'rep3':
            _, l, jt, s = op
            _, p, f0, c, f1 = m.links[l]
            n = self.joint(jt)
            f0 = self.sub(p) if s else None
            f1 = self.sub(c) if s else None
            self.call(None, rep, l, f0 or p, n, f1 or c)
            self.mreplace(l, [(p, f0, n, jt, c, f1)])
        elif k == 'rep6':
            _, l, b, ja, jb = op
            _, p, f0, c, f1 = m.links[l]
            self.body(b)
            na, nb = self.joint(ja), self.joint(jb)
            f = self.sub(b)
            self.call(None, rep, l, f0 or p, na, b, f, nb, f1 or c)
            self.mreplace(l, [(p, f0, na, ja, b, None), (b, f, nb, jb, c, f1)])
        elif k == 'rep9':
            _, l, b = op
            _, p, f0, c, f1 = m.links[l]
            self.body(b)
            d = 'b%d' % (int(b[1]) + 1)
            while d in m.bodies():
                d = 'b%d' % (int(d[1]) + 1)
            self.body(d)
            n = [self.joint(j) for j in ('RzJoint', 'FixedJoint', 'RxJoint')]
            self.call(None, rep, l, f0 or p, n[0], b, b, n[1], d, d, n[2],
                      f1 or c)
            self.mreplace(l, [(p, f0, n[0], 'RzJoint', b, None),
                              (b, None, n[1], 'FixedJoint', d, None),
                              (d, None, n[2], 'RxJoint', c, f1)])
        elif k == 'rep0':
            self.call((RuntimeError,) + BAD, rep, op[1])
        elif k == 'rep2':
            l = op[1]
            self.call((RuntimeError,) + BAD, rep, l, m.links[l][1],
                      self.joint('RzJoint'))
        elif k == 'repbadmid':
            l, mid = op[1:3]
            _, p, f0, c, f1 = m.links[l]
            n = [self.joint('RzJoint') for _ in range(3)]
            if mid == 'twice':
                b = self.body(op[3])
                self.call(BAD, rep, l, f0 or p, n[0], b, b, n[0], f1 or c)
            else:
                self.call(BAD, rep, l, f0 or p, n[0], mid, mid, n[1], f1 or c)
        elif k == 'repused':
            l = op[1]
            _, p, f0, c, f1 = m.links[l]
            for o in m.joints():
                if o != l:
                    self.call(BAD, rep, l, o)
        elif k == 'repbadbody':
            _, l, b, end = op
            _, p, f0, c, f1 = m.links[l]
            n = self.joint('RzJoint')
            if end == 0:
                self.call(BAD, rep, l, b, n, f1 or c)
            else:
                self.call(BAD, rep, l, f0 or p, n, b)
        elif k in ('sub', 'mov'):
            f = self.sub(op[1], k == 'mov')
            self.call(None, W.register if W else None, f)
            self.reg(f)
        elif k == 'again':
            self.call(None, W.register if W else None, op[1])
        elif k == 'shape':
            _, b, s = op
            f = self.sub(b, s == 2) if s else None
            sh = self.new('s')
            if self.real:
                from arboris import shapes
                cls = (shapes.Sphere, shapes.Point, shapes.Box, shapes.Plane,
                       shapes.Cylinder)[m.count % 5]
                self.o[sh] = cls(self.o[f or b], name=sh)
            self.call(None, W.register if W else None, sh)
            m.shapes.append(sh)
            if f:
                self.reg(f)
        elif k == 'shapeagain':
            self.call(None, W.register if W else None, m.shapes[0])
        elif k == 'ctrl':
            c = self.new('c')
            if self.real:
                from arboris.controllers import WeightController
                self.o[c] = WeightController(name=c)
            self.call(None, W.register if W else None, c)
            self.call(None, W.register if W else None, c)
            m.controllers.append(c)
        elif k in ('limits', 'contact'):
            c = self.new('k')
            if self.real:
                from arboris import constraints, shapes
                if k == 'limits':
                    j = make_joint('RzJoint')
                    self.o[c] = constraints.BallAndSocketConstraint(
                        (self.o['g'], self.o[m.bodies()[-1]]), name=c)
                else:
                    self.o[c] = constraints.SoftFingerContact(
                        (shapes.Sphere(self.o['g'], .1),
                         shapes.Point(self.o[op[1]])), 0.5, name=c)
            self.call(None, W.register if W else None, c)
            m.constraints.append(c)
            if k == 'contact':
                # it brings its two moving frames
                for b in ('g', op[1]):
                    f = self.new('x')
                    m.fbody[f] = b
                    m.frames.append(f)
                    if self.real:
                        got = list(W.itersubframes())
                        i = len(m.frames) - 1
                        require(len(got) > i, 'the frames of a contact are '
                                'not registered')
                        require(isinstance(got[i], self.core.MovingSubFrame),
                                'the frames of a contact must be able to move')
                        self.o[f] = got[i]
            self.call(None, W.register if W else None, c)
        elif k == 'regjoint':
            self.call((ValueError,), W.register if W else None, op[1])
        elif k == 'regbody':
            self.call(None, W.register if W else None, op[1])
        elif k == 'regjunk':
            self.call((ValueError,), W.register if W else None, object())
        elif k == 'init':
            self.call(None, W.init if W else None)
            self.minit()
        else:
            raise RuntimeError(k)

    def mreplace(self, old, links):
        m = self.m
        p, c = links[0][0], links[-1][4]
        i = m.children[p].index(old)
        m.links.pop(old)
        for (pp, f0, l, jt, cc, f1) in links:
            m.links[l] = (jt, pp, f0, cc, f1)
            m.children.setdefault(cc, [])
            m.parent[cc] = l
            for f in (f0, f1):
                if f:
                    self.reg(f)
        for (pp, f0, l, jt, cc, f1) in links[1:]:
            m.children[pp].append(l)
        m.children[p][i] = links[0][2]
        self.minit()

    def minit(self):
        m, n = self.m, 0
        m.dof = {}
        for l in m.joints():
            d = ref.ndof(m.links[l][0])
            m.dof[l] = (n, n + d)
            n += d

    # ---- comparison of all the observables
    def compare(self, cov, op):
        m, w, o = self.m, self.w, self.o
        name = {id(v): k for k, v in o.items()}

        def names(it):
            return [name.get(id(x), '?') for x in it]

        def eq(what, got, want):
            cov.check()
            if got != want:
                raise Violation('after %s: %s is %s instead of %s' % (
                    op, what, got, want))
        bodies, joints = m.bodies(), m.joints()
        eq('iterbodies', names(w.iterbodies()), bodies)
        eq('getbodies', names(w.getbodies()), bodies)
        eq('iterjoints', names(w.iterjoints()), joints)
        eq('itersubframes', names(w.itersubframes()), m.frames)
        eq('iterframes', names(w.iterframes()), bodies + m.frames)
        eq('getframes', names(w.getframes()), bodies + m.frames)
        eq('itershapes', names(w.itershapes()), m.shapes)
        eq('getshapes', names(w.getshapes()), m.shapes)
        eq('iterconstraints', names(w.iterconstraints()), m.constraints)
        eq('getconstraints', names(w.getconstraints()), m.constraints)
        eq('getcontrollers', names(w.getcontrollers()), m.controllers)
        for b in bodies:
            B = o[b]
            eq('children joints of %s' % b, names(B.childrenjoints),
               m.children[b])
            eq('parent joint of %s' % b, names([B.parentjoint])
               if B.parentjoint is not None else [],
               [m.parent[b]] if b in m.parent else [])
            eq('ancestors of %s' % b, names(B.iter_ancestor_bodies()),
               m.ancestors(b))
            eq('ancestor joints of %s' % b, names(B.iter_ancestor_joints()),
               [m.parent[x] for x in [b] + m.ancestors(b) if x in m.parent])
        for l in joints:
            jt, p, f0, c, f1 = m.links[l]
            J = o[l]
            eq('frames of %s' % l, names(J.frames), [f0 or p, f1 or c])
            eq('frames of %s' % l, names([J.frame0, J.frame1]),
               [f0 or p, f1 or c])
        if m.dof is not None:
            n = 0
            for l in joints:
                d = o[l].dof
                eq('dof of %s' % l, (d.start, d.stop), m.dof[l])
                n = m.dof[l][1]
            eq('ndof', w.ndof, n)
            eq('size of gvel', w.gvel.shape, (n,))
            eq('size of gforce', w.gforce.shape, (n,))
            eq('size of mass', w.mass.shape, (n, n))
            eq('size of viscosity', w.viscosity.shape, (n, n))
            eq('size of nleffects', w.nleffects.shape, (n, n))
            eq('getjoints', names(w.getjoints()), joints)
        cov.state(repr(m.key()))


# ------------------------------------------------------------ exploration
def cases(tier):
    thorough = tier == 'thorough'
    for c in search([[]], 3 if thorough else 2):
        yield c
    bases = []
    for n in (2, 3, 4):
        for k, ps in enumerate(itertools.product(
                *[range(-1, i) for i in range(n)])):
            bases.append([['add', 'g' if p < 0 else 'b%d' % p,
                           JT[(i + k) % 4], 'b%d' % i, (i + k) % 2, k % 2]
                          for i, p in enumerate(ps)])
    for c in search(bases, 1 if thorough else 0):
        yield c
    # many links in one call
    for n in range(1, 13):
        for shape in range(6):
            for way in range(4):
                yield {'many': [n, shape, way]}


def search(level, depth):
    seen = set()
    for d in range(depth + 1):
        nxt = []
        for path in level:
            b = Both(False)
            for op in path:
                b.do(op)
            for op in b.m.ops():
                yield {'p': path + [op]}
                if d == depth:
                    continue
                c = Both(False)
                for o in path:
                    c.do(o)
                c.do(op)
                k = c.m.key()
                if k not in seen:
                    seen.add(k)
                    nxt.append(path + [op])
        level = nxt


def run_many(case, cov):
    """n links added in one call are as the same links added one by one, or in
    two calls; and as a chain that replaces a joint."""
    from arboris.core import World, Body, SubFrame
    n, shape, way = case['many']
    parents = [{0: i - 1, 1: -1, 2: (i - 1) // 2 if i else -1, 3: i - 1 - i % 2,
                4: min(i - 1, 1), 5: (7 * i) % i - 1 if i else -1}[shape]
               for i in range(n)]
    parents = [max(-1, min(p, i - 1)) for i, p in enumerate(parents)]

    def content(w):
        return ([(b.name, [j.name for j in b.childrenjoints],
                  b.parentjoint and b.parentjoint.name)
                 for b in w.iterbodies()],
                [(j.name, j.frame0.name, j.frame1.name, j.dof.start,
                  j.dof.stop) for j in w.iterjoints()],
                [f.name for f in w.itersubframes()], w.ndof)
    res = []
    for one in (0, 1):
        w = World()
        bodies = {-1: w.ground}
        args = []
        for i, p in enumerate(parents):
            bodies[i] = Body('b%d' % i)
            f0, f1 = bodies[p], bodies[i]
            if way % 2 and i % 3 != 1:
                f0 = SubFrame(f0, FRAMES[1], 'f%d' % i)
            if way > 1 and i % 2:
                f1 = SubFrame(f1, FRAMES[2], 'g%d' % i)
            args += [f0, make_joint(JT[(i + shape) % 4], label='j%d' % i), f1]
        if one:
            for i in range(n):
                w.add_link(*args[3 * i:3 * i + 3])
        else:
            w.add_link(*args)
        w.init()
        res.append(content(w))
        cov.step(n)
    require(res[0] == res[1], '%s links in one call: %s instead of %s' % (
        parents, res[0], res[1]))
    if shape == 0 and n > 1:
        # the same chain, instead of a joint
        w = World()
        end = Body('b%d' % (n - 1))
        old = make_joint('RzJoint')
        w.add_link(w.ground, old, end)
        chain = [w.ground]
        for i in range(n):
            b = end if i == n - 1 else Body('b%d' % i)
            f0, f1 = chain.pop(), b
            if way % 2 and i % 3 != 1:
                f0 = SubFrame(f0, FRAMES[1], 'f%d' % i)
            if way > 1 and i % 2:
                f1 = SubFrame(f1, FRAMES[2], 'g%d' % i)
            chain += [f0, make_joint(JT[i % 4], label='j%d' % i), f1, b]
        w.replace_joint(old, *chain[:-1])
        require(content(w) == res[0], 'a joint replaced by %d joints: %s '
                'instead of %s' % (n, content(w), res[0]))
        require(tuple(old.frames) == (None, None), 'the old joint')
        cov.check(2)
    cov.check()
    cov.state(res[0])
    cov.nontrivial = n > 1
    cov.traces = 1


def run(case):
    cov = Cov()
    if 'many' in case:
        run_many(case, cov)
        return cov
    b = Both(True)
    path = case['p']
    for op in path[:-1]:
        b.do(op)
        cov.step()
    b.do(path[-1])
    cov.step()
    b.compare(cov, path)
    if path[-1][0] != 'init':
        # and once more when initialized
        b.do(['init'])
        cov.step()
        b.compare(cov, path + ['init'])
    cov.nontrivial = path[-1][0] not in ('init', 'regbody', 'again')
    cov.traces = 1
    return cov
