"""Robots converted for arboris-matlab."""
import importlib.util
import io
import itertools
import os
import sys
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require, FRAMES, MASSES, mass_matrix, make_joint, \
    qvalue, VEL
from mc import ref

META = dict(
    rule='every tree of joints of the alphabet is converted and written; the '
         'file is read back by an independent reader of that part of the '
         'Matlab language, and its tree (branches, joint axes, frames, mass '
         'matrices, positions, velocities, shapes) gives the poses of all the '
         'bodies, compared with those of the unconverted robot at several '
         'configurations; every robot or world that cannot be written must be '
         'refused; non-trivial: at least two joints',
    bounds='up to 4 joints after the root (5 in the thorough tier), 4 joints '
           'with one dof and 4 with several in every position, 4 kinds of '
           'anchor frames, 4 kinds of names, 5 kinds of shapes, 3 '
           'configurations, 4 types of root',
    assumptions=['Matlab and arboris-matlab are not available: the meaning of '
                 'the fields is the one of their names and of the comments of '
                 'the converters (poses of the joint frames in the bodies, '
                 'linear part of the twists first, joints ordered by branch)'],
)
CHUNK = 16
SINGLE = ['RxJoint', 'RyJoint', 'RzJoint']
MULTI = ['RzRyRxJoint', 'RzRyJoint', 'RyRxJoint', 'RzRxJoint']
ROOTS = ['FreeJoint', 'RzJoint', 'RzRyRxJoint', 'TxJoint']
NAMES = ['distinct', 'none', 'same', 'odd']
ODD = ["Bob's arm", '100% steel', '[1 2; 3', "''", 'a b', '...', 'tree.br(1)',
       'two\nlines']


def converter():
    if 'convert_py2mat' not in sys.modules:
        import arboris
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(arboris.__file__))), 'matlab', 'convert_py2mat.py')
        spec = importlib.util.spec_from_file_location('convert_py2mat', path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['convert_py2mat'] = mod
    return sys.modules['convert_py2mat']


# stars, combs, binary trees and chains of 6 to 16 links
LARGE = [[0] * 8, [0] + [1] * 7, [0, 1, 2] + [3] * 5, list(range(16)),
         [0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6],
         [0, 0, 1, 1, 3, 3, 5, 5, 7, 7], [0, 0, 2, 2, 4, 4, 6, 6, 8, 8],
         [0, 1, 2, 0, 4, 5, 0, 7, 8, 0, 10, 11],
         [0, 1, 2, 2, 1, 1, 0, 0, 3, 4, 7, 7], [0, 1, 2, 3, 3, 2, 1, 0]]


def trees(n):
    """All the parent vectors of n links after the root link."""
    return itertools.product(*[range(i + 1) for i in range(n)])


def cases(tier):
    thorough = tier == 'thorough'
    n = 0
    for size in range(6 if thorough else 5):
        for ps in trees(size):
            for js in itertools.product(range(3), repeat=size):
                if size == 4 and not thorough and (sum(js) + n) % 3 \
                        or size == 5 and (sum(js) + n) % 3:
                    n += 1
                    continue
                for k in range(2 if size > 2 else 8):
                    n += 1
                    yield {'m': 'write', 'p': list(ps), 'j': list(js), 'k': n}
    for ps in LARGE:
        for k in range(6 if thorough else 3):
            n += 1
            yield {'m': 'write', 'p': ps, 'k': n,
                   'j': [(i * k + i // 2) % 3 for i in range(len(ps))]}
            for root in range(len(ROOTS)):
                yield {'m': 'convert', 'r': root, 'p': ps, 'k': n,
                       'j': [(i * k + i // 3 + root) % 7
                             for i in range(len(ps))]}
    for root in range(len(ROOTS)):
        for size in range(4):
            for ps in trees(size):
                for js in itertools.product(range(7 if size < 3 or thorough
                                                  else 4), repeat=size):
                    n += 1
                    if size == 3:
                        if not thorough and (n % 3 or root in (1, 3)):
                            continue
                        js = [(3 + j) % 7 for j in js]
                    yield {'m': 'convert', 'r': root, 'p': list(ps),
                           'j': list(js), 'k': n}
    for r in range(len(REFUSED)):
        for k in range(8 if REFUSED[r] is _controller else 4):
            yield {'m': 'refuse', 'r': r, 'k': k}
    for t in range(len(TIMES)):
        for g in range(len(GRAVITY)):
            yield {'m': 'sim', 't': t, 'g': g}
    for r in range(8):
        yield {'m': 'robot', 'r': r}


def run(case):
    cov = Cov()
    globals()['run_' + case['m']](case, cov)
    cov.traces = 1
    cov.state(case)
    return cov


# ------------------------------------------------------------------- worlds
def label(style, kind, i):
    if style == 0:
        return '%s%d' % (kind, i)
    if style == 1:
        return None
    if style == 2:
        return kind
    return ODD[(i + (kind == 'j')) % len(ODD)]


def build(root, ps, js, k, style, shapes=True):
    """A world, its bodies and joints in the order of the description."""
    from arboris.core import World, Body, SubFrame
    import arboris.shapes as S
    w = World()
    keys = ['b', 'd', 'a', 'c', 'h']
    bodies, joints, made = [], [], []
    for i, (p, j) in enumerate(zip([-1] + list(ps), [root] + list(js))):
        b = Body(label(style, 'b', i), mass=mass_matrix(keys[(k + i) % 5]))
        jt = make_joint(j, label=label(style, 'j', i))
        a, c = FRAMES[(k + i) % 4], FRAMES[(k // 4 + 2 * i) % 4]
        base = w.ground if p < 0 else bodies[p]
        f0 = base if a is None else SubFrame(base, a)
        f1 = b if c is None else SubFrame(b, c)
        w.add_link(f0, jt, f1)
        bodies.append(b)
        joints.append(jt)
    if shapes:
        for i, b in enumerate(bodies):
            for s in range((k + i) % 3):
                kind = (k // 3 + i + 2 * s) % 4
                F = FRAMES[(k // 5 + s) % 4]
                f = b if F is None else SubFrame(b, F)
                sh = [lambda: S.Sphere(f, 0.1 + i),
                      lambda: S.Box(f, (0.1, 0.25 + i, 1. / 3)),
                      lambda: S.Cylinder(f, 1.7, 0.2 + i),
                      lambda: S.Point(f)][kind]()
                sh.name = label(style, 's', i)
                w.register(sh)
                made.append((b, kind, np.eye(4) if F is None else F, sh))
    w.init()
    return w, bodies, joints, made


def spread(jt, q):
    """The values of the joints that replace one."""
    return [np.array([x]) for x in q] if len(q) > 1 else [np.array(q, float)]


def values(j, k, i):
    q = qvalue(j, k, i)
    return q


# ------------------------------------------------------------ Matlab reader
class Matlab(object):
    """The value of every variable assigned in a file made of functions."""

    def __init__(self, text):
        self.vars = {}
        self.functions = []
        self.s = self.clean(text)
        self.i = 0
        self.parse()

    @staticmethod
    def clean(text):
        """Without comments nor continuations."""
        out = []
        for line in text.split('\n'):
            i, quoted = 0, False
            while i < len(line):
                c = line[i]
                if quoted:
                    if c == "'":
                        if line[i + 1:i + 2] == "'":
                            i += 1
                        else:
                            quoted = False
                elif c == "'" and not (i and (line[i - 1].isalnum() or
                                              line[i - 1] in ")]}'_.")):
                    quoted = True
                elif c == '%':
                    line = line[:i]
                    break
                elif line[i:i + 3] == '...':
                    line = line[:i] + '\0'
                    break
                i += 1
            require(not quoted, 'string that is not closed: %r' % line)
            out.append(line)
        return '\n'.join(out).replace('\0\n', ' ')

    def skip(self, chars=' \t\n;'):
        while self.i < len(self.s) and self.s[self.i] in chars:
            self.i += 1

    def parse(self):
        self.depth = 0
        while True:
            self.skip()
            if self.i >= len(self.s):
                return
            line = self.s[self.i:].split('\n')[0].strip()
            first = line.split()[0].strip(';')
            if first in ('function', 'global', 'if', 'end', 'exit'):
                if first == 'function':
                    self.functions.append(line)
                self.i += len(self.s[self.i:].split('\n')[0])
                if first == 'global':
                    continue
                continue
            self.statement()

    def statement(self):
        s = self.s
        depth, j = 0, self.i
        # the left side
        while j < len(s) and s[j] not in '=\n;':
            j += 1
        if j >= len(s) or s[j] != '=':
            self.i = j          # a call
            return
        left = s[self.i:j].strip()
        self.i = j + 1
        self.skip(' \t')
        self.vars.setdefault(left, []).append(self.value())
        self.skip(' \t')
        require(self.i >= len(s) or s[self.i] in ';\n', 'end of the value of '
                '%s: %r' % (left, s[self.i:self.i + 40]))

    def value(self):
        s = self.s
        c = s[self.i]
        if c == '[':
            v = self.matrix()
        elif c == '{':
            v = self.cell()
        elif c == "'":
            v = self.string()
        elif c.isalpha():
            j = self.i
            depth = 0
            while j < len(s) and (depth or s[j] not in ';\n'):
                depth += (s[j] == '(') - (s[j] == ')')
                j += 1
            v = s[self.i:j].strip()
            self.i = j
            base = v.rstrip("'")
            if base.startswith('eye('):
                return np.eye(int(base[4:-1]))
            return ('call', v)
        else:
            v = np.array([[self.number()]])
        if self.i < len(s) and s[self.i] == "'":
            v = v.T
            self.i += 1
        return v

    def number(self):
        s = self.s
        j = self.i
        while j < len(s) and (s[j].isdigit() or s[j] in '+-.eE'):
            j += 1
        try:
            v = float(s[self.i:j])
        except ValueError:
            require(False, 'number %r' % s[self.i:self.i + 30])
        self.i = j
        return v

    def string(self):
        s = self.s
        self.i += 1
        out = ''
        while True:
            require(self.i < len(s) and s[self.i] != '\n',
                    'string that is not closed')
            if s[self.i] == "'":
                if s[self.i + 1:self.i + 2] == "'":
                    out += "'"
                    self.i += 2
                    continue
                self.i += 1
                return out
            out += s[self.i]
            self.i += 1

    def matrix(self):
        s = self.s
        self.i += 1
        rows, row = [], []
        while True:
            self.skip(' \t,')
            require(self.i < len(s), 'matrix that is not closed')
            c = s[self.i]
            if c in '\n;]':
                if row:
                    require(len(set(r.shape[0] for r in row)) == 1,
                            'heights in a row of a matrix')
                    rows.append(np.hstack(row))
                row = []
                self.i += 1
                if c == ']':
                    break
            elif c == '[':
                row.append(self.matrix())
            else:
                row.append(np.array([[self.number()]]))
        rows = [r for r in rows if r.size]
        if not rows:
            return np.zeros((0, 0))
        require(len(set(r.shape[1] for r in rows)) == 1, 'rows of different '
                'lengths in a matrix: %s' % [r.shape[1] for r in rows])
        return np.vstack(rows)

    def cell(self):
        depth, j = 0, self.i
        while True:
            require(j < len(self.s), 'cell that is not closed')
            depth += (self.s[j] == '{') - (self.s[j] == '}')
            j += 1
            if not depth:
                break
        v = self.s[self.i + 1:j - 1]
        self.i = j
        return ('cell', v)


AXES = {(3,): 'RxJoint', (4,): 'RyJoint', (5,): 'RzJoint'}


class Robot(object):
    """The robot of a file."""

    def __init__(self, text, what):
        require('SOMETHING WENT MAD' not in text, what + ': marked as wrong')
        self.m = Matlab(text)
        v = self.m.vars
        for k, x in v.items():
            require(len(x) == 1, what + ': %s is given %d times' % (k, len(x)))
        get = lambda k: v[k][0]
        self.links = []
        br = 0
        index = {}
        while 'tree.br(%d).name' % (br + 1) in v:
            br += 1
            cell = get('tree.br(%d).root_jk' % br)
            require(cell[0] == 'cell', what + ': root_jk')
            pb, pd = [int(x) for x in cell[1].split()]
            bd = 0
            while 'tree.br(%d).bd(%d).name' % (br, bd + 1) in v:
                bd += 1
                pre = 'tree.br(%d).bd(%d).' % (br, bd)
                if bd == 1:
                    require((pb, pd) == (0, 0) or (pb, pd) in index,
                            what + ': branch %d is attached to %s' % (
                                br, (pb, pd)))
                    require((pb, pd) != (0, 0) or br == 1,
                            what + ': two roots')
                    parent = index.get((pb, pd), -1)
                else:
                    parent = index[br, bd - 1]
                E = np.asarray(get(pre + 'E'))
                if E.shape == (6, 6):
                    require(np.array_equal(E, np.eye(6)), what + ': E')
                    joint = 'FreeJoint'
                else:
                    require(E.shape == (6, 1) and E.sum() == 1. and
                            (E != 0).sum() == 1, what + ': E = %s' % E)
                    joint = AXES[tuple(np.nonzero(E[:, 0])[0])]
                l = dict(parent=parent, joint=joint, name=get(pre + 'name'),
                         F0=get(pre + 'H_0_0L1'), F1=get(pre + 'H_1_1L0'),
                         M=get(pre + 'M'), shapes=[])
                require(l['F0'].shape == l['F1'].shape == (4, 4) and
                        l['M'].shape == (6, 6), what + ': shapes of matrices')
                k = 0
                while pre + 'shape(%d).type' % (k + 1) in v:
                    k += 1
                    p = pre + 'shape(%d).' % k
                    l['shapes'].append((get(p + 'type'),
                                        np.ravel(get(p + 'dims')),
                                        get(p + 'H')))
                index[br, bd] = len(self.links)
                self.links.append(l)
        self.H0 = get('robot.model.H0')
        self.q = np.ravel(v['robot.model.q'][0])
        self.T = np.ravel(get('robot.model.T'))
        n = sum('.bd(' in k and k.endswith('.name') for k in v)
        require(n == len(self.links), what + ': %d bodies are numbered, %d are '
                'given' % (len(self.links), n))
        ns = sum('.shape(' in k and k.endswith('.type') for k in v)
        require(ns == sum(len(l['shapes']) for l in self.links),
                what + ': numbers of the shapes')
        require(self.H0.shape == (4, 4), what + ': H0')
        require(len(self.q) == len(self.links) - 1 and
                len(self.T) == len(self.q) + 6, what + ': %d positions and %d '
                'velocities for %d joints' % (len(self.q), len(self.T),
                                              len(self.links)))
        require(self.links[0]['joint'] == 'FreeJoint' and
                self.links[0]['parent'] == -1 and
                all(l['joint'] != 'FreeJoint' for l in self.links[1:]),
                what + ': the free joint is not the root')

    def poses(self):
        out = []
        for i, l in enumerate(self.links):
            Hj = self.H0 if i == 0 else ref.joint_pose(l['joint'],
                                                       [self.q[i - 1]])
            P = np.eye(4) if l['parent'] < 0 else out[l['parent']]
            out.append(P.dot(l['F0']).dot(Hj).dot(np.linalg.inv(l['F1'])))
        return out


def flip(M):
    i = [3, 4, 5, 0, 1, 2]
    return M[np.ix_(i, i)]


def write(w, what, root=None, gen=None):
    mod = converter()
    s = io.StringIO()
    (gen or mod.MatlabRobotGenerator(w)).make_robot(
        root or w.ground.childrenjoints[0], s, 'robot')
    r = Robot(s.getvalue(), what)
    require(any('create_robot' in f for f in r.m.functions),
            what + ': the function is missing')
    return r


def match(r, bodies, w, what):
    """The index in the file of every body of the world, by position."""
    order = [j.frames[1].body for j in w.getjoints()]
    return dict((id(b), i) for i, b in enumerate(order))


def compare(r, w, bodies, made, what, cov, tol=1e-9):
    """The robot of the file is the one of the world."""
    joints = list(w.getjoints())
    require(len(r.links) == len(joints), what + ': %d bodies in the file' %
            len(r.links))
    order = [j.frames[1].body for j in joints]
    w.update_geometric()
    P = r.poses()
    T = np.hstack([np.hstack([joints[0].gvel[3:], joints[0].gvel[:3]])] +
                  [j.gvel for j in joints[1:]])
    # (the joints of the world are in the depth first order, like the file)
    for i, (j, b) in enumerate(zip(joints, order)):
        l = r.links[i]
        require(l['joint'] == type(j).__name__, what + ': joint %d is a %s' % (
            i, l['joint']))
        require(l['name'] == ' '.join(str(j.name).split()), what + ': joint %r is named %r' % (
            j.name, l['name']))
        same(what + ': pose of body %d' % i, P[i], b.pose, tol)
        same(what + ': frame of joint %d in its parent' % i, l['F0'],
             j.frames[0].bpose, 1e-12)
        same(what + ': frame of joint %d in its child' % i, l['F1'],
             j.frames[1].bpose, 1e-12)
        same(what + ': mass of body %d' % i, l['M'], flip(b.mass), 1e-12)
        cov.check(5)
    same(what + ': velocities', r.T, T, 1e-12)
    index = dict((id(b), i) for i, b in enumerate(order))
    want = dict((i, []) for i in range(len(order)))
    for b, kind, H, sh in made:
        k = index[id(b)]
        if kind == 0:
            want[k].append(('sphere', [sh.radius], H))
        elif kind == 1:
            want[k].append(('parallelepiped', 2 * np.array(sh.half_extents), H))
        elif kind == 2:
            want[k].append(('cylinder', [sh.radius, sh.length], H))
        else:
            want[k].append(('sphere', None, H))
    if not made:
        require(all(len(l['shapes']) == (i == 0)
                    for i, l in enumerate(r.links)),
                what + ': arboris-matlab needs a shape')
        return
    for i, l in enumerate(r.links):
        require(len(l['shapes']) == len(want[i]), what + ': %d shapes on body '
                '%d instead of %d' % (len(l['shapes']), i, len(want[i])))
        for (t, d, H), (wt, wd, wH) in zip(l['shapes'], want[i]):
            require(t == wt, what + ': shape %s instead of %s' % (t, wt))
            if wd is not None:
                same(what + ': size of a %s' % t, d, np.array(wd, float),
                     1e-12)
            else:
                require(d.shape == (1,) and 0 < d[0] < 0.1, what + ': point')
            same(what + ': frame of a %s' % t, H, wH, 1e-12)
            cov.check(3)


# -------------------------------------------------------------------- modes
def run_write(case, cov):
    k = case['k']
    js = [SINGLE[j] for j in case['j']]
    w, bodies, joints, made = build('FreeJoint', case['p'], js, k, k // 2 % 4,
                                    k % 7 != 3)
    from arboris.core import World
    what = 'robot %s of %s' % (case['p'], js)
    # (one generator for all the files)
    gen = converter().MatlabRobotGenerator(w)
    for c in range(2):
        for i, j in enumerate(joints):
            j.gpos[:] = values(type(j).__name__, k + 5 * c, i)
            j.gvel[:] = [VEL[(k + i + x + c) % len(VEL)]
                         for x in range(j.ndof)]
        r = write(w, what, None, gen)
        # (long and unequal numbers are written with at least 14 digits)
        compare(r, w, bodies, made, what, cov)
        cov.step()
    cov.nontrivial = len(js) > 1
    if k % 4:
        return
    # another robot in the same world: each has its own file
    text = one(gen, w.ground.childrenjoints[0])
    second = robot2(w, k)
    alone = World()
    want = one(converter().MatlabRobotGenerator(alone), robot2(alone, k))
    for x, (root, t) in enumerate([(w.ground.childrenjoints[0], text),
                                   (second, want), (second, want),
                                   (w.ground.childrenjoints[0], text)]):
        require(one(gen, root) == t, what + ': file %d of a world with two '
                'robots' % x)
        cov.check(1)
        cov.step()


def one(gen, root):
    s = io.StringIO()
    gen.make_robot(root, s, 'robot')
    return s.getvalue()


def robot2(w, k):
    from arboris.core import Body
    from arboris.shapes import Sphere
    a, b = Body('A', mass=mass_matrix('d')), Body('B', mass=mass_matrix('a'))
    root = make_joint('FreeJoint', label='R')
    w.add_link(w.ground, root, a, a, make_joint('RzJoint', label='S'), b)
    w.register(Sphere(b, 0.25))
    w.init()
    root.gpos[:] = values('FreeJoint', k + 3, 0)
    b.parentjoint.gpos[:] = values('RzJoint', k + 3, 1)
    return root


def run_convert(case, cov):
    mod = converter()
    k = case['k']
    pool = SINGLE + MULTI
    root = ROOTS[case['r']]
    js = [pool[j] for j in case['j']]
    style = k % 3
    args = root, case['p'], js, k, style
    w, bodies, joints, made = build(*args)
    old, obodies, ojoints, _ = build(*args)
    names = [j.name for j in joints]
    masses = [b.mass.copy() for b in bodies]
    what = 'conversion of %s on %s' % (js, root)
    ground0 = len(list(w.getshapes()))
    conv = mod.MatlabConverter()
    conv.convert_robot(w, joints[0])
    w.init()
    # the joints that replace each one
    new = {}
    for i, (j, b) in enumerate(zip(joints, bodies)):
        chain = []
        n = 1 if i == 0 else max(1, ref.ndof(type(j).__name__))
        x = b
        for c in range(n):
            pj = x.parentjoint
            chain.insert(0, pj)
            x = pj.frames[0].body
        new[i] = chain
        p = -1 if i == 0 else case['p'][i - 1]
        if i:
            require(x is bodies[p], what + ': parent of body %d' % i)
            letters = [ref.JOINTS[type(j).__name__][c] for c in range(n)]
            for c, (q, (kind, ax)) in enumerate(zip(chain, letters)):
                require(type(q).__name__ == 'R' + 'xyz'[ax] + 'Joint',
                        what + ': joint %s' % type(q).__name__)
                if n > 1:
                    require(q.name == (None if names[i] is None else
                                       names[i] + 'R' + 'xyz'[ax]),
                            what + ': name %r' % q.name)
                else:
                    require(q is j and q.name == names[i], what + ': changed')
                if c:
                    m = q.frames[0].body.mass
                    require(0 < np.linalg.norm(m) < 0.1 and
                            np.allclose(m, m.T) and
                            np.linalg.eigvalsh(m).min() > 0,
                            what + ': mass of the added body %s' % m)
        elif root == 'FreeJoint':
            require(x is w.ground and chain == [j], what + ': the root')
        else:
            require(chain == [j], what + ': the root joint')
            pj = x.parentjoint
            require(type(pj).__name__ == 'FreeJoint' and
                    pj.frames[0].body is w.ground, what + ': new root')
            require(x.mass[3, 3] > 100., what + ': mass of the base')
            feet = [s for s in w.getshapes() if s.frame.body is x]
            require(len(feet) == 4 and all(type(s).__name__ == 'Sphere' and
                                           s.radius > 0. for s in feet) and
                    len(set(tuple(s.frame.bpose[:3, 3]) for s in feet)) == 4,
                    what + ': shapes of the base')
            made = made + [(x, 0, s.frame.bpose, s) for s in feet]
            require([type(c).__name__ for c in w.iterconstraints()] ==
                    ['SoftFingerContact'] * 4, what + ': contacts of the base')
            require(len(list(w.getshapes())) == ground0 + 5,
                    what + ': shapes added')
        same(what + ': mass of body %d' % i, b.mass, masses[i], 1e-15)
    total = sum(len(c) for c in new.values()) + (root != 'FreeJoint')
    require(len(list(w.getjoints())) == total and
            len(list(w.getbodies())) == total + 1,
            what + ': %d joints' % len(list(w.getjoints())))
    # the same poses, in the world and in the file
    for c in range(3):
        for i, oj in enumerate(ojoints):
            q = values(type(oj).__name__, k + c, i)
            oj.gpos[:] = q
            if i == 0:
                joints[0].gpos[:] = q
            else:
                for jt, x in zip(new[i], q):
                    jt.gpos[:] = x
        old.update_geometric()
        w.update_geometric()
        if c == 0 or root != 'FreeJoint':
            for b, ob in zip(bodies, obodies):
                same(what + ': pose of %s' % b.name, b.pose, ob.pose, 1e-9)
        if root in ('FreeJoint', 'RzJoint'):
            r = write(w, what + ', written')
            compare(r, w, bodies, made, what + ', written', cov)
            order = [j.frames[1].body for j in w.getjoints()]
            P = r.poses()
            for b, ob in zip(bodies, obodies):
                i = [x is b for x in order].index(True)
                same(what + ': pose of %s in the file' % b.name, P[i], ob.pose,
                     1e-9)
        cov.check(len(bodies) * 2)
        cov.step()
    if root == 'FreeJoint':
        require(len(list(w.getshapes())) == ground0, what + ': shapes added')
    cov.nontrivial = len(js) > 1


TIMES = [[0., 0.1, 0.2, 0.3], [1.5, 1.75, 2.], np.arange(0, 1., 0.01),
         np.arange(-1., 1., 0.3), np.linspace(0, 1., 11), [0., 0.005],
         [0., 0.1, 0.3], [0., 0.1, 0.15, 0.3, 0.4], [0., 1., 2., 3., 4.5],
         [0., 0.1, 0.2, 0.3, 0.31]]
EVEN = 6
GRAVITY = [None, (-9.81, (0, 1, 0)), (-9.81, (0, 0, 1)), (3., (1, 0, 0)),
           (-1.62, (0.6, 0., 0.8))]


def run_sim(case, cov):
    mod = converter()
    from arboris.controllers import WeightController
    w, bodies, joints, made = build('FreeJoint', [0, 1], SINGLE[:2],
                                    case['t'] + case['g'], 0)
    g = GRAVITY[case['g']]
    if g:
        w._up[:] = g[1]     # (as the examples do)
        w.register(WeightController(g[0]))
        w.init()
    s = io.StringIO()
    times = TIMES[case['t']]
    what = 'simulation at %s' % (list(times[:4]),)
    try:
        mod.MatlabSimulationGenerator().generate_simulation(w, times, s, 'xp')
        done = True
    except mod.GenerationError:
        done = False
    require(done == (case['t'] < EVEN), what + (': refused' if not done else
                                                ': accepted'))
    cov.check(1)
    cov.step()
    if not done:
        return
    text = s.getvalue()
    main, rest = text.split('function robot = ')
    v = Matlab(main).vars
    dt = float(v['dt'][0][0, 0])
    same(what + ': step', dt, times[1] - times[0], 1e-12)
    same(what + ': start', float(v['t_start'][0][0, 0]), times[0], 1e-12)
    end = float(v['t_end'][0][0, 0])
    require(times[-2] < end < times[-1] + 1e-9, what + ': end %g' % end)
    acc = np.ravel(v['r(1).model.GravityAcceleration'][0])
    want = np.zeros(6)
    if g:
        want[:3] = g[0] * np.array(g[1])
    same(what + ': gravity', acc, want, 1e-9)
    r = Robot('function robot = ' + rest, what)
    compare(r, w, bodies, made, what, cov)
    require('xp' in main and 'create_robot' in main, what + ': names')
    cov.nontrivial = True


def _free_inside(k):
    w, b, j, m = build('FreeJoint', [0] + [1] * k,
                       ['FreeJoint'] + ['RxJoint'] * k, k, 0)
    return w, False


def _multi(k):
    w, b, j, m = build('FreeJoint', [0, 1], ['RzJoint', MULTI[k]], k, 0)
    return w, False


def _other(k):
    w, b, j, m = build('FreeJoint', [0], [['TxJoint', 'TzJoint', 'FixedJoint',
                                           'TxTyTzJoint'][k]], k, 0)
    return w, False


def _root(k):
    w, b, j, m = build(['RzJoint', 'FixedJoint', 'RzRyRxJoint',
                        'TxTyTzJoint'][k], [0], ['RxJoint'], k, 0)
    return w, False


def _two(k):
    w, b, j, m = build('FreeJoint', [0], ['RxJoint'], k, 0, False)
    from arboris.core import Body
    w.add_link(w.ground, make_joint(['FreeJoint', 'RzJoint', 'FreeJoint',
                                     'FixedJoint'][k]), Body())
    w.init()
    return w, True


def _constraint(k):
    from arboris.constraints import JointLimits, BallAndSocketConstraint
    w, b, j, m = build('FreeJoint', [0], ['RxJoint'], k, 0)
    w.register(JointLimits(j[1], [-1.], [1.]) if k % 2 else
               BallAndSocketConstraint((w.ground, b[1])))
    return w, True


def _controller(k):
    from arboris.controllers import WeightController, \
        ProportionalDerivativeController
    w, b, j, m = build('FreeJoint', [0], ['RxJoint'], k, 0)
    if k >= 3:
        for g in [(-9.81, -9.81), (-9.81, -1.), (-1., 3.), (2., -2.),
                  (1e-9, 4.)][k - 3]:
            w.register(WeightController(g))
    else:
        w.register(ProportionalDerivativeController([j[1]], [[1.]], [[1.]],
                                                    [0.], [0.]))
        if k:
            w.register(WeightController())
    w.init()
    return w, True


def _plane(k):
    from arboris.shapes import Plane, Sphere
    w, b, j, m = build('FreeJoint', [0], ['RxJoint'], k, 0, k % 2 == 0)
    if k > 1:
        w.register(Sphere(b[0], 1.))
    w.register(Plane(b[k % 2], (0., 1., 0., 0.)))
    return w, False


REFUSED = [_free_inside, _multi, _other, _root, _two, _constraint, _controller,
           _plane]


def run_refuse(case, cov):
    """What cannot be written is refused."""
    mod = converter()
    w, sim = REFUSED[case['r']](case['k'])
    what = 'what cannot be written, %d %d' % (case['r'], case['k'])
    for one in (True, False):
        if one and sim:
            continue
        s = io.StringIO()
        try:
            if one:
                mod.MatlabRobotGenerator(w).make_robot(
                    w.ground.childrenjoints[0], s, 'r')
            else:
                mod.MatlabSimulationGenerator().generate_simulation(
                    w, [0., 0.1, 0.2], s, 'r')
        except mod.GenerationError:
            pass
        else:
            require(False, what + ': accepted')
        cov.check(1)
        cov.step()


def run_robot(case, cov):
    """The robots of arboris."""
    mod = converter()
    from arboris.core import World
    from arboris.robots.human36 import add_human36
    from arboris.robots.snake import add_snake
    from arboris.robots.simplearm import add_simplearm
    k = case['r']

    def make():
        w = World()
        if k < 3:
            add_human36(w, height=1.5 + 0.2 * k, prefix=['', "Bob's ", 'x'][k])
        elif k < 5:
            add_snake(w, 3 if k == 3 else 30, is_fixed=False)
        elif k < 7:
            add_simplearm(w, with_shapes=k == 6)
        else:
            add_snake(w, 4, is_fixed=True)
        return w
    w, old = make(), make()
    olds = list(old.getjoints())
    bodies = list(w.getbodies())[1:]
    obodies = list(old.getbodies())[1:]
    joints = list(w.getjoints())
    mod.MatlabConverter().convert_robot(w, joints[0])
    w.init()
    for c in range(3):
        for i, (b, j) in enumerate(zip(obodies, olds)):
            q = values(type(j).__name__, c + i, i)
            j.gpos[:] = q
            if i == 0:
                joints[0].gpos[:] = q
                continue
            x = bodies[i]
            for v in list(q)[::-1]:
                x.parentjoint.gpos[:] = v
                x = x.parentjoint.frames[0].body
        old.update_geometric()
        w.update_geometric()
        r = write(w, 'robot %d' % k)
        P = r.poses()
        order = [j.frames[1].body for j in w.getjoints()]
        for b, ob in zip(bodies, obodies):
            same('robot %d: %s' % (k, b.name), b.pose, ob.pose, 1e-9)
            i = [x is b for x in order].index(True)
            same('robot %d: %s in the file' % (k, b.name), P[i], ob.pose, 1e-9)
            same('robot %d: mass' % k, r.links[i]['M'], flip(ob.mass), 1e-12)
            cov.check(3)
        cov.step()
    on = sum(s.frame.body is not w.ground for s in w.getshapes())
    require(sum(len(l['shapes']) for l in r.links) == max(on, 1),
            'robot %d: shapes' % k)
    cov.nontrivial = True
