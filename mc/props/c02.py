"""The generalized velocity shared by the world and its joints."""
import itertools
import numpy as np
from mc.engine import Cov, Violation
from mc.worlds import Sim, same, require, make_joint
from mc import ref

META = dict(
    rule='all the sequences of operations (write or assign the position or '
         'the velocity of a joint, init, modify the returned copies, add a '
         'link, replace a joint, integrate) are run on a real world along a '
         'model of who owns which velocity; after every operation gvel, the '
         'joints and the dof indices (of every ordered selection of at most 3 '
         'joints) are compared; non-trivial: some velocity was written',
    bounds='6 worlds of 1 to 4 joints (0, 1, 2, 3 and 6 dof, permuted), '
           'sequences of 3 (quick) or 4 (thorough) operations',
)
CHUNK = 40
BASES = [
    [[-1, 'RzJoint', 0, 0, 'b', 'z']],
    [[-1, 'FreeJoint', 1, 0, 'b', 'z'], [0, 'RzRyRxJoint', 0, 1, 'a', 'z']],
    [[-1, 'RzJoint', 0, 0, 'a', 'z'], [0, 'FixedJoint', 1, 0, 'b', 'z'],
     [-1, 'TxTyTzJoint', 0, 2, 'b', 'z']],
    [[-1, 'RzRyJoint', 0, 0, 'b', 'z'], [0, 'RxJoint', 0, 0, 'b', 'z'],
     [0, 'TzJoint', 3, 0, 'b', 'z'], [-1, 'FreeJoint', 0, 0, 'b', 'z']],
    [[-1, 'FixedJoint', 0, 0, 'b', 'z'], [0, 'RzRxJoint', 0, 0, 'b', 'z'],
     [-1, 'FixedJoint', 0, 0, 'b', 'z']],
    [[-1, 'RyRxJoint', 0, 0, 'b', 'z'], [-1, 'RxTyJoint', 0, 0, 'b', 'z'],
     [-1, 'TyJoint', 0, 0, 'b', 'z'], [2, 'RyJoint', 1, 3, 'b', 'z']],
]


def alphabet(links):
    ops = [['init'], ['copy'], ['step', 0.01], ['add', -1, 'RzJoint'],
           ['add', 0, 'FreeJoint']]
    for i, l in enumerate(links):
        if l[1] != 'FixedJoint':
            ops += [['wv', i], ['av', i], ['wq', i], ['aq', i]]
        ops.append(['rep', i, 'RzRyJoint'])
    ops.append(['rep', 0, 'FixedJoint'])
    ops.append(['rep', 0, 'FreeJoint'])
    return ops


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for b, links in enumerate(BASES):
        for ops in itertools.product(alphabet(links), repeat=n):
            yield {'b': b, 'o': list(ops)}


def values(n, joint, kind):
    d = ref.ndof(joint)
    if kind == 'q' and joint == 'FreeJoint':
        return ref.hom(ref.rotation_from((1, n, 2), 0.3 * n), [n, 0.5, -n])
    return np.array([(-1) ** (n + i) * (0.1 * n + 0.01 * i + 0.005)
                     for i in range(d)])


def run(case):
    from arboris.core import Body, JointsList
    cov = Cov()
    sim = Sim(BASES[case['b']], k=1, vk=1)
    w = sim.world
    links = [list(l) for l in sim.spec]
    joints = [sim.joints[i] for i in range(len(links))]
    q = {i: sim.q[i] for i in range(len(links))}
    v = {i: sim.dq[i] for i in range(len(links))}
    wv = dict(v)                     # what the world knows
    own = {i: True for i in v}       # joint velocity is a view of the world's
    order = list(sim.tree.order)
    ready = True

    def depth_first():
        return ref.Tree([dict(parent=l[0], joint=l[1], F0=None, F1=None)
                         for l in links]).order

    def compare(op):
        for i, j in enumerate(joints):
            if links[i][1] == 'FixedJoint':
                continue
            same('%s: gvel of joint %d' % (op, i), j.gvel, v[i], 1e-12)
            same('%s: gpos of joint %d' % (op, i), j.gpos, q[i], 1e-12)
            cov.check(2)
        if ready:
            full = np.concatenate([wv[i] for i in order] + [np.zeros(0)])
            same('%s: gvel of the world' % op, w.gvel, full, 1e-12)
            cov.check()
        cov.state(repr([l[:2] for l in links]), ready, [v[i] for i in sorted(v)],
                  [wv.get(i, 0) for i in sorted(v)], sorted(own.items()))

    def dofs():
        pos, n = {}, 0
        for i in order:
            d = ref.ndof(links[i][1])
            pos[i] = list(range(n, n + d))
            n += d
        idx = np.arange(n)
        require(w.ndof == n, 'ndof is %s instead of %d' % (w.ndof, n))
        for r in (1, 2, 3):
            for sel in itertools.permutations(range(len(joints)), r):
                want = sum([pos[i] for i in sel], [])
                dof = JointsList([joints[i] for i in sel]).dof
                got = idx[dof].tolist() if not (isinstance(dof, list) and
                                                not dof) else []
                require(got == want, 'dof of joints %s: %s instead of %s' % (
                    sel, got, want))
                cov.check()
        require(idx[w.getjoints().dof].tolist() == list(range(n)),
                'dof of all the joints')

    compare('start')
    dofs()
    old = None
    for n, op in enumerate(case['o'], 1):
        k = op[0]
        cov.step()
        if k in ('wv', 'av', 'wq', 'aq', 'rep') and \
                links[op[1]][1] == 'FixedJoint' and k != 'rep':
            continue
        if k == 'wv':
            i = op[1]
            x = values(n, links[i][1], 'v')
            joints[i].gvel[:] = x
            v[i] = x
            if own[i]:
                wv[i] = x
            cov.nontrivial = True
        elif k == 'av':
            i = op[1]
            x = values(n, links[i][1], 'v')
            joints[i].gvel = x.copy()
            v[i] = x
            own[i] = False
            cov.nontrivial = True
        elif k in ('wq', 'aq'):
            i = op[1]
            x = values(n, links[i][1], 'q')
            if k == 'wq':
                joints[i].gpos[:] = x
            else:
                joints[i].gpos = x.copy()
            q[i] = x
        elif k == 'copy':
            for c in (w.gvel, w.gforce, w.admittance):
                c[...] = 99.
        elif k == 'init':
            w.init()
            order = depth_first()
            wv = dict(v)
            own = {i: True for i in v}
            ready = True
        elif k == 'add':
            p, jt = op[1], op[2]
            i = len(links)
            x, y = values(n, jt, 'q'), values(n, jt, 'v')
            j = make_joint(jt, x, y, 'new%d' % i)
            parent = w.ground if p < 0 else sim.bodies[p]
            b = Body('nb%d' % i, mass=np.eye(6))
            w.add_link(parent, j, b)
            sim.bodies[i] = b
            links.append([p, jt])
            joints.append(j)
            q[i], v[i], own[i] = x, y, False
            ready = False
        elif k == 'rep':
            i, jt = op[1], op[2]
            x, y = values(n, jt, 'q'), values(n, jt, 'v')
            if jt == 'FixedJoint':
                x, y = np.zeros((0, 0)), np.zeros(0)
            j = make_joint(jt, x, y, 'rep%d' % n)
            gone = (joints[i], np.array(joints[i].gvel))
            w.replace_joint(joints[i], j)
            links[i][1] = jt
            joints[i] = j
            q[i], v[i] = x, y
            # (the world initializes itself)
            order = depth_first()
            wv = dict(v)
            own = {i: True for i in v}
            ready = True
            same('velocity of the replaced joint', gone[0].gvel, gone[1], 1e-12)
        elif k == 'step':
            if not ready or not all(own.values()):
                continue
            w.update_dynamic()
            try:
                w.update_controllers(op[1])
            except np.linalg.LinAlgError:
                continue        # massless chain: no dynamics
            w.update_constraints(op[1])
            # the copies are the caller's
            Y, M, g, x0 = [np.array(a) for a in (w.admittance, w.mass,
                                                 w.gforce, w.gvel)]
            w.admittance[...] = 5.
            w.gvel[...] = -3.
            w.gforce[...] = 7.
            w.integrate(op[1])
            same('%s: velocity integrated after the modification of the '
                 'copies' % op, w.gvel, Y.dot(M.dot(x0) / op[1] + g), 1e-9)
            cov.check()
            full = w.gvel
            c = 0
            for i in order:
                d = ref.ndof(links[i][1])
                v[i] = wv[i] = full[c:c + d].copy()
                c += d
                q[i] = np.array(joints[i].gpos)
        compare('%s (operation %d)' % (op, n))
        if ready:
            dofs()
    cov.traces = 1
    return cov
