"""Descriptions of mechanisms, as plain data, and the worlds made of them."""
import numpy as np
from mc.worlds import MASSES, FRAMES, VISC, POSES, make_joint
from mc import ref

DT = 1. / 128
I4 = np.eye(4)


def H(axis, angle, p=(0., 0., 0.)):
    return ref.hom(ref.rotation_from(axis, angle) if angle else np.eye(3),
                   np.array(p, float))


def link(parent, joint, f0, f1, mass, visc='z', k=0, i=0, q=None, dq=None):
    return dict(
        parent=parent, joint=joint, F0=I4 if FRAMES[f0] is None else FRAMES[f0],
        F1=I4 if FRAMES[f1] is None else FRAMES[f1],
        M=np.zeros((6, 6)) if mass == 'z' else ref.spatial_mass(*MASSES[mass]),
        B=np.zeros((6, 6)) if VISC[visc] is None else VISC[visc],
        q=small(joint, k, i) if q is None else np.array(q, float),
        dq=smallv(joint, k, i) if dq is None else np.array(dq, float))


def small(joint, k, i):
    """Moderate positions (the motion is compared over several steps)."""
    if joint == 'FreeJoint':
        return POSES[(1, 2, 3, 0)[(k + i) % 4]].copy()
    return np.array([(0.4, -0.9, 1.3, 0., -0.2)[(2 * j + k + 3 * i) % 5]
                     for j in range(ref.ndof(joint))])


def smallv(joint, k, i):
    return np.array([(0.5, -1.2, 0., 2.1, -0.7)[(3 * j + k + 2 * i) % 5]
                     for j in range(ref.ndof(joint))])


def mechanism(name, k):
    d = dict(links=[], up=np.array([0., 1., 0.]), gravity=None, pd=[],
             limits=[], sockets=[], shapes=[], contacts=[], drop=[],
             t0=0., dt=DT, names=0)
    L = d['links']
    if name == 'chain':
        d['gravity'] = -9.81
        for i, j in enumerate(('RzJoint', 'RxJoint', 'RyJoint', 'TyJoint')):
            L.append(link(i - 1, j, (3, 1, 2, 5)[i], (0, 3, 1, 2)[i],
                          'bdab'[i], 'zgnd'[i], k, i))
    elif name == 'free':
        d['gravity'] = -9.81
        L.append(link(-1, 'FreeJoint', 1, 3, 'b', 'n', k, 0))
        L.append(link(0, 'RzRyRxJoint', 3, 1, 'd', 'z', k, 1))
        L.append(link(0, 'RzRyJoint', 2, 5, 'b', 'g', k, 2))
    elif name == 'floating':
        L.append(link(-1, 'FreeJoint', 0, 0, 'd', 'z', k, 0))
        L.append(link(0, 'RzJoint', 1, 0, 'b', 'z', k, 1))
        L.append(link(1, 'FreeJoint', 0, 3, 'a', 'z', k, 2))
    elif name == 'tree':
        d['gravity'] = 3.
        d['up'] = np.array([0., 0., 1.])
        L.append(link(-1, 'TxTyTzJoint', 3, 2, 'a', 'd', k, 0))
        L.append(link(0, 'RzRxJoint', 1, 0, 'b', 'z', k, 1))
        L.append(link(0, 'RyRxJoint', 0, 3, 'd', 'g', k, 2))
        L.append(link(1, 'RxTyJoint', 2, 1, 'b', 'z', k, 3))
        d['pd'].append(dict(
            joints=[3, 1], kp=40. * np.array(
                [[1., .2, 0, .1], [-.3, 2., .4, 0], [0, .1, 1.5, 0],
                 [.2, 0, 0, .7]]),
            kd=3. * np.array([[1., 0, .2, .1], [0, 2., 0, 0], [0, .1, .5, 0],
                              [.2, 0, .3, .7]]),
            q=np.array([.3, -.1, .8, .2]), v=np.array([1., 0., -2., .5])))
        d['pd'].append(dict(joints=[0], kp=np.diag([10., 20., 0.]),
                            kd=np.diag([0., 1., 5.]), q=np.zeros(3),
                            v=np.array([0., 1., 0.])))
    elif name == 'star':
        d['gravity'] = -9.81
        d['up'] = np.array([0.6, 0., -0.8])
        for i, j in enumerate(('RxJoint', 'RyRxJoint', 'TzJoint', 'TxJoint')):
            L.append(link(-1 if i < 2 else 1, j, (0, 3, 2, 1)[i],
                          (1, 0, 3, 0)[i], 'dbab'[i], 'zndz'[i], k, i))
    elif name == 'rails':
        # only the controllers couple the joints, and in one way
        for i in range(4):
            L.append(link(-1, 'T%sJoint' % 'xyxz'[i], 0, 0, 'a', 'z',
                          k, i))
        g = np.array([[2., 0, 0, 0], [.5, 1., 0, 0], [0, 0, 3., .7],
                      [.4, -.6, 0, 1.]])
        if k == 1:
            g = g.T
        elif k == 2:
            g[1:, 0] = g[0, 1:] = 0.
        d['pd'].append(dict(joints=[0, 1, 2, 3], kp=30. * g,
                            kd=2. * g.dot(np.diag([1., 0., .5, 2.])),
                            q=np.array([.3, -.1, .8, .2]),
                            v=np.array([1., 0., -2., .5])))
    elif name == 'limits':
        d['gravity'] = -9.81
        L.append(link(-1, 'RzRyJoint', 0, 3, 'b', 'z',
                      q=(.499, -.2), dq=(1.5, (-1., 1., 0.)[k])))
        L.append(link(0, 'RxJoint', 1, 0, 'd', 'd', q=[(.7, -.698, 0.)[k]],
                      dq=[(1., -1., 2.)[k]]))
        L.append(link(1, 'TxTyTzJoint', 2, 0, 'b', 'z', q=(.1, -.3, .05),
                      dq=(2., -2., (.5, 0., -.5)[k])))
        d['limits'] = [[0, [-.4, -.204], [.5, .4], [.1, .1]],
                       [1, [-.7], [.702], [.05]],
                       [2, [-1., -.305, .045], [.11, 1., .055],
                        [.05, .05, .05]]]
    elif name == 'loop':
        d['gravity'] = -9.81
        for i, j in enumerate(('RzRyRxJoint', 'RyJoint', 'RzRyRxJoint')):
            L.append(link(i - 1, j, (0, 3, 1)[i], 0, 'bdb'[i], 'z', k, i))
        d['sockets'] = [[-1, None, 2, H((1, 0, 2), .4, (.1, .4, -.2))]]
    elif name == 'pairs':
        L.append(link(-1, 'FreeJoint', 0, 0, 'b', 'z', k, 0))
        L.append(link(-1, 'FreeJoint', 0, 3, 'd', 'z', k, 1))
        L.append(link(1, 'RxJoint', 1, 0, 'a', 'z', k, 2))
        d['sockets'] = [[2, None, 0, H((1, 1, 2), 1.4, (.1, .4, -.2))]]
    elif name == 'closed':
        d['gravity'] = -9.81
        L.append(link(-1, 'FreeJoint', 0, 1, 'b', 'z', k, 0))
        L.append(link(0, 'RzRxJoint', 1, 0, 'd', 'z', k, 1))
        L.append(link(1, 'RyRxJoint', 3, 0, 'b', 'z', k, 2))
        d['sockets'] = [[-1, None, 0, H((1, 0, 0), 0., (.3, 0, .1))],
                        [2, None, -1, H((0, 1, 0), .5, (.6, -.4, .7))]]
    elif name in ('bounce', 'slide'):
        d['gravity'] = -9.81
        L.append(link(-1, 'FreeJoint', 0, 0, 'a', 'z', k, 0,
                      q=H((1, 2, 0), (.7, .2)[name == 'slide'] * k,
                          (.1, .3, -.2)),
                      dq=[.4, -.2 * k, .1, (3., .1, -1.)[k], -.8,
                          (1., 0., -3.)[k]] if name == 'slide' else
                      [0., 0., 0., .2, (-3., -.2, .3)[k], .05]))
        d['shapes'] = [['plane', -1, H((1, 0, 0), .3 * k), (0., 1., 0., 0.)]
                       if name == 'bounce' else
                       ['plane', -1, I4, (0., 2., 0., .008)],
                       ['sphere', 0, H((1, 0, 0), .4, (0, 0, 0)), (.29,)]]
        d['contacts'] = [[0, 1, .4, .05]]
        if name == 'bounce' and k == 2:
            d['contacts'] = [[0, 1, 0., .02]]
    elif name == 'crash':
        L.append(link(-1, 'FreeJoint', 0, 0, 'b', 'z', k, 0, q=H((0, 0, 1), .3),
                      dq=[.1, .2, -.3, .5, 0, 0]))
        L.append(link(-1, 'TxTyTzJoint', 0, 0, 'a', 'z', k, 1,
                      q=((.9, .9, .83)[k], .1 * k, .2), dq=(-2., .4, -.3)))
        L.append(link(1, 'RzRyRxJoint', 0, 0, 'd', 'z', k, 2,
                      q=(.1, -.2, .3), dq=(.5, -1., .6)))
        d['shapes'] = [['box', 0, H((0, 0, 1), .2, (.1, 0, 0)), (.3, .4, .5)]
                       if k < 2 else ['point', 0, H((1, 0, 0), .3, (.4, .1, .1)),
                                      ()],
                       ['sphere', 2, H((1, 0, 0), .2, (.05, 0, 0)), (.48,)]]
        d['contacts'] = [[0, 1, .6, .2]]
    elif name == 'several':
        d['gravity'] = -9.81
        L.append(link(-1, 'FreeJoint', 0, 0, 'a', 'z', k, 0,
                      q=H((1, 2, 0), .7 * k, (0, .301, 0)),
                      dq=[.1, -.2, .3, .2, -1., .1 * k]))
        L.append(link(-1, 'FreeJoint', 0, 0, 'a', 'z', k, 1,
                      q=H((1, 0, 3), .5 * k, (.1, .803, 0.05)),
                      dq=[0, -.2, 0, -.1, -1.5, 0]))
        d['shapes'] = [['plane', -1, I4, (0., 1., 0., 0.)],
                       ['sphere', 0, I4, (.3,)], ['sphere', 1, I4, (.2,)]]
        d['contacts'] = [[0, 1, .3, .05], [1, 2, .5, .05], [0, 2, .4, .05]]
    elif name == 'all':
        d['gravity'] = -9.81
        L.append(link(-1, 'RzRyJoint', 2, 0, 'b', 'd', q=(.49, .2),
                      dq=(1.2, -.5)))
        L.append(link(0, 'RxJoint', 1, 0, 'd', 'z', k, 1))
        L.append(link(-1, 'FreeJoint', 0, 0, 'a', 'z', k, 2,
                      q=H((1, 1, 0), .6 * k, (2., .297, 1.)),
                      dq=[.1, 0, -.1, .5, -1., .3]))
        L.append(link(2, 'RzJoint', 5, 0, 'b', 'z', k, 3))
        d['pd'].append(dict(joints=[1, 3], kp=np.array([[30., 2.], [0., 10.]]),
                            kd=np.diag([3., .5]), q=np.array([.4, -.3]),
                            v=np.array([0., .2])))
        d['limits'] = [[0, [-.5, -.5], [.495, .5], [.1, .1]]]
        d['shapes'] = [['plane', -1, I4, (0., 1., 0., 0.)],
                       ['sphere', 2, I4, (.3,)]]
        d['contacts'] = [[0, 1, .3, .05]]
    # closures that are closed at the beginning
    for s in d['sockets']:
        p = poses(d)
        for a, b in ((0, 2), (2, 0)):
            if s[a + 1] is None:
                R = H((1, 2, 0), .3 * a + .2)
                s[a + 1] = ref.hom(R[:3, :3], ref.hinv(p[s[a]]).dot(
                    p[s[b]].dot(s[b + 1][:, 3]))[:3])
    return d


MECHANISMS = ['chain', 'free', 'floating', 'tree', 'star', 'limits', 'loop',
              'pairs', 'closed', 'bounce', 'slide', 'crash', 'several', 'all',
              'rails']

def poses(d):
    p = {-1: I4}
    for i, l in enumerate(d['links']):
        p[i] = p[l['parent']].dot(l['F0']).dot(
            ref.joint_pose(l['joint'], l['q'])).dot(ref.hinv(l['F1']))
    return p


def frame(w, body, P, name):
    from arboris.core import SubFrame
    if np.array_equal(P, I4):
        return body
    return SubFrame(body, P.copy(), name)


def build(d):
    """The world, the bodies and the joints of a description."""
    from arboris.core import World, Body, simulate as run_simulation
    from arboris.controllers import (WeightController,
                                     ProportionalDerivativeController)
    from arboris.constraints import (JointLimits, BallAndSocketConstraint,
                                     SoftFingerContact)
    from arboris import shapes as sh
    w = World()
    w.up[:] = d['up']
    bodies, joints = {-1: w.ground}, {}

    def label(kind, i):
        if d['names'] == 0:
            return '%s%d' % (kind, i)
        if d['names'] == 1:
            return None
        if d['names'] == 2:
            return 'x%d' % (7 * i % 10)
        return '%s %d' % ('zyxw'[i % 4], i)
    for i in d.get('add', range(len(d['links']))):
        l = d['links'][i]
        bodies[i] = b = Body(name=label('b', i), mass=l['M'].copy(),
                             viscosity=l['B'].copy())
        joints[i] = make_joint(l['joint'], l['q'].copy(), l['dq'].copy(),
                               label('j', i))
        w.add_link(frame(w, bodies[l['parent']], l['F0'], label('f', i)),
                   joints[i], frame(w, b, l['F1'], label('g', i)))
    shapes = []
    for n, (kind, owner, P, dims) in enumerate(d['shapes']):
        f = frame(w, bodies[owner], P, label('s', n))
        if kind == 'plane':
            s = sh.Plane(f, dims)
        elif kind == 'sphere':
            s = sh.Sphere(f, dims[0])
        elif kind == 'box':
            s = sh.Box(f, dims)
        else:
            s = sh.Point(f)
        shapes.append(s)
        w.register(s)
    w.init()
    controllers, constraints = [], []
    if d['gravity'] is not None:
        controllers.append(WeightController(d['gravity']))
    for c in d['pd']:
        controllers.append(ProportionalDerivativeController(
            [joints[i] for i in c['joints']], c['kp'].copy(), c['kd'].copy(),
            c['q'].copy(), c['v'].copy()))
    for i, lo, up, pr in d['limits']:
        constraints.append(JointLimits(joints[i], lo, up, pr))
    for n, (a, Ha, b, Hb) in enumerate(d['sockets']):
        constraints.append(BallAndSocketConstraint(
            (frame(w, bodies[a], Ha, label('p', n)),
             frame(w, bodies[b], Hb, label('q', n)))))
    for a, b, mu, prox in d['contacts']:
        constraints.append(SoftFingerContact((shapes[a], shapes[b]), mu,
                                             proximity=prox))
    if d.get('idle'):
        # acts on nothing
        first_joint = next((j for i, j in sorted(joints.items())
                            if d['links'][i]['joint'] not in
                            ('FreeJoint', 'FixedJoint')), None)
        if d['idle'] == 1:
            controllers.append(WeightController(0.))
            if first_joint is not None:
                n = first_joint.ndof
                controllers.insert(0, ProportionalDerivativeController(
                    [first_joint], np.zeros((n, n)), np.zeros((n, n))))
        else:
            last = bodies[max(bodies)]
            c = BallAndSocketConstraint((w.ground, last))
            c.disable()
            constraints.insert(0, c)
            if first_joint is not None:
                n = first_joint.ndof
                c = JointLimits(first_joint, [9e3] * n, [1e4] * n, [.1] * n)
                c.disable()
                constraints.append(c)
                constraints.append(JointLimits(first_joint, [-1e4] * n,
                                               [1e4] * n, [.1] * n))
    for x in (controllers[::-1] + constraints if d.get('reverse') else
              controllers + constraints):
        w.register(x)
    w.init()
    run_simulation(w, [d['t0']])
    return w, bodies, joints
