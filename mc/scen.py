"""Complete small simulations, built from scratch at each call.

build(name) returns a dict: world, joints, and whatever the checks look at.
"""
import numpy as np
from mc import ref
from mc.worlds import MASSES


def body(name, key='b'):
    from arboris.core import Body
    return Body(name=name, mass=ref.spatial_mass(*MASSES[key]))


def arm(w, n=3, free=False, names='', **kw):
    from arboris.core import SubFrame
    from arboris.joints import RzJoint, RxJoint, FreeJoint
    f = w.ground
    out = []
    for i in range(n):
        b = body('%sarm%d' % (names, i), 'bd'[i % 2])
        cls = FreeJoint if (free and i == 0) else (RzJoint, RxJoint)[i % 2]
        j = cls(name='%sjoint%d' % (names, i))
        if cls is not FreeJoint:
            j.gpos[:] = 0.3 * (i + 1) * (-1) ** i
            j.gvel[:] = 0.2 * (i + 1)
        else:
            j.gvel[:] = [0.1, -0.2, 0.3, 0.5, 0., -0.1]
        w.add_link(f, j, b)
        out.append(j)
        f = SubFrame(b, ref.hom(ref.rotation_from((1, 0, 1), 0.4),
                                [0.1, 0.5, 0.]), '%stip%d' % (names, i))
    w.register(f)
    return out


def ball(w, height, radius=0.3, name='ball', vel=None):
    from arboris.core import Body
    from arboris.joints import FreeJoint
    from arboris.shapes import Sphere
    import arboris.massmatrix as mm
    b = Body(name=name, mass=mm.sphere(radius, 2.))
    j = FreeJoint(gpos=ref.hom(np.eye(3), [0.1, height, -0.2]), name=name + 'j')
    if vel is not None:
        j.gvel[:] = vel
    w.add_link(w.ground, j, b)
    s = Sphere(b, radius, name + 's')
    w.register(s)
    return j, s


NAMES = ['arm', 'freearm', 'weight', 'pd', 'limits', 'loop', 'contact', 'all',
         'still', 'masslessframe']


# (the mechanisms of mech.py, and the number of their initial state)
MORE = ['+tree0', '+free1', '+floating2', '+star0', '+limits1', '+loop2',
        '+pairs0', '+closed1', '+slide1', '+crash1', '+several0', '+all2']


def more(name, k):
    from mc import mech
    w, bodies, joints = mech.build(mech.mechanism(name, k))
    return dict(world=w, joints=[joints[i] for i in sorted(joints)])


def build(name, keep=None, off=()):
    """keep: indices of the constraints that are registered (default: all).
    off: indices of the ones that are disabled before the world is ready."""
    from arboris.core import World, SubFrame, MovingSubFrame
    from arboris.controllers import (WeightController,
                                     ProportionalDerivativeController)
    from arboris.constraints import (JointLimits, BallAndSocketConstraint,
                                     SoftFingerContact, get_all_contacts)
    from arboris.shapes import Plane
    from arboris.joints import FixedJoint
    if name[0] == '+':
        return more(name[1:-1], int(name[-1]))
    w = World(name)
    d = dict(world=w)
    if name in ('arm', 'weight', 'pd', 'limits', 'loop', 'all', 'still'):
        d['joints'] = arm(w)
    if name == 'freearm':
        d['joints'] = arm(w, free=True)
    if name == 'still':
        for j in d['joints']:
            j.gvel[:] = 0.
    if name in ('contact', 'all'):
        d['ball'] = ball(w, 0.33, vel=[0.5, 1., -2., 1.5, -0.5, 0.2])
        d['ball2'] = ball(w, 0.95, name='ball2')
        w.register(Plane(w.ground, (0., 1., 0., 0.), 'floor'))
    if name == 'masslessframe':
        from arboris.core import Body
        d['joints'] = arm(w)
        from arboris.core import NamedObjectsList
        b = Body('massless')
        w.add_link(w.getframes()['tip2'], FixedJoint(name='fixed'), b)
        m = MovingSubFrame(b, ref.hom(np.eye(3), [0.1, 0., 0.2]), 'mover')
        w.register(m)
        d['mover'] = m
    w.init()
    made = []

    def add(c):
        if keep is None or len(made) in keep:
            w.register(c)
            if len(made) in off:
                c.disable()
        made.append(c)
    if name in ('weight', 'limits', 'loop', 'contact', 'all', 'masslessframe'):
        w.register(WeightController(name='weight'))
    if name in ('pd', 'all'):
        jl = d['joints'][1:]
        w.register(ProportionalDerivativeController(
            jl, kp=np.diag([20., 5.]), kd=np.diag([1., 0.5]),
            gpos_des=[0.5, -0.4], name='pd'))
    if name in ('limits', 'all'):
        for k, j in enumerate(d['joints'][:2]):
            add(JointLimits(j, [-0.6], [0.305 + 0.3 * k],
                            name='limit%d' % k))
    if name in ('loop', 'all'):
        tip = w.getframes()['tip2']
        w.update_geometric()
        anchor = SubFrame(w.ground, ref.hom(np.eye(3), tip.pose[:3, 3]),
                          'anchor')
        w.register(anchor)
        add(BallAndSocketConstraint((anchor, tip), name='loop'))
    if name in ('contact', 'all'):
        for c in get_all_contacts(w, friction_coeff=0.4, name=None):
            add(c)
    w.init()
    return d


def state(w):
    """Position and velocity of all the joints, as one list."""
    out = []
    for j in w.getjoints():
        out.append(np.array(j.gpos, float).ravel().copy())
        out.append(np.array(j.gvel, float).ravel().copy())
    return np.concatenate(out)


def step(w, dt):
    w.update_dynamic()
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
