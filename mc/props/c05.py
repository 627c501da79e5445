"""Derivative of the jacobians."""
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, naming
from mc import spaces, ref, worlds

META = dict(
    rule='every world of the bounded space is taken through a history of '
         'configurations and velocities; after each update djacobian of every '
         'body and frame is compared with the derivative (complex step) of '
         'the reference jacobian along the motion; non-trivial: the velocity '
         'is not null',
    bounds='as for the forward kinematics: all joint kinds, frame pairs and '
           'pairs of joints, all trees of 3 to 5 bodies, large worlds of up '
           'to 40 bodies',
    assumptions=['frames that move on their body are at rest on it'],
)


def cases(tier):
    for c in spaces.kinematic_worlds(tier):
        yield c


def check(sim, cov, what):
    t = sim.tree
    v = sim.gvel()
    dJ = t.djacobians(sim.q, v)
    # (linear in the velocity)
    big = max(min(1., float(np.abs(v).max(initial=0.))) or 1.,
              max(float(np.abs(d).max(initial=0.)) for d in dJ.values()))
    # (rounding errors of far anchors)
    pose, _ = t.fk(sim.q)
    far = max(float(np.abs(H[:3, 3]).max()) for H in pose.values())
    big += 1e-4 * max(0., far - 1e3) * float(np.abs(v).max(initial=0.))
    for i, b in sim.bodies.items():
        same('%s: djacobian of body %d' % (what, i), b.djacobian, dJ[i],
             scale=big)
        cov.check()
    for f, b, H in sim.frames:
        D = ref.ad_of_pose(ref.hinv(H)).dot(dJ[b])
        same('%s: djacobian of a frame of body %d' % (what, b), f.djacobian, D,
             scale=max(big, float(np.abs(D).max(initial=0.))))
        cov.check()
    cov.state(v, [dJ[i] for i in sorted(dJ)])


def run(case):
    cov = Cov()
    sim = Sim(case['l'], k=case['h'][0][0], vk=case['h'][0][1],
              moving=bool(case['mv']), names=naming(case['l']))
    w = sim.world
    w.update_dynamic()
    cov.step()
    check(sim, cov, 'start')
    for n, cfg in enumerate(case['h']):
        sim.set_config(*cfg)
        w.update_dynamic()
        cov.step(2)
        check(sim, cov, 'step %d' % n)
    cov.nontrivial = bool(np.abs(sim.gvel()).max(initial=0.) > 0)
    cov.traces = 1
    return cov
