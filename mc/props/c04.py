"""Jacobians and twists."""
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, naming
from mc import spaces, ref, worlds

META = dict(
    rule='every world of the bounded space is taken through a history of '
         'configurations; after each update the jacobian and the twist of '
         'every body and frame are compared with columns built from the axes '
         'of the dofs in the ground frame; non-trivial: the velocity is not '
         'null',
    bounds='as for the forward kinematics: all joint kinds, frame pairs and '
           'pairs of joints, all trees of 3 to 5 bodies, large worlds of up '
           'to 40 bodies (more than 60 dof)',
)


def cases(tier):
    for c in spaces.kinematic_worlds(tier):
        yield c


def check(sim, cov, what):
    t = sim.tree
    v = sim.gvel()
    pose, J = t.jacobians(sim.q)
    # (the twists are linear in the velocity: relative to its size)
    size = float(np.abs(v).max(initial=0.)) or 1.
    same('%s: gvel' % what, sim.world.gvel, v, scale=size)
    for i, b in sim.bodies.items():
        same('%s: jacobian of body %d' % (what, i), b.jacobian, J[i])
        same('%s: twist of body %d' % (what, i), b.twist, J[i].dot(v),
             scale=size * max(1., np.abs(J[i]).max(initial=0.)))
        cov.check(2)
    for f, b, H in sim.frames:
        Jf = ref.ad_of_pose(ref.hinv(H)).dot(J[b])
        same('%s: jacobian of a frame of body %d' % (what, b), f.jacobian, Jf)
        same('%s: twist of a frame of body %d' % (what, b), f.twist, Jf.dot(v),
             scale=size * max(1., np.abs(Jf).max(initial=0.)))
        cov.check(2)
    cov.state(v, [J[i] for i in sorted(J)])


def run(case):
    cov = Cov()
    sim = Sim(case['l'], k=case['h'][0][0], vk=case['h'][0][1],
              moving=bool(case['mv']), names=naming(case['l']))
    w = sim.world
    w.update_dynamic()
    cov.step()
    check(sim, cov, 'start')
    for n, cfg in enumerate(case['h']):
        sim.set_config(*cfg)
        w.update_dynamic()
        cov.step(2)
        check(sim, cov, 'step %d' % n)
    if case['mv']:
        for n in range(len(sim.frames)):
            if hasattr(type(sim.frames[n][0]).bpose, 'fset') and \
                    type(sim.frames[n][0]).bpose.fset is not None:
                sim.move_frame(n, worlds.POSES[(n + 1) % 7].dot(sim.frames[n][2]))
                cov.step()
        w.update_dynamic()
        check(sim, cov, 'moved frames')
    cov.nontrivial = bool(np.abs(sim.gvel()).max(initial=0.) > 0)
    cov.traces = 1
    return cov
