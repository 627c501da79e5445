"""Forward kinematics."""
import numpy as np
from mc.engine import Cov
from mc.worlds import Sim, same, require, naming
from mc import spaces, ref, worlds

META = dict(
    rule='every world of the bounded space is taken through a history of '
         'configurations; after each update the pose of the ground, of every '
         'body and of every frame is compared with the composition of the '
         'motions along the path; non-trivial: some joint is not at zero',
    bounds='all 14 joint kinds x 36 anchor-frame pairs x 13 values; all joint '
           'pairs; all trees of 3 (joint triples of a reduced set), 4 and 5 '
           'bodies; chains, stars, combs, binary trees of up to 40 bodies',
)


def cases(tier):
    for c in spaces.kinematic_worlds(tier):
        yield c


def check_poses(sim, cov, what):
    pose, _ = sim.tree.fk(sim.q)
    for i, b in sim.bodies.items():
        same('%s: pose of body %d' % (what, i), b.pose, pose[i])
        cov.check()
    for f, b, H in sim.frames:
        same('%s: pose of a frame of body %d' % (what, b), f.pose,
             pose[b].dot(H))
        same('%s: constant pose of a frame in body %d' % (what, b), f.bpose, H)
        cov.check(2)
    for i, j in sim.joints.items():
        same('%s: pose of joint %d' % (what, i), j.pose,
             ref.joint_pose(sim.spec[i][1], sim.q[i]))
    cov.state([pose[i] for i in sorted(pose)])


def run(case):
    cov = Cov()
    sim = Sim(case['l'], k=case['h'][0][0], vk=case['h'][0][1],
              moving=bool(case['mv']), names=naming(case['l']))
    w = sim.world
    w.update_geometric()
    cov.step()
    check_poses(sim, cov, 'start')
    for n, cfg in enumerate(case['h']):
        sim.set_config(*cfg)
        if n % 2:
            w.update_geometric()
        else:
            w.update_dynamic()
        cov.step(2)
        check_poses(sim, cov, 'step %d' % n)
    # a moving frame is moved on its body
    from arboris.core import MovingSubFrame
    for n, (f, b, H) in enumerate(sim.frames):
        if isinstance(f, MovingSubFrame):
            sim.move_frame(n, worlds.POSES[(n + 1) % 7].dot(H))
            cov.step()
    w.update_geometric()
    check_poses(sim, cov, 'moved frames')
    cov.nontrivial = True
    cov.traces = 1
    return cov
