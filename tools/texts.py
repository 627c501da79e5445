"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None,
         state=None, technique=None, note=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, observe=observe or [],
        state=state or [], technique=technique, note=note))


prop('C01', 'A world is always a consistent tree; refused operations change nothing',
     'Whatever sequence of link additions, joint replacements and registrations is tried on a world, its bodies always form a tree rooted at the ground: the listings of bodies, joints, subframes and shapes, the descendants and ancestors of every body, and the parent and children joints all describe that same tree, in depth-first order with siblings in creation order (a replaced joint keeps its place), each element once. '
     'A link that would give a body a second parent, close a loop, reuse a joint already in use, or refer to something that is not a frame or a joint is refused with an exception. '
     'After a refused operation the world is exactly as it was before.',
     ['histories', 'configurations'],
     'every sequence of construction operations (valid and invalid), on every world reachable by them',
     'test_core builds a handful of fixed worlds with valid calls in one order; it never looks at the state left by a refused call nor at the listings after a replacement in the middle of a tree.',
     ['arboris/core.py'],
     [('add_link: one parent per body, loops refused, checks before changes', 'arboris/core.py:World.add_link'),
      ('replace_joint: checks first, place kept among the children', 'arboris/core.py:World.replace_joint'),
      ('depth-first iterators', 'arboris/core.py:Body.iter_descendant_bodies'),
      ('register without duplicates', 'arboris/core.py:World.register')],
     observe=['World.getbodies/getjoints/getframes/getshapes', 'Body.iter_*', 'Joint.frames'],
     technique='explicit-state exploration of all operation sequences to a depth, on the real code and a model in lockstep')

prop('C02', 'World and joints share one generalized velocity with exact dof indices',
     'Once a world is initialized, the degrees of freedom of its joints partition the generalized velocity vector contiguously in depth-first order, writing the velocity of a joint or of the world state is seen on both sides, and any ordered selection of joints maps to exactly its own indices in the order of the selection. '
     'Initializing (again, or after links are added or joints replaced) keeps the positions and velocities the joints had. '
     'The velocity, force and admittance returned by the world are copies that can be changed without effect on the simulation.',
     ['histories', 'configurations'],
     'every world of the bounded space, every ordered selection of joints, every interleaving of velocity writes, initializations, additions, replacements and integrations up to the depth',
     'the tests check the dof slices of one arm and of a few fixed joint lists; not the permuted and gapped selections on other trees, nor histories of writes, replacements and re-initializations.',
     ['arboris/core.py', 'arboris/joints.py'],
     [('views of the world velocity handed to the joints', 'arboris/core.py:World.init'),
      ('index list or slice of a selection', 'arboris/core.py:JointsList._init_dof')],
     observe=['World.gvel', 'Joint.gvel', 'Joint.dof', 'JointsList.dof'],
     technique='exhaustive exploration of operation sequences in lockstep with an ownership model')

prop('C03', 'Every frame pose is the composition of the poses along its kinematic chain',
     'After a geometric or dynamic update, the pose of every body is the product, along the chain of joints from the ground, of the parent anchor frame, the joint transformation at its current position and the inverse of the child anchor frame; the pose of a subframe is the pose of its body times its own placement. '
     'This holds for every tree, joint type, anchor frame (including frames moved between updates) and configuration, and an update depends on the current configuration only, not on former ones.',
     ['inputs', 'configurations', 'histories'],
     'every tree of the bounded space, every joint type, anchors and positions of the alphabet, every history of configurations',
     'the tests compare the poses of one planar arm and one human model in single configurations; no trees with moved frames, mixed joints, or updates after changes.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/homogeneousmatrix.py'],
     [('recursion on the children joints', 'arboris/core.py:Body.update_geometric'),
      ('same in the dynamic update', 'arboris/core.py:Body.update_dynamic'),
      ('pose of the subframes', 'arboris/core.py:_SubFrame.pose')],
     observe=['Body.pose', 'SubFrame.pose', 'MovingSubFrame.pose'],
     technique='bounded exhaustive enumeration of worlds and configuration histories against an independent reference model')

prop('C04', 'Jacobians map generalized velocities to the true twists of all frames',
     'After a dynamic update, the jacobian of every body and subframe, multiplied by the generalized velocity, gives the true velocity of that frame relative to the ground expressed in the frame itself (angular part first), i.e. the time derivative of its pose, and the reported twist is that same velocity. '
     'Columns of degrees of freedom that are not on the chain of the frame are exactly zero.',
     ['inputs', 'configurations', 'histories'],
     'every tree of the bounded space, all joint types, anchors, positions and velocities of the alphabet, every history of configurations',
     'the tests print the jacobian of one arm; derivatives of the poses are checked nowhere for branching trees and mixed multi-dof joints.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/rigidmotion.py'],
     [('recursion of the jacobians and twists', 'arboris/core.py:Body.update_dynamic'),
      ('joint jacobians', 'arboris/joints.py'),
      ('change of frame', 'arboris/core.py:_SubFrame.jacobian')],
     observe=['Body.jacobian', 'Body.twist', 'SubFrame.jacobian', 'SubFrame.twist'],
     technique='bounded exhaustive enumeration of worlds and configuration histories against an independent reference model')

prop('C05', 'Jacobian derivatives are the true time derivatives of the jacobians',
     'After a dynamic update, the derivative reported for the jacobian of every body and subframe is the time derivative of that jacobian along the motion defined by the current generalized velocity, for every tree, joint type, anchor frame, position and velocity.',
     ['inputs', 'configurations', 'histories'],
     'every tree of the bounded space, all joint types, anchors, positions and velocities of the alphabet',
     'no test compares the derivative of a jacobian with the variation of the jacobian, except single joints; a wrong bias acceleration shows up as a small drift only.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/rigidmotion.py'],
     [('recursion of the hessians', 'arboris/core.py:Body.update_dynamic'),
      ('derivative of the adjoint of the joint', 'arboris/rigidmotion.py:RigidMotion.idadjoint'),
      ('derivatives of the joint jacobians', 'arboris/joints.py')],
     observe=['Body.djacobian', 'SubFrame.djacobian'],
     technique='bounded exhaustive enumeration against complex-step derivatives of an independent reference model')

prop('C06', 'World mass, viscosity and non-linear matrices equal the sums over bodies',
     'After a dynamic update, the mass matrix of a world is the sum over its bodies of their mass matrices seen through their jacobians, the viscosity matrix likewise, and the non-linear effects matrix gathers their Coriolis, centrifugal and gyroscopic effects: times the velocity it gives the generalized force of the inertia effects at zero generalized acceleration. '
     'This holds for every tree, configuration and velocity, for massless, off-centre and semi-definite bodies, and after masses or viscosities are changed; the kinetic energy is never negative.',
     ['inputs', 'configurations', 'histories'],
     'every tree of the bounded space with eight kinds of mass and four of viscosity, every history of configurations and mass changes',
     'the tests compare a human model and an arm with recorded values in a couple of configurations, with no viscosity at all.',
     ['arboris/core.py'],
     [('sums over the bodies', 'arboris/core.py:World.update_dynamic'),
      ('non-linear effects of a body', 'arboris/core.py:Body.update_dynamic')],
     observe=['World.mass', 'World.viscosity', 'World.nleffects', 'Body.nleffects'],
     technique='bounded exhaustive enumeration of worlds and histories against an independent reference model')

prop('C07', 'One time step solves the implicit dynamics; positions integrate exactly',
     'For a world driven by controllers, the velocity after a step of any length is the solution of: (mass/dt + viscosity + non-linear effects - sum of the impedances of the controllers) x new velocity = mass/dt x old velocity + sum of their forces, with the matrices taken at the beginning of the step; the forces and the admittance exposed during the step are those of this equation. '
     'Positions then advance by dt times the new velocity, free joints by the exact rigid displacement of their new twist, which keeps them rigid poses over any number of steps, and the current time advances by dt. '
     'The arrays given by the controllers are left untouched.',
     ['inputs', 'configurations', 'histories'],
     'every world of the bounded space, every set of controllers (symmetric or not impedances, changing in time), every history of step lengths',
     'the tests look at the value of one step of an arm with one diagonal controller, and let a few worlds fall for some steps with a constant step length.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/twistvector.py'],
     [('impedance and admittance', 'arboris/core.py:World.update_controllers'),
      ('velocity and time', 'arboris/core.py:World.integrate'),
      ('positions', 'arboris/joints.py:FreeJoint.integrate, arboris/core.py:LinearConfigurationSpaceJoint.integrate')],
     observe=['World.gvel', 'World.gforce', 'World.admittance', 'Joint.gpos', 'World.current_time'],
     technique='exhaustive exploration of step histories over bounded worlds, each transition checked against the reference dynamics')

prop('C08', 'A simulation calls everyone in order, can be split, and is not disturbed',
     'A simulation over a timeline initializes the controllers and constraints, then the observers with the world and the timeline; then, for each interval, updates the controllers, the enabled constraints and the observers in their order, with the length of the interval and at the time of its beginning, before integrating, and finishes the observers at the end. '
     'Running it in consecutive pieces, step by step by hand, twice, interleaved with the simulation of another world, or with any set of the provided observers (list, tuple or dictionary), gives the same motion. ',
     ['histories', 'schedules', 'configurations'],
     'every timeline (uniform or not, starting anywhere, of any length), every cut, every interleaving of two worlds, every set of observers',
     'the tests run short uniform timelines in one piece with at most a couple of observers and look at final files.',
     ['arboris/core.py', 'arboris/observers.py', 'arboris/controllers.py', 'arboris/constraints.py'],
     [('the loop', 'arboris/core.py:simulate'),
      ('state kept by the constraints and controllers', 'arboris/constraints.py'),
      ('initialization', 'arboris/core.py:World.init')],
     observe=['calls received by user-defined controllers, constraints and observers', 'Joint.gpos', 'Joint.gvel'],
     technique='exhaustive enumeration of timelines, cuts, interleavings and observer sets against the protocol model')

prop('C09', 'Each joint model is consistent with itself at every position and velocity',
     'For every joint model, at every position and velocity, the pose is the product of its elementary motions, the inverse pose and the adjoint matrices are those of that pose, the jacobian times the velocity is the twist of the motion in the moved frame, its derivative is the time derivative of that jacobian, and the twists seen from the other side are opposite and consistent. '
     'Positions and velocities can be given at construction as integers, lists or arrays, in any form the shape allows, and all models advance by the same rule when integrated alone.',
     ['inputs', 'configurations'],
     'every joint model, full product of 13 angles or 7 lengths for the positions and of 7 velocities, every constructor form, every sequence of writes on one joint',
     'the doctests and unit tests look at one position and velocity of a few joints (often zero, where the coupling terms vanish).',
     ['arboris/joints.py', 'arboris/rigidmotion.py', 'arboris/core.py'],
     [('joint models', 'arboris/joints.py'), ('derived motions', 'arboris/rigidmotion.py:RigidMotion'),
      ('positions given at construction', 'arboris/core.py:LinearConfigurationSpaceJoint')],
     observe=['Joint.pose', 'Joint.ipose', 'Joint.jacobian', 'Joint.djacobian', 'Joint.twist', 'Joint.adjoint'],
     technique='bounded exhaustive enumeration of joint states and writes against the reference model of elementary motions')

prop('C10', 'Rigid motion algebra obeys the laws of the group of displacements',
     'Inverses, adjoints, adjacencies, the transport of points and vectors, and the exponential and inverse of twists obey the group laws for all poses and twists: the inverse composes to identity, the adjoint of a product is the product of the adjoints, the exponential of a twist is the displacement of the constant twist over unit time at all angles from zero to many turns, and never leaves the rigid displacements. '
     'The predicates accept every rigid pose and adjoint and refuse malformed ones; arguments are never modified.',
     ['inputs'],
     '240 poses and all ordered pairs of 48 of them, 7 points, 12 twists; exponentials over 14 directions x 26 angles x 7 linear parts',
     'each function has one doctest value; the laws for pairs, the small and large angle regimes and the boundary between the branches are not tested.',
     ['arboris/homogeneousmatrix.py', 'arboris/adjointmatrix.py', 'arboris/twistvector.py'],
     [('inverse, adjoints', 'arboris/homogeneousmatrix.py'), ('exponential', 'arboris/twistvector.py:exp'),
      ('adjacency', 'arboris/twistvector.py:adjacency')],
     observe=['return values of the public functions'],
     technique='bounded exhaustive enumeration of the values against definitions (power series, columns)')

prop('C11', 'Rotation constructors, angle extraction and frame alignment agree everywhere',
     'Each constructor of rotations is the product of the elementary rotations it is named after, whatever the angles, and the angles extracted from any rotation rebuild that very rotation, including where the decomposition is singular. '
     'The frame aligned with a vector is a rigid pose whose z axis is that direction, for every direction.',
     ['inputs'],
     '10648 triples of angles, the rotations of the cube, a fine grid of rotations, 2000 directions and the neighbourhoods of axes and diagonals',
     'the doctests give one value per function, none at the singularities.',
     ['arboris/homogeneousmatrix.py'],
     [('constructors', 'arboris/homogeneousmatrix.py:rotzyx'), ('extraction', 'arboris/homogeneousmatrix.py:rotzyx_angles'),
      ('alignment', 'arboris/homogeneousmatrix.py:zaligned')],
     observe=['return values of the public functions'],
     technique='bounded exhaustive enumeration of angles and directions against products of elementary rotations')

prop('C12', 'Mass matrices follow the rigid body laws under every change of frame',
     'The mass matrices built for the elementary shapes are those of the homogeneous solids; transporting a mass matrix to another frame gives the matrix of the same body there, can be undone and composed; the principal frame of a body is a rigid frame at its centre of mass where the matrix is diagonal. '
     'Every matrix of a physical body, in any frame and with null or semi-definite inertia, is accepted by the check, and matrices with a defect are refused.',
     ['inputs'],
     '360 bodies x 8 orientations x 40 frames, 343 dimensions of the shapes, every single defect',
     'the doctests use one box and one cylinder in one frame.',
     ['arboris/massmatrix.py', 'arboris/homogeneousmatrix.py'],
     [('transport', 'arboris/massmatrix.py:transport'), ('principal frame', 'arboris/massmatrix.py:principalframe'),
      ('check', 'arboris/massmatrix.py:ismassmatrix')],
     observe=['return values of the public functions'],
     technique='bounded exhaustive enumeration of bodies and frames against the rigid body formulas')

prop('C13', 'Collision solvers give the true distance, closest points and normal',
     'For every pair of shapes that has a solver, given in either order and in every relative position, the signed distance is the true distance between the surfaces (negative when they penetrate), the two contact frames are rigid, have the same orientation, sit on the two surfaces at the closest points, and their z axis is the normal of the first returned shape towards the second. '
     'The answer does not depend on where the shapes are attached, and moves with the shapes under any displacement of the whole scene.',
     ['inputs', 'configurations'],
     'every pair of kinds, both orders, all poses and sizes of the alphabets, all the relative places around, on and inside the box',
     'the doctests and tests use shapes at the origin with axis-aligned frames only, where missing rotations and offsets do not show.',
     ['arboris/collisions.py', 'arboris/shapes.py'],
     [('selection', 'arboris/collisions.py:choose_solver'), ('box', 'arboris/collisions.py:_box_sphere_collision'),
      ('plane', 'arboris/collisions.py:_plane_sphere_collision')],
     observe=['choose_solver return value', 'solver return values'],
     technique='bounded exhaustive enumeration of shapes and placements against an independent closest point oracle')

prop('C14', 'Contacts are found for all collidable pairs and are active when near',
     'Contact discovery creates exactly one contact for each unordered pair of collidable shapes that are on different bodies and for which a collision solver exists, and none else, whatever the order in which the shapes were registered. '
     'At each step a contact is active exactly when the distance predicted at the end of the step from the current relative motion is below its proximity; its two frames follow the solver, its jacobian gives the relative velocity at the contact point in the contact frame, and its force starts from zero.',
     ['configurations', 'inputs', 'histories'],
     'every triple (kind and owner) of registered shapes; every world, contact pose, distance, step and proximity of the alphabets',
     'the tests drop one or two balls; discovery is used with a single pair and activation is never observed near its threshold.',
     ['arboris/constraints.py', 'arboris/core.py', 'arboris/collisions.py'],
     [('discovery', 'arboris/constraints.py:get_all_contacts'), ('activation', 'arboris/constraints.py:PointContact.update'),
      ('solver selection', 'arboris/collisions.py:choose_solver')],
     observe=['PointContact.is_active()', 'Constraint.jacobian', 'Constraint.gforce'],
     technique='bounded exhaustive enumeration of scenes and placements against the motion of a reference model')

prop('C15', 'Joint limits stop the joint at its bounds and only push inwards',
     'When a joint is near a limit, the position predicted at the end of the step stays within its bounds, the force of the limit is zero unless it is needed, pushes each degree of freedom inwards only, and leaves the other degrees of freedom and directions free; together they are the solution of the complementarity problem of the step. '
     'A joint far from all its limits (more than the given proximity) is not affected.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of pushes of the given depth on every world, set of limits, proximity and step pattern',
     'the test lets one single-dof joint fall on its limit; joints with several dofs, several limited joints in one chain, or one-sided limits are not tried.',
     ['arboris/constraints.py', 'arboris/core.py'],
     [('activation and bounds', 'arboris/constraints.py:JointLimits.update'), ('complementarity', 'arboris/constraints.py:JointLimits.solve'),
      ('sweeps over the constraints', 'arboris/core.py:World.update_constraints')],
     observe=['Joint.gpos', 'Joint.gvel', 'JointLimits.gforce'],
     technique='exploration of all push sequences to a depth against an exhaustive contact-mode oracle')

prop('C16', 'Ball and socket constraints keep their two points together',
     'While a ball and socket constraint is enabled, the velocity after each step closes the gap between the two frames up to the second order in the step, with equal and opposite forces applied at the common point and no torque, so that the motion is that of the constrained mechanism. '
     'This holds for closures on the ground and between any bodies, several or redundant ones, offset frames, initial gaps and steps of changing length.',
     ['histories', 'configurations', 'inputs'],
     'every world, set of closures, frames, gap, configuration and pattern of steps of the alphabets, over sequences of 6 to 80 steps',
     'the test closes one loop and looks at one force; frames rotated or moved on both sides, redundant closures and changing steps are not tried.',
     ['arboris/constraints.py', 'arboris/core.py'],
     [('gap and jacobian', 'arboris/constraints.py:BallAndSocketConstraint.update'), ('force', 'arboris/constraints.py:BallAndSocketConstraint.solve')],
     observe=['Body.pose', 'World.gvel', 'Constraint.gforce'],
     technique='bounded exhaustive enumeration of mechanisms and step histories against a direct solution of the constrained dynamics')

prop('C17', 'Contact forces obey unilateral contact and Coulomb friction',
     'At every step, the force of a frictional contact is zero when the contact opens by itself; otherwise the normal force pushes and the contact is kept exactly, and the tangential force is inside the friction cone of the given coefficient. '
     'Inside the cone the contact does not slide; on its border the force is opposite to the sliding. With a zero coefficient there is no tangential force, and the force never becomes invalid for bodies with few degrees of freedom.',
     ['inputs', 'histories', 'configurations'],
     'every pair of bodies, contact pose, distance, friction coefficient, step and relative velocity of the alphabets, and step histories of falling, sliding and stacked balls',
     'the tests drop a ball and check one height; sliding, rolling on inclined surfaces, and the border of the cone are not looked at.',
     ['arboris/constraints.py', 'arboris/core.py'],
     [('friction law', 'arboris/constraints.py:SoftFingerContact.solve'), ('activation', 'arboris/constraints.py:PointContact.update')],
     observe=['SoftFingerContact.gforce', 'World.gvel'],
     technique='bounded exhaustive enumeration of contact states and step histories against the contact law on a reference model')

prop('C18', 'Constraints compose: only enabled, active ones act, and all through dynamics',
     'Each enabled and active constraint is given its velocity, its admittance and the step consistently with the dynamics of the world, and the final velocity is the dynamics under all the constraint forces together; a disabled or inactive constraint has no effect whatever, exactly as if it were not registered. '
     'Enabling and disabling constraints at any step of a history is equivalent to registering only the enabled ones.',
     ['histories', 'configurations'],
     'every assignment of states to up to 4 constraints over 3 steps, every subset of the constraints of the scenarios, every switching step',
     'the tests have a single constraint, always enabled.',
     ['arboris/core.py', 'arboris/constraints.py'],
     [('assembly and sweeps', 'arboris/core.py:World.update_constraints'), ('enable/disable', 'arboris/core.py:Constraint')],
     observe=['World.gvel', 'arguments received by Constraint.solve/update'],
     technique='exhaustive exploration of the constraint states over histories, in lockstep with a reference dynamics')

prop('C19', 'Weight acts at the center of mass of every massive body, along world up',
     'The generalized force of the weight controller is that of the weights of all the massive bodies applied at their centers of mass along the up axis of the world, for any gravity, up axis, tree, configuration and mass distribution, with no impedance. '
     'It follows the current configuration and the bodies present when the world was last initialized.',
     ['histories', 'configurations', 'inputs'],
     'every world of the kinematic space, gravity and up axis of the alphabets, along histories of configurations, mass changes and initializations',
     'the doctest weighs one arm with the default gravity in one configuration.',
     ['arboris/controllers.py', 'arboris/massmatrix.py'],
     [('selection of the bodies', 'arboris/controllers.py:WeightController.init'), ('forces', 'arboris/controllers.py:WeightController.update')],
     observe=['WeightController.update return value'],
     technique='bounded exhaustive enumeration of worlds and histories against a reference model')

prop('C20', 'PD control drives exactly the chosen joints towards their targets',
     'A proportional-derivative controller gives the force and the impedance of the implicit law Kp (q_des - q - dt v) + Kd (v_des - v) on exactly the degrees of freedom of its joints, in the order given, and zero on all others, with scalars, matrices, targets and gains given in any accepted form. '
     'The velocity after the step is that of the dynamics with these forces at the end of the step; joints that cannot be controlled that way are refused.',
     ['histories', 'configurations', 'inputs'],
     'every ordered selection of up to 3 joints of every world, every form of gains and targets, along every history of the alphabet',
     'the tests use one joint or all joints in order with diagonal gains.',
     ['arboris/controllers.py', 'arboris/core.py'],
     [('law and gains', 'arboris/controllers.py:ProportionalDerivativeController'), ('indices', 'arboris/core.py:JointsList')],
     observe=['ProportionalDerivativeController.update return value', 'World.gvel'],
     technique='bounded exhaustive enumeration of selections, gains and histories against the control law')

prop('C21', 'Observers record the true state, energy and center of mass at each step',
     'At the end of a simulation, each recorder holds one entry per simulated step, equal to the value the observed element had at that step and unaffected by later steps, whether or not the observer was used before. '
     'The energy monitor and the center-of-mass observer report the kinetic and potential energies, and the position, velocity and acceleration of the center of mass, of the bodies they observe.',
     ['histories', 'configurations'],
     'every scenario and pair of timelines; every world of the kinematic space and subset of bodies along a history',
     'the tests look at final values of one simulation; aliased or missing records, subsets of bodies and reuse are not tried.',
     ['arboris/observers.py', 'arboris/massmatrix.py'],
     [('recorders', 'arboris/observers.py:_Recorder'), ('energy', 'arboris/observers.py:EnergyMonitor'),
      ('center of mass', 'arboris/observers.py:CoMObserver')],
     observe=['attributes of the observers after World.simulate'],
     technique='bounded exhaustive enumeration of scenarios, timelines and body subsets against a spy and a reference model')

prop('C22', 'Loggers write exactly the states, transforms and dynamics of each step',
     'The file written by a logger holds, for each step of the simulation, the time, the positions and velocities of all joints, the poses of all frames (flat or relative) and the model matrices that were asked for, equal to the values of the world at that step, and nothing that was not asked for. '
     'This holds for both file formats, every group name, opening mode and naming of the elements, and for several loggers or consecutive simulations.',
     ['histories', 'configurations'],
     'every combination of options, format, scenario, timeline, group and mode; histories of 2 to 3 simulations',
     'the test writes one file and compares it with a stored file for one scenario and one set of options.',
     ['arboris/observers.py'],
     [('hdf5', 'arboris/observers.py:Hdf5Logger'), ('pickle', 'arboris/observers.py:PickleLogger')],
     observe=['the written files'],
     technique='bounded exhaustive enumeration of options and histories, files read back and compared with a spy')

prop('C23', 'Look-up and automatic naming keep names unambiguous',
     'Looking up a name in a list of elements returns the first element that has exactly this name, find returns all of them in order, and an absent name raises a KeyError; conversion to a dictionary holds every named element and raises a DuplicateNameError on duplicates, as does naming with the check of unicity. '
     'Automatic naming gives every unnamed element of a world a unique name, changes no existing name, and is stable when repeated.',
     ['inputs', 'configurations', 'histories'],
     'every list of up to 5 objects over an alphabet of 6 kinds of names; every naming of the elements of small worlds',
     'the doctests look up one list with one duplicate.',
     ['arboris/core.py'],
     [('look-up', 'arboris/core.py:NamedObjectsList'), ('automatic names', 'arboris/core.py:name_all_elements')],
     observe=['NamedObjectsList.__getitem__', 'NamedObjectsList.as_dict', 'name attributes'],
     technique='exhaustive enumeration of named lists and worlds against a reference look-up')

prop('C24', 'The world drawing shows every element once, at its true pose',
     'Parsing a world hands the ground, bodies, links, subframes, shapes and other registered elements to the consumer exactly once each, a frame always after the body it belongs to. '
     'In the tree of nodes made by the drawer, flat or not, the transforms multiplied from the root to the node of any frame give its pose, and still do after the world has moved when only the nodes declared moving are updated; the frame arrows, links, inertia ellipsoids and shapes are each drawn once, at the frame they belong to, with their dimensions. '
     'Colors chosen by the user are respected and the automatic ones are distinct.',
     ['configurations', 'histories', 'inputs'],
     'every world of the kinematic space with 4 arrangements of shapes and frames, flat and not, along a history; every palette and color assignment of the alphabets',
     'no test runs the drawer at all.',
     ['arboris/core.py', 'arboris/visu/world_drawer.py'],
     [('traversal', 'arboris/core.py:World.parse'), ('nodes and transforms', 'arboris/visu/world_drawer.py')],
     observe=['calls received by the consumer of World.parse', 'calls received by the drawing driver'],
     technique='bounded exhaustive enumeration of worlds and configurations, drawn with a recording driver and compared with a reference model')

prop('C25', 'Ready-made robots have the documented structure, geometry and inertia',
     'For every value of their parameters, the ready-made robots (simple arm, snake, simple shapes, ground plane, human36, iCub) add to the world the bodies, joints, frames, shapes and masses that their description and parameters define, scaled accordingly; the sided ones are mirror images where their data are. '
     'Their poses, mass matrices and non-linear effects in any configuration are those of that description, and several robots can be put in one world, each behaving as if alone.',
     ['inputs', 'configurations'],
     'every robot with every value of the alphabets of its parameters, in several configurations; every ordered pair of robots in one world',
     'the tests build the default arm and one default human in one posture.',
     ['arboris/robots/simplearm.py', 'arboris/robots/snake.py', 'arboris/robots/simpleshapes.py', 'arboris/robots/human36.py', 'arboris/robots/icub.py'],
     [('simple arm', 'arboris/robots/simplearm.py:add_simplearm'), ('snake', 'arboris/robots/snake.py:add_snake'),
      ('human', 'arboris/robots/human36.py:add_human36'), ('iCub', 'arboris/robots/icub.py:add')],
     observe=['World after the call', 'Body.pose', 'World.mass'],
     technique='bounded exhaustive enumeration of robots, parameters and configurations against a reference model built from their description')

prop('C26', 'Robots read from URDF files are the ones the files describe',
     'Loading a URDF file, whatever the order of its elements, adds to the world the robot it describes: its links with their inertia, its joints with their type, origin, axis and limits (revolute, prismatic, fixed, floating), its collision shapes, attached to the ground by a free or fixed joint at the given pose, with the given prefix and suffix on every name; the bodies are then at the described poses in every configuration. '
     'The visual and collision shapes, the limits and the chains of links told by the reader are those of the file, several robots can be loaded in one world, and a file written by the reader describes the same robot. '
     'Joint types that are not handled are refused.',
     ['inputs', 'configurations'],
     'every joint (22 kinds and axes), origin, inertia, shape and option of the alphabets, and every tree of up to 4 links in 6 orders of the file, in 4 configurations, before and after being written again',
     'no test loads a URDF file.',
     ['arboris/robots/urdf/__init__.py', 'arboris/robots/urdf/urdf_parser.py'],
     [('conversion', 'arboris/robots/urdf/__init__.py:to_arboris'), ('world', 'arboris/robots/urdf/__init__.py:URDFConverter.load_in_world'),
      ('reader', 'arboris/robots/urdf/urdf_parser.py:URDF.parse_xml_string'), ('writer', 'arboris/robots/urdf/urdf_parser.py:URDF.to_xml')],
     observe=['URDFConverter.load_in_world', 'URDFConverter.get_visual_shapes', 'URDFConverter.get_joint_limits', 'Body.pose', 'URDF.to_xml'],
     technique='bounded exhaustive enumeration of robot descriptions, file orders and options on the real reader, against the description itself')

prop('C27', 'Socket observers never disturb the simulation, whatever the other program does',
     'Whether the other program connects in time, late or never, and whether it reads, stays silent, stops writing, closes or resets the connection at any step, the simulation runs to its end with the same result as without the observer, and the port is released afterwards. '
     'A program that stays connected receives all that was sent, in order, followed by the message that closes the connection; an observer uses the first free port at or after the one asked for, and tells which, so several observers can run together.',
     ['fault_sequences', 'schedules', 'configurations'],
     'every sequence of actions of the other program over the steps, every number of ports in use, 1 to 3 observers, 3 moments of connection',
     'no test uses a socket observer.',
     ['arboris/observers.py'],
     [('port and time-out', 'arboris/observers.py:SocketCom.__init__'), ('connection', 'arboris/observers.py:SocketCom.init'),
      ('end', 'arboris/observers.py:SocketCom.finish')],
     observe=['bytes received by the other program', 'SocketCom.port', 'state of the world after the simulation'],
     technique='exhaustive enumeration of fault sequences of the peer, on the real code over the loopback network')

prop('C28', 'Worlds do not disturb each other and arguments are never modified',
     'However the construction and the operations of two worlds are interleaved, each ends exactly as if it were alone; elements made from the same arrays (positions, masses, poses, gains, limits) behave as if each had its own copy; a deep or pickled copy of a world, once initialized, goes on exactly as the original, and neither disturbs the other. '
     'The functions of the geometry modules give the same result for any memory layout, read-only or integer form of the same values, do not modify their arguments, and return results that share no memory with them or with other calls. '
     'Poses, jacobians, twists, generalized velocities, forces and admittances read at one step are not changed by later steps, and writing into the copies given by the world, the subframes and the joints changes nothing.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of the operations of two worlds for every pair of scenarios, and of a world and its copy; every kind of shared argument; every function with every form of each argument; every value read along histories',
     'the tests use one world at a time and freshly made arrays; state shared by two worlds or arrays is never seen.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/controllers.py', 'arboris/constraints.py', 'arboris/homogeneousmatrix.py', 'arboris/massmatrix.py'],
     [('copies given by the world', 'arboris/core.py:World'), ('copies of the arguments', 'arboris/core.py:SubFrame'),
      ('initial values of the joints', 'arboris/joints.py:FreeJoint')],
     observe=['joint positions and velocities', 'frame poses', 'results of the functions'],
     technique='exhaustive exploration of the interleavings of two worlds, and bounded exhaustive enumeration of argument forms')

prop('C29', 'Collada scenes, animations and viewer messages show the simulated world',
     'A collada scene written by either driver, flat or not, puts every named frame at its pose and draws every shape at its place with its size and color, and gives the inertias of the bodies (for the Daenim driver also the frame arrows, links and inertia ellipsoids); writing it does not change the world. '
     'The transforms recorded by the loggers and written as an animation of that scene, or sent at each step to a viewer, have the names of the moving nodes of that scene, and put every frame and shape where it was in the simulation, at the recorded times. '
     'Meshes added to a scene appear in the given frames with the given transform and scale, with the shape and colors of their own file whatever the ids in it, and nothing else of the scene changes.',
     ['inputs', 'configurations', 'histories'],
     'every world of the bounded space, flat and not, with both drivers, along simulated steps; every list of added meshes and every array of numbers of the alphabets',
     'no test writes a collada file, and the modules could not even be imported.',
     ['arboris/visu/dae_writer.py', 'arboris/visu/visu_collada.py', 'arboris/visu/__init__.py', 'arboris/observers.py'],
     [('scene', 'arboris/visu/dae_writer.py:pydaenimColladaDriver'), ('animation', 'arboris/visu/dae_writer.py:write_collada_animation_from_transforms'),
      ('meshes', 'arboris/visu/dae_writer.py:add_shapes_to_dae'), ('Daenim', 'arboris/visu/visu_collada.py:DaenimColladaDriver'),
      ('messages', 'arboris/visu/visu_collada.py:DaenimCom'), ('messages', 'arboris/visu/__init__.py:pydaenimCom')],
     observe=['collada files', 'messages received by the viewers', 'World before and after'],
     technique='bounded exhaustive enumeration of worlds and simulations written by the real code, read back by an independent reader and compared with a reference model')

prop('C30', 'Robots converted for Matlab are the robots of the simulation',
     'Converting a robot for arboris-matlab adds a free base under a root that is not free and splits the rotation joints of several axes into joints of one axis, with light bodies between them; at the same joint positions the bodies, whose inertia is unchanged, are at the same poses. '
     'The file written for a robot is valid Matlab that describes it: its tree of branches, the axis, name and frames of each joint, the inertia and shapes of each body, and its positions and velocities (to 1e-9); the file of a simulation also gives its gravity and times. '
     'What a generator wrote before has no effect on what it writes. '
     'A robot, world or timeline that the format cannot describe (other joints or shapes, several robots, constraints, controllers other than weight, uneven times) is refused.',
     ['inputs', 'configurations'],
     'every tree of up to 5 joints and every choice of the joints, roots, names, frames, inertias and shapes of the alphabets, in several configurations; the robots of arboris; every world and timeline of the lists of refused ones',
     'no test converts a robot, and Matlab would be needed to read the file.',
     ['matlab/convert_py2mat.py'],
     [('conversion', 'matlab/convert_py2mat.py:MatlabConverter'), ('robot', 'matlab/convert_py2mat.py:MatlabRobotGenerator.make_robot'),
      ('simulation', 'matlab/convert_py2mat.py:MatlabSimulationGenerator.generate_simulation')],
     observe=['file written', 'World after the conversion', 'Body.pose'],
     technique='bounded exhaustive enumeration of robots converted and written by the real code, read back by an independent reader and compared with the world')

prop('C31', 'A mechanism moves the same however it is described',
     'The motion of a mechanism depends on what it is, not on the way it is described. Adding its links in another order, naming its elements otherwise, displacing the whole scene with its up axis, moving the frames of the bodies (with their masses, viscosities and anchors), '
     'splitting a joint of several degrees of freedom in a chain of simple joints, splitting a body in parts that are fixed together, taking its mirror image, changing the units of mass, length or time, or the origin of times, '
     'registering its controllers and constraints in another order, or giving the joints of a controller in another order, adding elements that are disabled or have no effect, or other mechanisms in the same world: '
     'positions, velocities, poses and kinetic energy are, at each step, those of the original, once brought back. This holds with weight, viscosity, proportional-derivative control, joint limits, closures and frictional contacts.',
     ['inputs', 'histories', 'configurations'],
     'every mechanism of the list, in 3 initial states, under every change of description and every pair of kinds of changes, over 4 steps, the two executions being compared at each of them',
     'a test has one description of a robot; a wrong term that is null for it, a formula that favours an axis or an order are not seen.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/controllers.py', 'arboris/constraints.py', 'arboris/collisions.py', 'arboris/massmatrix.py'],
     [('step', 'arboris/core.py:World.update_dynamic'), ('controllers', 'arboris/core.py:World.update_controllers'),
      ('constraints', 'arboris/core.py:World.update_constraints'), ('integration', 'arboris/core.py:World.integrate')],
     observe=['Joint.gpos', 'Joint.gvel', 'Body.pose', 'World.mass'],
     technique='bounded exhaustive enumeration of pairs of executions of the real code that a change of description relates (checking of the symmetries of the transition system)')

prop('C32', 'Simulated motions obey the conservation laws of mechanics',
     'When the time step goes to zero, the balances of mechanics hold on the simulated motion, whatever the mechanism, its joints, its frames and its initial state. The energy (kinetic, and potential of the weight) changes only by the work of the viscosity and of the controllers; ball and socket closures do not work; limits and contacts never give energy. '
     'The linear and angular momenta of a floating mechanism change only by the weight and the viscosity: joints, closures, controllers and contacts between its parts leave them as they are. The momentum along the joint that links a mechanism to the ground changes only by these and by the force of this joint.',
     ['inputs', 'histories', 'configurations'],
     'every pair of kinds of joints in chains of two bodies, and a list of mechanisms with control, closures, limits, contacts and collisions, in several initial states, simulated with steps h, h/2, h/4 and, as long as a balance is not met, smaller ones',
     'the tests follow the energy of one arm; a term that is missing or wrong for some joint, frame, mass or velocity leaves every one-step formula plausible and shows only in the balances.',
     ['arboris/core.py', 'arboris/joints.py', 'arboris/controllers.py', 'arboris/constraints.py', 'arboris/collisions.py', 'arboris/twistvector.py'],
     [('step', 'arboris/core.py:World.update_dynamic'), ('controllers', 'arboris/core.py:World.update_controllers'),
      ('constraints', 'arboris/core.py:World.update_constraints'), ('integration', 'arboris/core.py:World.integrate')],
     observe=['Joint.gpos', 'Joint.gvel'],
     technique='bounded exhaustive enumeration of executions of the real code, with monitors of the balances of energy and momenta computed by an independent reference model, at three time steps')

