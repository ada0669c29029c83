"""Writes properties.jsonl and MANIFEST.json (run by hand when the list of properties changes)"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
G = 'src/general_robotics_toolbox/general_robotics_toolbox.py'
I = 'src/general_robotics_toolbox/general_robotics_toolbox_invkin.py'
RR = 'src/general_robotics_toolbox/robotraconteur.py'
U = 'src/general_robotics_toolbox/urdf.py'
T = 'src/general_robotics_toolbox/tesseract.py'
RM = 'src/general_robotics_toolbox/ros_msg.py'
RT = 'src/general_robotics_toolbox/ros_tf.py'

P = []


def p(pid, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, note))


REF = 'Every observed result is compared with a reference that shares no code with the library. '
MATH = 'Input classes are sampled densely around the special values (multiples of pi/6, machine-epsilon neighbours, coordinate axes), not exhausted; tolerances are 1e-9..1e-6 relative.'

p('C01', 'Rotations about an axis, cross product matrices and screw matrices are exact',
  'A rotation built from a unit axis and an angle is the proper orthonormal rotation about that axis by that angle (right handed). The cross product matrix of a vector times any vector is the cross product, and extracting the vector from a skew symmetric matrix inverts it. The screw matrix moves a twist (angular part first) rigidly by a displacement.',
  ['inputs'], 'All unit axes in any accepted form, all finite angles including many turns, all vectors.',
  'The tests check one random axis and a few literal values; sign and transposition errors confined to special axes, large angles or input forms are not reached.',
  [G], [('hat/invhat', G), ('rot', G), ('screw_matrix', G)], REF + MATH)
p('C02', 'Axis-angle and roll-pitch-yaw forms of a rotation matrix give it back',
  'The axis and angle computed from any rotation matrix are a unit axis and a finite angle which give that same rotation back, including the identity, half turns and rotations close to them. Roll, pitch and yaw computed from a matrix give it back within (-pi/2, pi/2) of pitch, and gimbal lock is refused rather than answered wrongly.',
  ['inputs'], 'All proper rotation matrices, in particular all rotations by angles within 1e-15..1e-3 of 0 and pi about every kind of axis.',
  'The tests use a handful of literal matrices; the branches for half turns and tiny angles depend on which entries are zero or rounded.',
  [G], [('R2rot', G), ('R2rpy, rpy2R', G)], REF + MATH)
p('C03', 'Quaternion, rotation matrix and axis-angle convert without loss',
  'Converting a unit quaternion (scalar first) to a matrix, a matrix to a quaternion, and either to or from axis-angle preserves the rotation, always yielding unit quaternions, proper rotations, unit axes and finite numbers. This includes the identity, half turns, both signs of the quaternion and numbers rounded just outside the unit interval.',
  ['inputs'], 'All unit quaternions of either sign and all proper rotation matrices.',
  'The conversion picks between four formulas by which component dominates; the tests reach one or two with fixed numbers.',
  [G], [('q2R, R2q', G), ('q2rot, rot2q', G)], REF + MATH)
p('C04', 'Quaternion algebra agrees with composition and rate of rotations',
  'The product of two quaternions represents the composition of their rotations, is associative and multiplies norms; the complement undoes a unit quaternion. The quaternion rate matrix maps an angular velocity to the time derivative of the quaternion of the rotation.',
  ['inputs'], 'All pairs and triples of quaternions, unit or not, and all angular velocities.',
  'One literal product is tested; a sign error in one term shows only for particular inputs.',
  [G], [('quatcomplement, quatproduct, quatjacobian', G)], REF + MATH)
p('C05', 'Quaternion interpolation follows the shorter great arc at constant speed',
  'Interpolating between two quaternions starts at the first and ends at the second as rotations, stays a unit quaternion in between and turns at constant speed along the shorter way. Equal, nearly equal and opposite ends give finite unit quaternions.',
  ['inputs'], 'All pairs of unit quaternions from equal to opposite, all parameters in the unit interval.',
  'The tests interpolate a few pairs; nearly equal ends whose dot product rounds beyond one, and the sign handling of opposite ends, are not covered.',
  [G], [('slerp', G)], REF + MATH)
p('C06', 'Rigid transforms form a group, keep their frame names and compare consistently',
  'Composition, inversion and identity of rigid transforms obey the group laws and act on points as the homogeneous matrices do, with parent and child frame names carried along. Two transforms compare equal, or close within a tolerance, exactly when their rotations and positions agree within the stated tolerance. Shapes that are not a rigid transform are refused, and random transforms are valid transforms.',
  ['inputs'], 'All rigid transforms with and without frame names, and perturbations of either side of the tolerances.',
  'The tests compose a few transforms and do not probe comparison thresholds or the propagation of frame names.',
  [G], [('Transform', G), ('identity_transform, random_transform', G)], REF + MATH)
p('C07', 'Forward kinematics is the product of the joint motions, tool, flange and base',
  'The computed pose of the end of the robot equals the product of base, link displacements, joint motions, flange and tool, for every robot description and joint vector. A joint vector outside the joint limits is refused unless the caller asks to ignore limits, one on or inside them never is, and a robot without limits accepts every vector.',
  ['inputs', 'configurations'], 'All robots of any number of revolute, prismatic and mobile joints with any combination of optional parts, all joint vectors.',
  'The tests evaluate two industrial robots at a few configurations.',
  [G], [('fwdkin', G), ('Robot', G)], REF + 'Robots of 1-10 joints; tolerances relative to the size of the robot.')
p('C08', 'The Jacobian is the derivative of the forward kinematics in the world frame',
  'Multiplying the Jacobian with joint velocities gives the angular velocity (first three rows) and linear velocity (last three) of the tool in the world frame, for revolute and prismatic joints and every combination of tool, flange and base. It therefore agrees with the derivative of the computed pose. For an arm on a mobile base (two mobile translations and a mobile turn) the base has two columns, driving ahead and turning.',
  ['inputs', 'configurations'], 'All robots of revolute and prismatic joints, all joint vectors.',
  'Literal Jacobians of two robots are tested, without prismatic joints or base and tool together.',
  [G], [('robotjacobian', G)], REF + 'Also compared with finite differences of the real forward kinematics.')
p('C09', 'Tool, flange and base can be removed from and applied to a pose consistently',
  'Applying base, flange and tool of a robot to a pose of its bare chain gives the pose of its tool in the world, removing them is the exact inverse, and both leave the pose unchanged for a robot without them.',
  ['inputs', 'configurations'], 'All combinations of tool, flange and base, all rigid poses.',
  'The tests use one robot with all three; wrong order of composition is invisible with commuting or missing parts.',
  [G], [('apply_robot_aux_transforms, unapply_robot_aux_transforms', G)], REF)
p('C10', 'Robot descriptions are accepted exactly when well formed and kept unchanged',
  'A robot description with unit axes, known joint kinds and consistent lengths is accepted and every supplied item is available unchanged. A description with one inconsistent item (axis length, joint kind, shape, number of limits, names or inertias) is refused.',
  ['configurations'], 'All combinations of optional parts, and every single fault in them.',
  'The tests construct a few valid robots and a handful of faults.',
  [G], [('Robot constructor', G)], 'Faults are enumerated by kind and sampled in position and amount; faults in several items at once are not explored.')
SUB = 'Reference solutions come from angles chosen first; ends of the reachable range are probed within 1e-15..1e-3.'
p('C11', 'The angle taking one vector to another about an axis is correct',
  'For two vectors related by a rotation about an axis, the returned angle performs that rotation and lies in (-pi, pi]; for vectors that cannot be rotated into each other the returned angle is the least squares one, and a warning tells vectors of clearly different length. The size of the vectors does not matter. Vectors that are not perpendicular to the axis are refused where perpendicularity is required.',
  ['inputs'], 'All axes, all vector pairs of any length including along the axis, all angles including exact and near half turns.',
  'Tests sample three literal cases; rounding of perpendicularity and half turns is not reached.',
  [G], [('subproblem0, subproblem1', G)], REF + SUB)
p('C12', 'All pairs of rotations about two intersecting axes are found',
  'For a vector moved by two successive rotations about two given non-parallel axes, every returned pair of angles performs the motion and every pair that performs it is returned, two in general, one at tangency. If no pair exists, nothing is returned and a warning is given. The size of the vectors does not matter.',
  ['inputs'], 'All non-parallel axis pairs, reachable and unreachable vector pairs, including tangency.',
  'The tests contain one pair of axes and no tangency.',
  [G], [('subproblem2', G)], REF + SUB)
p('C13', 'All angles placing a point at a distance or displacement are found',
  'Every returned angle places the rotated point at the requested distance from another point, or at the requested displacement along an axis, and every such angle is returned. At the ends of the reachable range there is one angle, and beyond it none; no returned value is undefined. An unreachable distance is told by a warning.',
  ['inputs'], 'All axes, points and distances inside, at the ends of and outside the reachable range.',
  'The tests evaluate one literal case per function and none at the ends of the range.',
  [G], [('subproblem3, subproblem4', G)], REF + SUB)
IKB = 'Arms are generated over the geometric families the closed forms document; completeness is only required with a margin from singularities, where the answer set is well defined.'
p('C14', 'Every closed form inverse kinematics answer reaches the requested pose',
  'Every joint vector returned by the closed form inverse kinematics of spherical wrist and UR type robots reaches the requested pose in the forward kinematics, has finite angles and lies within the joint limits. This holds for every tool, flange and base and also at singular poses, and unreachable poses give no answer. Arms that do not have the geometry of the solver (axes, wrist offsets, prismatic joints, number of joints) are refused instead of being given wrong answers.',
  ['inputs', 'configurations'], 'All arms of both families, all poses, with and without a last joint position.',
  'The tests check a few dozen poses of four fixed robots.',
  [I, G], [('robot6_sphericalwrist_invkin', I), ('ur_invkin', I)], REF + IKB)
p('C15', 'Spherical wrist inverse kinematics finds every solution branch',
  'For a pose away from singularities every arm, elbow and wrist branch that reaches it within the joint limits is returned exactly once. At a singular wrist a reachable pose still gets an answer, and robots without a spherical wrist are refused.',
  ['inputs', 'configurations'], 'All spherical wrist arms (axis directions, offsets, wrist splits), all joint vectors and limits.',
  'The tests only assert that some answer matches, on a few poses; a lost branch is unnoticed.',
  [I], [('robot6_sphericalwrist_invkin', I), ('normalize_joints', I)], REF + IKB)
p('C16', 'UR type inverse kinematics finds every solution branch',
  'For a pose away from singularities of a UR type arm every shoulder, elbow and wrist branch that reaches it within the joint limits is returned exactly once. Robots that are not UR type arms are refused.',
  ['inputs', 'configurations'], 'All UR type arms of both orientations, all joint vectors and limits.',
  'The tests use two fixed robots and a few poses.',
  [I], [('ur_invkin', I), ('normalize_joints', I)], REF + IKB)
p('C17', 'With a last joint position answers are the nearest equivalents, nearest first',
  'When the last joint position is given, the answers are the same branches, each turned by full turns to the equivalent closest to the last position within the limits, and ordered by distance from it. A branch with an equivalent within the limits is never dropped.',
  ['inputs', 'histories'], 'All arms, poses, and last positions inside, turns away from and outside of the limits.',
  'The tests use one last position near one solution.',
  [I], [('normalize_joints', I)], REF + IKB)
p('C18', 'Equivalent joint configurations are exactly the full-turn shifts within limits',
  'The equivalent configurations of given ones are all those, and only those, that differ by full turns of revolute joints and lie within the limits, without the given ones, and without duplicates. With a last joint position they are ordered by distance from it.',
  ['inputs', 'configurations'], 'All joint windows from a fraction of a turn to several turns, revolute and prismatic joints, one or several given configurations.',
  'One robot is tested.',
  [I], [('equivalent_configurations', I)], REF + 'Windows up to +-3.5 turns and up to some hundred equivalents are explored.')
p('C19', 'Iterative inverse kinematics reports convergence only at the requested pose',
  'The iterative solver reports success only with joint angles that reach the pose within the tolerance and lie within one turn, succeeds from seeds close to a regular solution and immediately at the solution, and otherwise reports failure within its step budget. Prismatic joints are never shifted by turns.',
  ['inputs', 'configurations'], 'All robots of revolute and prismatic joints with any tool, flange and base, all seeds, poses, tolerances, gains and step budgets.',
  'The tests start from one seed of one robot.',
  [I], [('iterative_invkin', I)], REF + 'Convergence is required only close to regular solutions; a mere failure to converge from afar is not a violation.')
p('C20', 'Calls do not change their arguments nor share state with other calls',
  'No call changes a robot, transform, vector or document handed to it, and repeating a call in any order gives the same result. Results handed out are not changed by later calls, and changing a result in place does not affect later calls or the objects it came from. Only a call that draws random numbers changes the state of the process, and it changes nothing but the generator.',
  ['histories', 'inputs'], 'All sequences of calls on shared robots and transforms, results kept, repeated or overwritten.',
  'The tests make each call once on fresh objects.',
  [G, I, RR, U, T], [('copies of arguments', G + ' ' + I)], 'Sessions of 12-25 calls are watched with deep snapshots; robots by design keep references to what they were built from, and that is not reported.')
p('C21', 'A robot loaded from a URDF moves as the URDF describes',
  'The forward kinematics of a robot loaded from a URDF equals the kinematics of the described chain for every joint vector, including fixed joints before, between and after the moving ones and default values of omitted elements. Joint names, kinds and limits are those of the URDF.',
  ['programs', 'inputs'], 'All URDF trees with chains of revolute, prismatic and fixed joints with any axes and origins.',
  'Two fixed files are tested.',
  [U], [('robot_from_urdf', U)], REF + 'Trees of 1-7 moving joints; inertia is documented as unsupported and not compared.')
p('C22', 'The chain taken from a URDF is the one named or the only one',
  'The loaded chain runs from the named or only root to the named or only tip, the same for every source of the description. Unknown links, ambiguous tips, a tip not below the root and unsupported joint kinds on the chain are refused.',
  ['programs', 'configurations'], 'All trees and all combinations of named and omitted root and tip, all kinds of sources.',
  'The tests name one root and tip.',
  [U], [('chain selection in robot_from_urdf', U), ('robot_from_xacro_file, robot_from_parameter_server', U)], REF + 'xacro and ROS package lookup run for real or with stand-in environment where ROS is missing.')
p('C23', 'A robot loaded from a robot info document has exactly the described chain',
  'For every chain of a robot info document the loaded robot has the described axes, displacements, joint kinds, names, limits, flange, base and tool, whatever the order of entries, the identifiers and the representation of the document. Rounded quaternions give proper rotations.',
  ['programs', 'inputs'], 'All documents with any number of joints and chains over any subset of joints, as text, stream or structure.',
  'A few fixed files with one chain are tested.',
  [RR], [('RobotInfoLoader and helpers', RR)], REF)
p('C24', 'Robot info documents combine with tool documents and faulty ones are refused',
  'A robot document combined with a tool document gives the robot with that tool and is otherwise unchanged. A document with a fault (missing or unknown joint, chain out of range, mismatched numbers, bad axes) is refused.',
  ['programs', 'fault_sequences'], 'All pairs of robot and tool documents in every representation, and every single fault of 24 kinds.',
  'The tests load one tool and no faulty document.',
  [RR], [('RobotInfoLoader and helpers', RR)], REF + 'One fault at a time.')
p('C25', 'A robot handed to Tesseract has the same kinematics there',
  'Pose and Jacobian of every link computed through the motion planning environment equal those of the robot, for every frame asked for and however the environment was made, and several robots in one environment do not disturb each other.',
  ['inputs', 'configurations'], 'All robots of revolute and prismatic joints with any optional parts and names, all joint vectors, all link frames.',
  'The tests use two robots at one configuration.',
  [T], [('robot_to_tesseract_env', T), ('TesseractRobot.fwdkin, jacobian', T)], REF + 'The real Tesseract library is used.')
p('C26', 'Inverse kinematics through Tesseract reaches the pose or refuses the robot',
  'Every answer of every solver offered through the motion planning environment reaches the requested pose within the joint limits, and the configuration a pose was made from is found away from singularities by the closed form solvers and from near seeds by the numeric ones. A robot that a closed form solver cannot represent, and a frame that moves with the joints, is refused instead of answered wrongly.',
  ['inputs', 'configurations'], 'All robots of the families of the solvers with any tool and base, all joint vectors, and robots outside of the families.',
  'The tests solve one pose of one robot per solver.',
  [T], [('robot_to_opw_inv_kin_parameters, robot_to_ur_inv_kin_parameters', T), ('TesseractRobot.invkin', T)], REF + 'The real Tesseract solvers are used; numeric ones are asked from seeds close to a regular solution.')
p('C27', 'The Tesseract scene graph and environment describe exactly the robot',
  'The scene graph and environment made from a robot contain its joints with kind, axis, origin and limits, its links, flange, tool and base under the documented names, and nothing else; joint kinds it does not have are refused. Rigid transforms convert to and from the numeric library without change.',
  ['inputs', 'configurations'], 'All robots with any optional parts and names, all rigid transforms.',
  'The tests check two robots.',
  [T], [('robot_to_scene_graph, robot_to_tesseract_env_commands', T), ('transform_to_isometry3d, isometry3d_to_transform', T)], REF)
ROS = 'ROS is not installed: message types and the ROS listener are stand-ins with the documented fields, constructors and exceptions.'
p('C28', 'ROS messages carry exactly the value they are made from and are read back as it',
  'A quaternion, rotation, vector, transform, twist or wrench converted to a ROS message has each component in the field ROS defines for it, in a message of the documented type that can be sent, and reading the message back gives the same value and frame names. Messages from elsewhere are read by the same rule, and other types are refused.',
  ['inputs'], 'All values in every accepted form, all message types, with and without frame names.',
  'The tests need ROS and are skipped where it is missing; otherwise they try one random value.',
  [RM], [('msg2q ... wrench2msg', RM)], REF + ROS)
p('C29', 'The transform listener answers what the ROS transform tree says',
  'A transform looked up through the listener equals the one of the ROS tree for the asked frames and times, with matching frame names, and composes with others; availability, waiting and clearing are those of the tree. What the tree cannot answer is refused with the exceptions offered to the user.',
  ['histories'], 'All histories of tree updates, lookups (simple and with separate times and a fixed frame), waits and clears.',
  'The only test is skipped.',
  [RT], [('TransformListener', RT)], REF + ROS)
p('C30', 'Concurrent calls on shared robots give the same results as calls made alone',
  'Calls made at the same time from several threads on shared robots and transforms give the same results as the same calls made one after another, in every interleaving.',
  ['schedules'], 'All interleavings of calls of every kind from several threads on shared objects.',
  'The tests are single threaded.',
  [G, I, RR, U], [('no shared mutable state', G + ' ' + I)], 'Interleavings are sampled by switching threads every microsecond and at injected yields; the number of distinct interleavings observed is reported.')
p('C31', 'Redundant solutions through Tesseract are exactly the full-turn equivalents',
  'The redundant solutions of a configuration in the motion planning environment are all other configurations within the limits that differ from it by full turns of revolute joints, each once.',
  ['inputs', 'configurations'], 'All robots and joint windows from a fraction of to several turns, all configurations inside.',
  'The test checks one configuration of one robot.',
  [T], [('redundant_solutions', T)], REF + 'The real Tesseract library is used.')

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d) + '\n')
    checks = []
    for d, note in P:
        i = d['id']
        tech = 'runtime monitoring: reference-model oracle over randomized and boundary workloads'
        if i == 'C20':
            tech = 'runtime monitoring: snapshot and alias monitors over call histories'
        elif i == 'C30':
            tech = 'runtime monitoring: result-equality monitor under stressed thread schedules'
        elif i == 'C29':
            tech = 'runtime monitoring: trace checking of listener histories against a reference tree'
        elif i in ('C22', 'C24'):
            tech = 'runtime monitoring: reference-model oracle over generated documents and injected faults'
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='exploration', level_note=note))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
             hooks=dict(guard='none', enable='No hooks were added to /repo: the monitors import the code from /repo/src and observe calls, arguments and results from outside.', source_commits=[]),
             notes='Every check runs the code of /repo/src as it is in the working tree (pure Python, nothing to build). See DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
