"""Single source of properties.jsonl and MANIFEST.json (see mkmeta.py)."""
PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="Robot state is only touched under the robot's lock",
  statement="Every public operation of a robot, robot node, node set or robot configuration that reads or changes joint values or poses of a "
            "thread-safe robot holds that robot's lock for the whole time it touches them. Exempt are only the operations documented to require that the caller already "
            "holds the lock (joint writes without pose update, pose propagation) and the assembly of a robot (construction, initialisation, cloning of parts).",
  over=["schedules"], quant="all public operations, all control-flow paths through them and the helpers they call, any interleaving with other threads",
  tests="Tests are single threaded and cannot produce the interleavings; a missing lock changes no single-threaded result.",
  files=["VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/RobotConfig.cpp"],
  mech=[("ReadLock/WriteLock guards, getReadLock/getWriteLock", "VirtualRobot/Robot.h"), ("ConditionedLock", "VirtualRobot/Robot.h")],
  state=[("jointValue", "current joint value", "VirtualRobot/Nodes/RobotNode.h"), ("globalPose", "current pose", "VirtualRobot/SceneObject.h")],
  technique="path-sensitive lockset analysis on the resolved program (libTooling CFGs)",
  note="Sound up to inlining depth 5 and the alias model described in DESIGN.md; trusts boost mutex semantics and the caller-locks tier taken from the API documentation.")

P(id="C02", title="Mutexes are balanced and guard the state shared between planning threads",
  statement="Whatever operation of the motion planning, grasp planning and simulation components locks a mutex, it unlocks it again on every way out (every return and every error it raises itself), never "
            "unlocks a mutex it does not hold and never locks a non-recursive mutex twice. The running/finished flags and results of planning and path-processing threads, the grasp list of the grasp planner, the "
            "configuration-plus-collision query of a configuration space in multi-threading mode, and the non-reentrant convex hull library are only touched while their mutex is held.",
  over=["schedules"], quant="all functions with explicit locking, all control-flow paths and exits, any interleaving",
  tests="Tests run one planner in one thread; neither a leaked lock on an error path nor a missing lock shows there.",
  files=["MotionPlanning/Planner/PlanningThread.cpp", "MotionPlanning/PostProcessing/PathProcessingThread.cpp", "MotionPlanning/CSpace/CSpace.cpp", "MotionPlanning/CSpace/CSpacePath.cpp",
         "MotionPlanning/Planner/GraspRrt.cpp", "GraspPlanning/ConvexHullGenerator.cpp", "SimDynamics/DynamicsWorld.cpp"],
  mech=[("colCheckMutex", "MotionPlanning/CSpace/CSpace.cpp"), ("qhull_mutex", "GraspPlanning/ConvexHullGenerator.cpp"), ("graspInfoMutex", "MotionPlanning/Planner/GraspRrt.cpp")],
  technique="path-sensitive lock typestate and lockset analysis over CFGs with inlining",
  note="Errors thrown by callees that are not inlined are outside the decided part; correlated branches on the same flag are tracked, loops are widened.")

P(id="C03", title="Physics state is only touched under the engine lock",
  statement="Every public operation of the physics engine, its robots and its objects that reads or changes the registered objects, robots, links, collision tables, floor, callbacks, actuation targets or controllers, the "
            "physics world, its clock or a rigid body holds the engine lock while doing so, and a set engine lock is really taken. Registering an object or a robot successfully hands it the engine's lock; only accessors that hand out the raw world, body or controller table themselves leave locking to the caller.",
  over=["schedules"], quant="all public operations, all control-flow paths through them and the helpers they call",
  tests="There is no multi-threaded simulation test, and a missing lock changes no single-threaded result.",
  files=["SimDynamics/DynamicsEngine/DynamicsEngine.cpp", "SimDynamics/DynamicsEngine/DynamicsRobot.cpp", "SimDynamics/DynamicsEngine/DynamicsObject.cpp",
         "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp"],
  mech=[("getScopedLock", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp")],
  technique="path-sensitive lockset analysis on the resolved program",
  note="Construction and destruction are exempt; protected helpers are judged in the public operations that call them.")

P(id="C04", title="Temporary changes to a robot are undone on every way out",
  statement="An operation that switches the visualization or collision-model update of a robot it was given leaves the switch as it found it on every return and on every error it raises itself. Operations that move the robot "
            "only to probe it (sampling and parameter estimation for workspace data and manipulability, workspace trajectory of a joint trajectory, IK without update, grasp IK that fails, grasp robustness "
            "evaluation, drawing a trajectory, filling a reachability grid) leave joint values, global poses and the swapped base node as they were before the first probe.",
  over=["inputs", "histories"], quant="every function that switches updates (judged in its public callers if it is a private helper), the eleven probing operations, all paths and exits",
  tests="Tests look at the result of such operations, not at the robot afterwards, and rarely take the timeout or error exits.",
  files=["MotionPlanning/Planner/Rrt.cpp", "MotionPlanning/Planner/BiRrt.cpp", "MotionPlanning/Planner/GraspRrt.cpp", "VirtualRobot/IK/AdvancedIKSolver.cpp", "VirtualRobot/IK/ConstrainedOptimizationIK.cpp",
         "VirtualRobot/Workspace/WorkspaceRepresentation.cpp", "VirtualRobot/Workspace/Manipulability.cpp", "GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp"],
  mech=[("Robot::setUpdateVisualization", "VirtualRobot/Robot.cpp"), ("SceneObject::setUpdateCollisionModel", "VirtualRobot/SceneObject.cpp")],
  technique="path-sensitive save/restore typestate analysis over CFGs with inlining",
  note="Errors raised inside callees that are not inlined are outside; setJointValues of the value read before the first change counts as restoring.")

P(id="C05", title="Joint values stay within the joint limits",
  statement="Whatever value is given to a joint of an enforced, non-limitless robot node, the value stored lies within [lower limit, upper limit]; the value of a limitless joint is not left below its lower limit. Clamping and "
            "checking functions of nodes and node sets agree with these limits for every joint, and operations that take several values (vectors, maps, configurations) give or compare every joint with the value that belongs to it.",
  over=["inputs"], quant="every assignment to a joint value in the code base, all paths, all values, node sets of any size",
  tests="Tests set a few values inside the limits; they do not try each writer with values beyond each bound.",
  files=["VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/RobotConfig.cpp", "VirtualRobot/XML/RobotIO.cpp"],
  mech=[("RobotNode::setJointValueNoUpdate", "VirtualRobot/Nodes/RobotNode.cpp"), ("RobotNode::respectJointLimits", "VirtualRobot/Nodes/RobotNode.cpp")],
  state=[("jointValue", "current joint value", "VirtualRobot/Nodes/RobotNode.h")],
  technique="path-sensitive value-range dataflow on every write, 'for all elements' alignment of joints and values",
  note="Assumes lower limit <= upper limit and real numbers (no NaN); the constructor's zero, the visualization-only pose update and copies of another node's value are exempt.")

P(id="C06", title="Planners only use connections and configurations that were found valid",
  statement="A configuration is called valid only when every requested part of the check (boundaries, collisions, constraints) was made for it and held; a connection only when it was checked in steps of at most the sampling size; "
            "a solution or a tree only after every segment. Paths that are followed until they become invalid contain only configurations found valid and count as complete only when the goal was added. Planners add to a search tree only roots and connections "
            "that were found valid, report an extension as successful only when the requested configuration itself was added, accept start and goal only when they are collision free and within the boundaries (a rejected one does not stay accepted), and succeed only "
            "when initialized, after an extension reached the goal or the other tree, with the solution built. Shortcuts replace path points only when the direct connection was found valid.",
  over=["inputs", "histories"], quant="all implementations of the checks, all planners and path processors, all control-flow paths, every outcome of each elementary check",
  tests="Planning tests are randomised and small; a gate missing on one branch rarely changes the path they find.",
  files=["MotionPlanning/CSpace/CSpace.cpp", "MotionPlanning/CSpace/CSpaceSampled.cpp", "MotionPlanning/CSpace/CSpaceTree.cpp", "MotionPlanning/Planner/Rrt.cpp", "MotionPlanning/Planner/BiRrt.cpp", "MotionPlanning/Planner/GraspRrt.cpp",
         "MotionPlanning/Planner/GraspIkRrt.cpp", "MotionPlanning/Planner/MotionPlanner.cpp", "MotionPlanning/PostProcessing/ShortcutProcessor.cpp"],
  mech=[("isConfigValid, isPathValid", "MotionPlanning/CSpace/CSpaceSampled.cpp"), ("extend and connect", "MotionPlanning/Planner/Rrt.cpp")],
  technique="path-sensitive gating (typestate) analysis with both outcomes of every elementary check explored, and 'for all segments' coverage of loops",
  note="Distances and interpolation are opaque; the geometric correctness of collision checks is outside. Configuration spaces absent (null) exempt start and goal checks. The elastic band's force based moves are outside.")

P(id="C08", title="Every random decision is drawn from the one seeded generator of the thread",
  statement="All random choices of the library (sampling of configurations and poses, choice of grasps, faces, nodes and path candidates, random directions) come from the per-thread generator PRNG64Bit, so that "
            "a seed determines them: no other source of randomness, private engine or clock is consulted, distributions draw from that generator only, it is one per thread, nothing reseeds it except a caller's seed, and a "
            "nonzero seed given to a configuration space, to its clone or to setRandomSeed reaches it unchanged.",
  over=["inputs", "histories"], quant="every function of the code base, every call site that draws a random value or seeds a generator",
  tests="Tests do not compare two seeded runs, and an unseeded draw gives equally plausible values.",
  files=["VirtualRobot/Random.cpp", "MotionPlanning/CSpace/CSpace.cpp", "MotionPlanning/CSpace/CSpaceSampled.cpp", "VirtualRobot/Workspace/WorkspaceGrid.cpp", "GraspPlanning/ApproachMovementSurfaceNormal.cpp"],
  mech=[("PRNG64Bit", "VirtualRobot/Random.cpp"), ("CSpace::setRandomSeed", "MotionPlanning/CSpace/CSpace.cpp")],
  technique="whole-program effect analysis of random sources plus dataflow of seed arguments",
  note="Vendored libraries (qhull, PQP, nlopt) and iteration order of address-ordered containers are outside; a statement about the sources of randomness, not about bitwise equal results.")

P(id="C15", title="Collision and distance queries examine every element of their operands",
  statement="A collision query over sets, vectors, robots, end effector actors or registered pairs returns true exactly if one of its elementary checks reports a collision, and answers 'no collision' only after the elementary "
            "check was applied to every element (every pair of elements) of its operands, except elements without a collision model, elements whose collision mode excludes the check, and the operand itself. A distance query "
            "measures every element in the same way and returns a value no larger than any distance it measured. The models of a set or robot are collected completely, and a newly registered set is paired with every registered one.",
  over=["inputs"], quant="every collision and distance query of CollisionChecker, CDManager and EndEffectorActor, all control-flow paths, sets of any size",
  tests="Tests use one or two elements per set; a skipped last element, an early return or a lost minimum shows only for particular sizes and orders.",
  files=["VirtualRobot/CollisionDetection/CollisionChecker.cpp", "VirtualRobot/CollisionDetection/CDManager.cpp", "VirtualRobot/EndEffector/EndEffectorActor.cpp", "VirtualRobot/SceneObjectSet.cpp"],
  mech=[("CDManager::colModelPairs", "VirtualRobot/CollisionDetection/CDManager.h"), ("CollisionChecker::getRobotModels", "VirtualRobot/CollisionDetection/CollisionChecker.cpp")],
  technique="path-sensitive 'for all elements' coverage analysis over natural loops, elementary checks forked into hit and miss",
  note="The elementary model-against-model check itself (PQP) is trusted; operands without elements count as covered.")

P(id="C16", title="Inverse kinematics reports success only for results within the tolerances",
  statement="An IK solver (gradient descent, hierarchical, constrained, optimization based, gaze, grasp selecting) reports success only if, after the last change of joint values, the tolerances of every task or hard constraint "
            "were checked and held, or values are put back that were accepted before; solvers with a collision manager only if the result was also found collision free. A tolerance check holds only if, for every TCP or task, the "
            "magnitude of each error was found to be within its tolerance (for balance: stability at least the minimum). Solving without update returns values of a successful solution only and leaves the robot as it was.",
  over=["inputs", "histories"], quant="all solver entry points, all tolerance checks, all control-flow paths, any number of steps, TCPs, tasks and constraints",
  tests="Tests solve a few easy targets where every variant of the acceptance test says yes.",
  files=["VirtualRobot/IK/DifferentialIK.cpp", "VirtualRobot/IK/CoMIK.cpp", "VirtualRobot/IK/HierarchicalIKSolver.cpp", "VirtualRobot/IK/ConstrainedIK.cpp", "VirtualRobot/IK/ConstrainedOptimizationIK.cpp", "VirtualRobot/IK/GazeIK.cpp",
         "VirtualRobot/IK/GenericIKSolver.cpp", "VirtualRobot/IK/AdvancedIKSolver.cpp", "VirtualRobot/IK/constraints/PositionConstraint.cpp", "VirtualRobot/IK/constraints/OrientationConstraint.cpp", "VirtualRobot/IK/constraints/TSRConstraint.cpp"],
  mech=[("checkTolerances", "VirtualRobot/IK/JacobiProvider.h"), ("solve, computeSteps, trySolve", "VirtualRobot/IK/DifferentialIK.cpp")],
  technique="path-sensitive gating (typestate) analysis: tolerance checks and collision queries explored with both outcomes, joint values tracked by the variable they were read into, 'for all constraints' coverage of loops",
  note="Error functions (getErrorPosition, norm, ...) are trusted to be magnitudes of the right error; convergence of the iteration is outside. A solver without constraints or tasks may report success.")

P(id="C20", title="Nothing is read before it has been given a value",
  statement="Every public constructor leaves each member that a later operation may read before writing it (numbers, flags, pointers, enumerations, fixed-size vectors and matrices, plain records) with a "
            "definite value, and no function reads a local variable on a path on which nothing was assigned to it - in particular not an out-parameter of a call that reported failure. The numerics of the "
            "time-optimal trajectory search are not included.",
  over=["inputs", "histories"], quant="all constructors and every later call; all paths through every function of VirtualRobot, MotionPlanning, GraspPlanning and SimDynamics",
  tests="What an indeterminate value happens to be in a test process says nothing about the next one; most of the affected paths (failed lookup, unset option, empty input) are not driven at all.",
  files=["VirtualRobot/Workspace/WorkspaceRepresentation.cpp", "VirtualRobot/IK/DifferentialIK.cpp", "MotionPlanning/Planner/Rrt.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp",
         "VirtualRobot/SceneObject.cpp", "GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp"],
  mech=[("constructor initialiser lists and default member initialisers", "VirtualRobot/Nodes/RobotNode.cpp")],
  technique="definite-assignment dataflow with interprocedural assigned-on-return summaries, candidates confirmed by path-sensitive abstract interpretation",
  note="Dynamically sized containers and library objects with own constructors are out of scope; members are tracked as a whole except arrays filled by counted loops; a plain record counts as assigned when any assignment to it as a whole or to the read field happened.")

P(id="C17", title="What may be missing is not dereferenced",
  statement="A pointer argument that may be left out (its default is null) is never dereferenced, directly or in anything it is passed on to, when it was left out, nor later by a public method from the member it was stored in; and no function dereferences a pointer it has itself "
            "just tested and found to be null, or a local pointer that is still null because no branch assigned it (failed lookup, failed parse, missing visualization or collision model).",
  over=["inputs", "histories"], quant="all optional pointer parameters and all functions of VirtualRobot, MotionPlanning, GraspPlanning, Saba and SimDynamics; all control-flow paths",
  tests="Tests pass the optional arguments or take the paths on which the models exist; the branches for missing models, failed parsing and unknown names are hardly driven.",
  files=["VirtualRobot/SceneObject.cpp", "VirtualRobot/XML/RobotIO.cpp", "VirtualRobot/CollisionDetection/CollisionChecker.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/EndEffector/EndEffector.cpp",
         "MotionPlanning/CSpace/CSpaceSampled.cpp", "MotionPlanning/Planner/BiRrt.cpp", "SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp"],
  mech=[("fallback to the global collision checker", "VirtualRobot/CollisionDetection/CollisionModel.cpp"), ("null tests before optional outputs are written", "MotionPlanning/Planner/Rrt.cpp")],
  technique="path-sensitive null-state abstract interpretation over clang CFGs, run once per optional parameter with the argument left out and its receiving callees inlined",
  note="Pointers that are merely able to be null (results of lookups nobody tested, members) are not decided: nothing in the source says whether the caller excluded it. Call depth for left out arguments: 4.")

P(id="C18", title="Pose changes reach children, models and visualizations",
  statement="Every operation that sets joint values of a robot (through the robot, a node set or a configuration) leaves, when it succeeds, no joint value whose effect on the kinematic structure has not been updated. A pose update of an object or robot node "
            "recomputes the node's pose (from the parent pose, the local transformation and, for moving joints, axis, joint value and offset), hands it to the object's visualization and collision model unless that following is switched off, "
            "updates every child with it when children are to be updated, and sets every propagated joint. Setting an object's pose, attaching a visualization or collision model, or rebuilding a collision model gives the current pose to the model; "
            "a collision model forwards every pose to its internal model and to its visualizations.",
  over=["inputs", "histories"], quant="all operations of scene objects, robot nodes, node sets, robots, sensors and collision models that write a joint value or pose, all control-flow paths",
  tests="Tests check a few poses of small robots; a child, propagated joint, model or visualization left behind in one branch shows only for particular robots, flags and histories.",
  files=["VirtualRobot/SceneObject.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/RobotConfig.cpp", "VirtualRobot/CollisionDetection/CollisionModel.cpp"],
  mech=[("updatePose", "VirtualRobot/SceneObject.cpp"), ("updateTransformationMatrices", "VirtualRobot/Nodes/RobotNode.cpp")],
  state=[("globalPose", "current pose", "VirtualRobot/SceneObject.h")],
  technique="path-sensitive pending-obligation (typestate) analysis with 'for all children' coverage, plus dependence analysis of computed poses",
  note="Numerical correctness of the transformations is not decided, only what they depend on and where the result is handed to.")

P(id="C09", title="A clone carries everything the original was configured with",
  statement="Cloning a scene object, robot node, robot, sensor, grasp, grasp set, end effector, robot configuration, node set, trajectory, collision or visualization model, workspace representation, manipulability measure or planning "
            "space yields an object with the same settings and contents as the original (limits, velocities and torques, transformations or DH parameters, joint offsets, physics, poses, propagated joint values, grasps, "
            "configurations, data, weights), whatever options and branches the cloning takes; parts that belong to the object (models, grasps, data arrays) are copied, not shared with the original.",
  over=["inputs", "histories"], quant="all public clone functions and all attributes of the cloned classes; all control-flow paths of cloning",
  tests="Tests clone a robot and compare a handful of joint values; an attribute that is not taken over, or only for one parametrisation, goes unnoticed.",
  files=["VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/RobotNodeRevolute.cpp", "VirtualRobot/Nodes/RobotNodePrismatic.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/Grasping/Grasp.cpp",
         "VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/Workspace/WorkspaceRepresentation.cpp", "VirtualRobot/IK/PoseQualityManipulability.cpp", "MotionPlanning/CSpace/CSpaceSampled.cpp"],
  mech=[("virtual _clone per class plus common part in the base class", "VirtualRobot/Nodes/RobotNode.cpp"), ("extractSubPart behind Robot::clone", "VirtualRobot/Robot.cpp")],
  technique="interprocedural member-to-member dataflow over clang CFGs (which member of the new object is made of which member of the old one) with a must-pass path check per attribute",
  note="The attributes owed per class are a table taken from the class definitions. Correct scaling and the number of elements a copy loop visits are not decided.")

P(id="C13", title="Indices, cells, positions and element counts never lead outside a container",
  statement="Whatever index, range, dimension, cell, voxel or position a caller passes to a public operation, and however few elements a container holds, no element outside the container is accessed: an element is only reached where its index was compared with "
            "the bounds (or the operation declares the range as an asserted precondition), differences of unsigned element counts never wrap around on empty or short containers, first and last elements are only taken from containers known to have one, "
            "a voxel is only used after the conversion from a pose or position succeeded, and that conversion succeeds only when every component lies within the workspace.",
  over=["inputs"], quant="every public operation that accesses elements by caller-controlled numbers, every access behind an unsigned difference, every workspace data access",
  tests="The tests use valid indices and non-empty containers; an off-by-one or a wrapped difference reads adjacent memory without failing.",
  files=["VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/Trajectory.cpp", "VirtualRobot/Grasping/GraspSet.cpp", "VirtualRobot/Workspace/WorkspaceGrid.cpp", "VirtualRobot/Workspace/WorkspaceRepresentation.cpp",
         "VirtualRobot/math/Histogram.cpp", "MotionPlanning/CSpace/CSpacePath.cpp", "MotionPlanning/CSpace/CSpaceTree.cpp"],
  mech=[("index checks", "VirtualRobot/Trajectory.cpp"), ("cell checks", "VirtualRobot/Workspace/WorkspaceGrid.cpp"), ("voxel conversion", "VirtualRobot/Workspace/WorkspaceRepresentation.cpp")],
  technique="path-sensitive difference-bound dataflow over CFGs; universally quantified loop facts for the voxel conversion",
  note="Declared (asserted) index ranges, internal data arrays and containers filled by a call are assumptions; integer width conversions are treated as value preserving; workspaces have at least one voxel per dimension.")

P(id="C14", title="Iterators and element references are never used after invalidation",
  statement="No iterator, and no reference or pointer to a container element, is used after an operation that may invalidate it - in the same function or inside an operation it calls, also one that comes back to the container through an element's "
            "pointer to its owner: while the elements of a container are visited, it is not structurally changed unless the visit ends or continues from a position the change returned. An erased element does not make an index based visit skip the next one, "
            "the result of a search is only dereferenced or erased when the search is known to have found something, and no iterator or character pointer outlives the temporary it points into.",
  over=["inputs", "histories"], quant="every function of the libraries, all control-flow paths, all containers of the standard library, modifications through any call chain",
  tests="A stale iterator often still reads plausible memory and shows only for particular sizes, capacities, orders of insertion or searches that fail.",
  files=["VirtualRobot/CollisionDetection/CDManager.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/SceneObjectSet.cpp", "VirtualRobot/Trajectory.cpp", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp",
         "SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp", "MotionPlanning/CSpace/CSpaceTree.cpp"],
  mech=[("erase and visit loops", "SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp"), ("registration and removal", "VirtualRobot/Scene.cpp")],
  technique="iterator typestate dataflow over CFGs with interprocedural may-modify summaries of access paths",
  note="Access paths are compared syntactically after resolving references, getters and back pointers; two parameters are assumed not to name the same container. Raw memory and Coin/Bullet containers are outside.")

NA = [
 ("N01", "Time-optimal trajectories respect limits and are time optimal", "The executed trajectory never exceeds the velocity and acceleration limits it was built with and follows the given path.",
  ["inputs"], "numerical integration over real-valued phase-plane curves; no structural clause whose violation is visible in the code's shape",
  ["VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp"]),
 ("N02", "Inverse kinematics converges for reachable targets", "For a reachable target pose the iterative solvers find a solution within the tolerance.",
  ["inputs"], "convergence of a numerical iteration; only the acceptance of results is structural (claimed separately)", ["VirtualRobot/IK/DifferentialIK.cpp"]),
 ("N03", "Jacobians equal the derivative of the forward kinematics", "Each Jacobian entry is the partial derivative of the TCP pose with respect to the joint value.",
  ["inputs"], "equality of two numerical functions; needs symbolic differentiation or testing", ["VirtualRobot/IK/DifferentialIK.cpp", "VirtualRobot/IK/JacobiProvider.cpp"]),
 ("N04", "Grasp quality metrics are geometrically correct", "The epsilon and volume metrics are those of the convex hull of the contact wrenches.",
  ["inputs"], "depends on the vendored qhull library and floating-point geometry", ["GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp"]),
 ("N05", "Triangle collision and distance results are geometrically exact", "Two models are reported in collision iff two of their triangles intersect, and the distance is the minimum over triangle pairs.",
  ["inputs"], "decided by the vendored PQP library on floating-point data; only the exhaustiveness of the pair enumeration around it is structural", ["VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp"]),
 ("N06", "Compression followed by decompression returns the original bytes", "Everything written through the compression layer is read back unchanged.",
  ["inputs"], "round-trip equality of an adaptive dictionary coder over all byte strings is a value property outside the reach of a structural argument", ["VirtualRobot/Compression/CompressionBZip2.cpp"]),
 ("N07", "Sampling based planners are probabilistically complete", "If a collision-free path exists, the probability that a planner finds it approaches one with the number of cycles.",
  ["inputs", "histories"], "a limit statement about random processes", ["MotionPlanning/Planner/Rrt.cpp", "MotionPlanning/Planner/BiRrt.cpp"]),
 ("N08", "Pose and rotation conversions are mutually inverse", "Converting between rotation matrices, quaternions, roll-pitch-yaw and axis-angle and back gives the same rotation.",
  ["inputs"], "floating-point identities with case distinctions on runtime values", ["VirtualRobot/MathTools.cpp"]),
]
