"""The properties, and how each is decided (source of properties.jsonl and MANIFEST.json)."""
TRUST = ("Exhaustive within the bounds given in DESIGN.md; trusts the stand-ins for the two "
         "third-party packages and the reference model of the check.")
OPS = "explicit-state exploration of all operation sequences on the real code vs reference model"
SCENES = "exhaustive enumeration of a bounded configuration space on the real code vs reference model"
LOOP = "exhaustive exploration of the closed-loop transition system of the real code"

NOT_CLAIMED = {}

PROPS = []


def prop(**kw):
    kw.setdefault("note", TRUST)
    PROPS.append(kw)


prop(
    id="C01", title="Rotations between directions are exact rotations in the right plane",
    statement="For any two non-zero vectors in any dimension, parallel, nearly parallel or "
              "opposite ones included, the rotation between them turns the first direction into "
              "the second, moves every other vector only within their common plane, keeps lengths, "
              "and is undone by its inverse; a fraction of it turns by that fraction of the angle. "
              "Turning a rotation, or a sequence of them, by another one turns the plane it acts "
              "in and keeps its angle. The directional sum of two vectors lies on the arc between "
              "them at the weighted fraction with the weighted mean of their lengths, and is "
              "finite for opposite and zero vectors.",
    over=["inputs"],
    quant="all pairs (and pairs of pairs) of the lattice directions in 2, 3 and 4 dimensions, all "
          "scales, fractions and weights of the bounded alphabets, offsets from 1e-15 to 0.1",
    why="A few tests rotate single vectors; degenerate pairs and rotations of rotations are not "
        "covered, and the property is over all pairs of directions and fractions.",
    files=["nonlinear_avoidance/vector_rotation.py"],
    mech=[("rotation in a plane", "nonlinear_avoidance/vector_rotation.py:VectorRotationXd"),
          ("rotation of arrays", "nonlinear_avoidance/vector_rotation.py:rotate_array"),
          ("directional sum",
           "nonlinear_avoidance/vector_rotation.py:directional_vector_addition")],
    technique=SCENES,
)

prop(
    id="C02", title="Rotation sequences chain their rotations from start to end",
    statement="A sequence of rotations built from a list of vectors, or step by step by appending "
              "at its end or inserting at its start, consists of one rotation per step, each "
              "starting where the former one ends; applied in full it takes the first direction to "
              "the last, and applied with weights each step turns by its accumulated fraction, "
              "carried along by the turns before it. Opposite neighbours and zero "
              "vectors are refused, and no operation alters its input or another sequence.",
    over=["histories", "inputs"],
    quant="all vector lists up to length 5, all construction histories up to depth 4 and all "
          "weight compositions over bounded direction alphabets in 2 and 3 dimensions",
    why="Tests build one or two fixed sequences; the property is over all lists, construction "
        "histories and weights.",
    files=["nonlinear_avoidance/vector_rotation.py"],
    mech=[("sequence of rotations",
           "nonlinear_avoidance/vector_rotation.py:VectorRotationSequence")],
    technique=OPS,
)

prop(
    id="C03", title="Weighted means over direction trees are the level-wise mean rotations",
    statement="For every tree of directions and every weighting with sum one, the weighted mean is "
              "the root turned, level by level, by the weighted mean of the rotations of that "
              "level; full weight on a node yields exactly its direction, nodes without weight, "
              "node names and the order of insertion have no influence, and the equivalent "
              "rotation sequence starts at the root and ends in the mean. This holds after any "
              "history of adding nodes, attaching sequences and changing directions; refused "
              "insertions leave the tree unchanged and trees share no state.",
    over=["histories", "configurations", "inputs"],
    quant="all trees with up to 4 branches (5 nodes), all assignments of directions, all weight "
          "compositions, all edit histories and all pairs of merged sequences of the bounded "
          "alphabets in 2 to 4 dimensions",
    why="Tests average single trees with fixed weights; the property is over all tree shapes, "
        "weights and edit histories.",
    files=["nonlinear_avoidance/vector_rotation.py"],
    mech=[("tree of directions", "nonlinear_avoidance/vector_rotation.py:VectorRotationTree"),
          ("averaging",
           "nonlinear_avoidance/vector_rotation.py:VectorRotationTree.reduce_weighted_to_sequence")],
    technique=OPS,
)

prop(
    id="C04", title="Component hierarchies stay consistent trees under every edit history",
    statement="After any sequence of adding a component (as root or below a parent), re-parenting, "
              "re-rooting or expelling, a component hierarchy is a forest in which parent links and "
              "child lists mirror each other, every component is listed exactly once, and the root, "
              "the parents, the children and the order from the leaves up to the root are those "
              "that the edits imply. An edit that names an unknown component is refused "
              "and leaves the hierarchy as it was, and two hierarchies never share state.",
    over=["histories"],
    quant="all edit histories up to a bounded length over a bounded set of components, valid and "
          "invalid ones",
    why="The one test builds a single parent with one child; the property is over all edit "
        "histories including re-parenting, re-rooting and refused edits.",
    files=["nonlinear_avoidance/graph_handler.py"],
    mech=[("node, parent and children tables of the hierarchy",
           "nonlinear_avoidance/graph_handler.py:GraphHandler"),
          ("linked elements", "nonlinear_avoidance/graph_handler.py:GraphElement"),
          ("element registry", "nonlinear_avoidance/graph_handler.py:BasicGraphHandler")],
    technique=OPS,
)

prop(
    id="C05", title="A composite obstacle is the union of its components in every frame",
    statement="For every obstacle composed of convex components (component trees, arches, sets of "
              "ellipses) and every pose, the distance value at a point is that of the closest "
              "component and is the same whether the point is given in global or local frame, and "
              "moving the obstacle moves all its components and reference points rigidly. The "
              "reference point of every non-root component lies within the component and its "
              "parent, also when it is placed automatically. Parent and root assignments, surface "
              "points along a ray and tangent relations between components are answered for every "
              "component, the first one included.",
    over=["configurations", "histories", "inputs"],
    quant="all component trees, shape combinations, poses, pose updates, parent/root assignment "
          "histories and query points of the bounded spaces listed in DESIGN.md",
    why="The tests look at one arch and one tree at a few positions in the global frame only; the "
        "property is over all poses, trees, histories and query points.",
    files=["nonlinear_avoidance/multi_obstacle.py", "nonlinear_avoidance/_base_multiobstacle.py",
           "nonlinear_avoidance/arch_obstacle.py", "nonlinear_avoidance/multi_ellipse_obstacle.py",
           "nonlinear_avoidance/geometry.py",
           "nonlinear_avoidance/hierarchy_obstacle_protocol.py"],
    mech=[("composite obstacle", "nonlinear_avoidance/multi_obstacle.py:MultiObstacle"),
          ("arch of three boxes", "nonlinear_avoidance/arch_obstacle.py:BlockArchObstacle"),
          ("set of ellipses",
           "nonlinear_avoidance/multi_ellipse_obstacle.py:MultiEllipseObstacle"),
          ("reference point in the overlap of two shapes",
           "nonlinear_avoidance/geometry.py:get_intersection_of_obstacles")],
    technique=SCENES,
)

prop(
    id="C06", title="Obstacle containers stay consistent under every edit history",
    statement="After any history of appending, replacing, deleting and assigning convergence "
              "dynamics, a container of obstacles lists exactly the obstacles that the history "
              "implies, each with its own convergence radius and dynamics, which point to the common or "
              "to the given attractor at every position. In nested boundary environments the "
              "parent and child tables mirror each other and the connecting point of two boundaries "
              "lies on both. A position is reported free exactly if it lies outside of all "
              "obstacles, and containers share no state.",
    over=["histories", "configurations"],
    quant="all edit histories up to length 4 (thorough 5) over the bounded obstacle alphabets, all "
          "bounded boundary layouts and query points",
    why="Tests append a few obstacles once; deletion, replacement and re-linking histories are "
        "never run.",
    files=["nonlinear_avoidance/rotation_container.py",
           "nonlinear_avoidance/multiboundary_container.py",
           "nonlinear_avoidance/multi_obstacle_container.py"],
    mech=[("obstacles with convergence dynamics",
           "nonlinear_avoidance/rotation_container.py:RotationContainer"),
          ("nested boundaries",
           "nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer"),
          ("obstacle trees",
           "nonlinear_avoidance/multi_obstacle_container.py:MultiObstacleContainer")],
    technique=OPS,
)

prop(
    id="C07", title="Blending weights are bounded, fade with distance and favour contact",
    statement="All weights that blend obstacles, components of an obstacle and the initial motion "
              "are non-negative, never sum to more than one, do not depend on the order of the "
              "obstacles, and decrease with the distance; obstacles in contact with the robot take "
              "the full weight in equal shares. The rotation weight of an obstacle is one on its "
              "surface and at most the inverse of the distance value elsewhere, independent of the "
              "orientation of the scene. A component hidden behind its parent loses weight and a "
              "visible one keeps it, and convergence fades out when the attractor gets inside of "
              "an obstacle.",
    over=["inputs", "configurations"],
    quant="all weight and distance lists up to length 4 (thorough 5) over alphabets with limit "
          "cases, all direction triples of the bounded grids in 2D and 3D, all component trees and "
          "robot positions of the bounded grids",
    why="Tests evaluate three weight lists; limit cases such as several obstacles in contact are "
        "never met.",
    files=["nonlinear_avoidance/multi_obstacle_avoider.py",
           "nonlinear_avoidance/avoidance/rotational_avoider.py"],
    mech=[("limit of the weight sum",
           "nonlinear_avoidance/multi_obstacle_avoider.py:get_limited_weights_to_max_sum"),
          ("distance weights",
           "nonlinear_avoidance/multi_obstacle_avoider.py:compute_gamma_weights"),
          ("occlusion weights", "nonlinear_avoidance/multi_obstacle_avoider.py:"
           "MultiObstacleAvoider.compute_parent_occlusion_weight"),
          ("rotation weight", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.get_rotation_weight")],
    technique=SCENES,
)

prop(
    id="C08", title="Avoidance tangents keep to the convergence radius of the surface",
    statement="For every surface normal, reference direction, convergence radius and initial "
              "direction, the avoidance tangent includes exactly the convergence radius with the "
              "inward normal, so that it never points into the obstacle, and lies beyond the "
              "initial direction as seen from the reference direction; directions that already "
              "point away are kept. On the surface the blended motion follows the tangent, far "
              "away it is the initial motion, and in between both are blended by the distance "
              "weight.",
    over=["inputs"],
    quant="all combinations of normals, references, directions, radii and distances of bounded "
          "angular grids in 2, 3 and 4 dimensions",
    why="Tests look at a handful of 2D directions; the property is over all directions, radii and "
        "dimensions.",
    files=["nonlinear_avoidance/avoidance/rotational_avoider.py"],
    mech=[("tangent", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.get_projected_tangent_from_vectors"),
          ("pseudo tangent",
           "nonlinear_avoidance/avoidance/rotational_avoider.py:RotationalAvoider.get_pseudo_tangent"),
          ("blending", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.directional_convergence_summing")],
    technique=SCENES,
)

prop(
    id="C09", title="Slowing down is bounded, monotone and stops on the surface",
    statement="The slow-down factor in front of an obstacle is between zero and one for every "
              "velocity, mean normal and distance: one when moving away or far away, zero on the "
              "surface when heading inwards, smaller the closer and the more head-on, and "
              "independent of the speed. Applied to a velocity it keeps the direction and never "
              "exceeds the initial speed.",
    over=["inputs"],
    quant="all combinations of velocity direction, speed, mean normal and distance of bounded "
          "grids in 2D and 3D",
    why="A single test evaluates a few scenes; speeds other than one are never tried.",
    files=["nonlinear_avoidance/avoidance/rotational_avoider.py"],
    mech=[("slow-down factor", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.compute_safe_scaling"),
          ("slowed velocity", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.compute_safe_magnitude")],
    technique=SCENES,
)

prop(
    id="C10", title="Avoidance by rotation is collision-free, bounded and frame-independent",
    statement="For every position outside the obstacles (or inside the walls), the velocity "
              "obtained by locally rotating the initial motion is finite, never faster than the "
              "initial motion (or at exactly its speed when not sticking to surfaces), never "
              "points into an obstacle at its surface, and fades to the initial motion far away "
              "from all obstacles. It does not depend on the order of the obstacles, on the frame "
              "of reference, or on obstacles out of reach; with moving obstacles the same holds "
              "relative to their surface. Each obstacle uses its own convergence direction and "
              "radius where these are given, and at no single position does the motion differ "
              "from the one all around it (as straight behind an obstacle).",
    over=["inputs", "scenes"],
    quant="all combinations of obstacle sets (ellipse, sphere, box, wall; one to three of them), "
          "orientations, initial and converging motions, convergence radii, obstacle velocities "
          "and grid or surface positions in 2D and 3D, and all orders of the obstacles",
    why="Tests evaluate a handful of positions in a few 2D scenes; the guarantee is for every "
        "position around every scene.",
    files=["nonlinear_avoidance/avoidance/rotational_avoider.py",
           "nonlinear_avoidance/rotation_container.py"],
    mech=[("avoidance", "nonlinear_avoidance/avoidance/rotational_avoider.py:RotationalAvoider.avoid"),
          ("avoidance of sequences",
           "nonlinear_avoidance/avoidance/rotational_avoider.py:RotationalAvoider.avoid_sequence"),
          ("local convergence",
           "nonlinear_avoidance/rotation_container.py:RotationContainer.get_convergence_direction")],
    technique=SCENES,
)

prop(
    id="C11", title="Trees of obstacles are avoided without collision, whatever frame and order",
    statement="For obstacles composed of several overlapping parts (and any set of such obstacles), "
              "the avoiding velocity is finite at every position, never faster than the initial "
              "motion, never points into any part at its surface, pushes a robot that is inside "
              "outwards, is zero at the attractor, and fades to the initial motion, at its full "
              "speed, far away. It depends neither on the frame of reference, nor on the order of the "
              "obstacles or on earlier evaluations; next to moving, rotating or deforming obstacles "
              "the same holds relative to their surface. This includes initial motions without "
              "attractor and positions heading straight for the reference point.",
    over=["inputs", "scenes"],
    quant="all combinations of obstacle trees (single ellipse and box, angle, triple, chain, arch, "
          "two and three trees), poses, initial motions, convergence radii, obstacle velocities and "
          "grid, surface, inner, saddle-line and far positions in 2D and 3D, and all orders",
    why="Tests evaluate a handful of positions in a few 2D scenes; the guarantee is for every "
        "position around every tree.",
    files=["nonlinear_avoidance/multi_obstacle_avoider.py",
           "nonlinear_avoidance/nonlinear_rotation_avoider.py",
           "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py"],
    mech=[("avoidance",
           "nonlinear_avoidance/multi_obstacle_avoider.py:MultiObstacleAvoider.evaluate_sequence"),
          ("convergence",
           "nonlinear_avoidance/multi_obstacle_avoider.py:"
           "MultiObstacleAvoider.compute_convergence_sequence"),
          ("moving obstacles",
           "nonlinear_avoidance/multi_obstacle_avoider.py:"
           "compute_multiobstacle_relative_velocity")],
    technique=SCENES,
)

prop(
    id="C14", title="Circling motions converge to their circle or spiral from everywhere",
    statement="A circular motion keeps circling in the same direction, outwards within its circle, "
              "inwards out of it, along it on it, and towards its plane, at its given speed and in "
              "the frame given by its pose; its trajectories reach the circle from everywhere but "
              "the center, where it rests. A spiral additionally advances along its axis. The "
              "center of a moving circle follows its own motion, weighted by how close the robot "
              "is, and evaluating the motion does not move it.",
    over=["inputs", "histories"],
    quant="all combinations of poses, radii, speeds, approach factors and a polar grid of positions "
          "in 2D and 3D, complete trajectories from all start positions, and all histories of robot "
          "distances up to length 3",
    why="Only plots and single evaluations exist; the field and its limit cycle are over all "
        "positions and trajectories.",
    files=["nonlinear_avoidance/dynamics/circular_dynamics.py",
           "nonlinear_avoidance/dynamics/spiral_dynamics.py"],
    mech=[("circle", "nonlinear_avoidance/dynamics/circular_dynamics.py:SimpleCircularDynamics"),
          ("circle by rotation",
           "nonlinear_avoidance/dynamics/circular_dynamics.py:CircularRotationDynamics"),
          ("moving center", "nonlinear_avoidance/dynamics/circular_dynamics.py:DynamicDynamics"),
          ("spiral", "nonlinear_avoidance/dynamics/spiral_dynamics.py:SpiralingDynamics3D")],
    technique=LOOP,
)

prop(
    id="C15", title="Attractor motions and their deviations stay bounded and reach the goal",
    statement="Waving, locally rotated and path-following motions are finite everywhere, rest at "
              "the attractor, keep the speed limit, deviate from the direction to the attractor "
              "by no more than their limit and only where they are meant to, follow their path, and "
              "do not depend on the frame of reference; their trajectories reach the attractor. "
              "Learned deviations reproduce the learned directions, keep the reference speed and "
              "never turn against the reference motion. Motions rotated around obstacles are as "
              "given at the center of the obstacle.",
    over=["inputs"],
    quant="all combinations of attractors, limits, obstacles, lattice paths up to four legs, "
          "deviations and samples of the bounded alphabets, over grids of positions and complete "
          "trajectories, in 2D and 3D",
    why="Tests evaluate a few positions of one motion each; stability and boundedness are over all "
        "positions and parameters.",
    files=["nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py",
           "nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py",
           "nonlinear_avoidance/dynamics/segmented_dynamics.py",
           "nonlinear_avoidance/dynamics/nonlinear_deviation.py",
           "nonlinear_avoidance/dynamics/deviation_dynamics.py"],
    mech=[("waving", "nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py:WavyLinearDynamics"),
          ("local rotation", "nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py:"
           "LocallyRotatedFromObtacle"),
          ("path following",
           "nonlinear_avoidance/dynamics/segmented_dynamics.py:WavyPathFollowing"),
          ("learned deviation",
           "nonlinear_avoidance/dynamics/nonlinear_deviation.py:DeviationOfConstantFlow")],
    technique=LOOP,
)

prop(
    id="C16", title="Projection around an obstacle is invertible and its weight bounded",
    statement="Shrinking the obstacle to a point pulls positions in along their direction and "
              "inflating it restores them; folding the space around the obstacle and attractor "
              "keeps the center of the obstacle and is undone by unfolding. The resulting weight "
              "of the obstacle lies between zero and one, is one on and within the obstacle, "
              "fades with the distance, vanishes at the attractor and on the line opposite of "
              "the obstacle, and neither it nor the convergence velocity around the obstacle depends "
              "on the frame of reference. The convergence velocity keeps the initial speed and "
              "equals the motion at the obstacle on and within it.",
    over=["inputs"],
    quant="all combinations of obstacle shapes, poses, attractors, frames and motions, and polar "
          "grids of positions around the obstacle, the attractor and the line opposite, in 2D and "
          "3D",
    why="Tests evaluate single positions in one 2D scene; singular lines and frames are not "
        "covered.",
    files=["nonlinear_avoidance/dynamics/projected_rotation_dynamics.py"],
    mech=[("projection", "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:"
           "ProjectedRotationDynamics.get_projected_position"),
          ("weight", "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:"
           "ProjectedRotationDynamics.evaluate_projected_weight"),
          ("convergence", "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:"
           "ProjectedRotationDynamics.evaluate_convergence_around_obstacle")],
    technique=SCENES,
)

prop(
    id="C12", title="Followed trajectories never collide and straight motions arrive",
    statement="A robot that follows the avoiding velocity in small steps never enters an obstacle, "
              "from any start outside of them, for straight, turned, spiralling and flowing "
              "motions, single obstacles and trees of obstacles, standing still or moving and "
              "turning with changing velocities. The velocity stays finite on the whole "
              "trajectory, and trajectories of motions straight toward an attractor arrive "
              "there.",
    over=["inputs", "histories"],
    quant="complete trajectories from all starts of a grid, for all scenes, motions and "
          "convergence radii of the bounded alphabets, and all histories of velocity changes of a "
          "moving obstacle up to the depth",
    why="The tests evaluate single positions; absence of collisions and arrival are properties of "
        "whole trajectories.",
    files=["nonlinear_avoidance/multi_obstacle_avoider.py",
           "nonlinear_avoidance/avoidance/rotational_avoider.py"],
    mech=[("trees of obstacles",
           "nonlinear_avoidance/multi_obstacle_avoider.py:MultiObstacleAvoider.evaluate_sequence"),
          ("obstacles",
           "nonlinear_avoidance/avoidance/rotational_avoider.py:RotationalAvoider.avoid")],
    technique=LOOP,
)

prop(
    id="C21", title="Avoiding with the motion at the obstacle is collision-free and bounded",
    statement="Avoidance that converges to the motion found at the center of each obstacle never "
              "moves into an obstacle on its surface, is never faster than the initial motion, "
              "rests at the attractor, fades to the initial motion far away and equals it "
              "without obstacles. It does not depend on the frame of reference, the order of the "
              "obstacles or earlier evaluations, and leaves its inputs unchanged. For motions "
              "without attractor, the convergence around an obstacle is the motion at its center, "
              "weighted by the inverse of the distance value.",
    over=["inputs"],
    quant="all sets, orders, shapes and frames of up to three obstacles, all motions of the "
          "bounded alphabet, grids of positions, and positions on and just above the surfaces, "
          "in 2D and 3D",
    why="The existing tests evaluate few positions of one scene in 2D.",
    files=["nonlinear_avoidance/nonlinear_rotation_avoider.py"],
    mech=[("avoider", "nonlinear_avoidance/nonlinear_rotation_avoider.py:"
           "SingularityConvergenceDynamics"),
          ("convergence", "nonlinear_avoidance/nonlinear_rotation_avoider.py:"
           "ConvergenceDynamicsWithoutSingularity")],
    technique=SCENES,
)

prop(
    id="C13", title="Avoiders and motions follow every change of the scene, without memory",
    statement="After any history of evaluations, of obstacles that are moved, turned, given "
              "velocities, deformed or added, and of changes to the motion, each avoider and each "
              "motion behaves as one newly built from the final scene. Evaluations leave positions, "
              "obstacles and motions unchanged, and changing an array that was passed in or "
              "returned has no effect on later evaluations. Motions kept per obstacle of a list "
              "follow the obstacle they belong to.",
    over=["histories", "inputs"],
    quant="all histories up to the bounded length over the alphabet of operations, for each avoider "
          "and each motion, in 2D and 3D, compared at a set of probe positions",
    why="Tests evaluate scenes which are built once; stale caches and shared arrays only show after "
        "a sequence of changes.",
    files=["nonlinear_avoidance/multi_obstacle_avoider.py",
           "nonlinear_avoidance/nonlinear_rotation_avoider.py",
           "nonlinear_avoidance/avoidance/rotational_avoider.py",
           "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py",
           "nonlinear_avoidance/rotation_container.py"],
    mech=[("avoiders", "nonlinear_avoidance/multi_obstacle_avoider.py:MultiObstacleAvoider"),
          ("motion of an obstacle", "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py:"
           "ProjectedRotationDynamics"),
          ("list of obstacles", "nonlinear_avoidance/rotation_container.py:RotationContainer")],
    technique=OPS,
)

prop(
    id="C17", title="Learned motions stay in their regions and reach the attractor",
    statement="A motion learned from a demonstration splits it into a chain of regions from its end "
              "to its start, such that the demonstration stays inside the regions, groups with few "
              "samples are left out, and learning again is the same as learning anew. The motion is "
              "finite, at most as fast as the demonstration, rests at the attractor, never leaves a "
              "region through one of its walls, follows straight demonstrations along their line, "
              "points straight to the attractor far away, and every trajectory arrives there. "
              "Shifting the demonstration shifts the motion, and inputs are left unchanged.",
    over=["inputs", "histories"],
    quant="all demonstrations of the bounded set of curves (lines at all angles of a grid), numbers "
          "of groups, radius factors, group sizes, ways of construction, and positions on rays "
          "around all regions, in 2D and 3D",
    why="The existing tests learn from one data file which is no longer there, and look at few "
        "positions.",
    files=["nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py",
           "nonlinear_avoidance/avoidance/rotational_avoider.py"],
    mech=[("learning", "nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py:"
           "KMeansMotionLearner.fit"),
          ("prediction", "nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py:"
           "KMeansMotionLearner.predict"),
          ("straight away from a wall", "nonlinear_avoidance/avoidance/rotational_avoider.py:"
           "RotationalAvoider.directional_convergence_summing")],
    technique=SCENES,
)

prop(
    id="C18", title="Regions around clusters have one consistent surface, distance and normal",
    statement="The region of a cluster consists of the positions within its radius that are closer "
              "to its center than to any other center, so that each close position is in exactly "
              "one region. In each direction its surface point is the end of that set, the distance "
              "value is one there and above one only inside, and the normal is the unit normal of "
              "the side ahead, in both frames and at the center, too. Towards the following region, "
              "and only there, it has no wall; asking changes no input.",
    over=["inputs"],
    quant="all bounded sets of centers, radii, following regions, and positions on rays in all "
          "directions of a grid including the corners, from 1e-15 to 30 times the distance to the "
          "surface, in 2D and 3D",
    why="The existing tests look at few positions of one set of clusters in 2D.",
    files=["nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py"],
    mech=[("distance value",
           "nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py:KMeansObstacle.get_gamma"),
          ("surface", "nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py:"
           "KMeansObstacle.get_point_on_surface"),
          ("normal", "nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py:"
           "KMeansObstacle.get_normal_direction")],
    technique=SCENES,
)
prop(
    id="C19", title="Attraction into a chain of regions",
    statement="A motion that is attracted into a chain of overlapping regions keeps its speed, stays "
              "as it is outside of all regions and where it rests, and never leads out of the union "
              "of the regions through its outline. It does not depend on the order in which the "
              "regions are listed nor on the frame, makes no jump at single positions, and straight "
              "motions stay inside and arrive.",
    over=["inputs"],
    quant="all bounded chains of elliptic regions (numbers, turns, overlaps, parents), motions, and "
          "positions on a grid and on the outlines of all regions, and trajectories from each",
    why="The existing tests look at the direction at a handful of positions in one pair of regions.",
    files=["nonlinear_avoidance/multihull_convergence.py",
           "nonlinear_avoidance/multiboundary_container.py"],
    mech=[("attraction", "nonlinear_avoidance/multihull_convergence.py:multihull_attraction"),
          ("way through the regions", "nonlinear_avoidance/multiboundary_container.py:"
           "MultiBoundaryContainer.get_convergence_direction")],
    technique=SCENES,
)

prop(
    id="C20", title="Recorded trajectories and the measures they are compared with",
    statement="A recorded trajectory consists of steps of equal length along the evaluated motion "
              "until the given length, a rest or a collision, and is stored as it is. The measures "
              "(deviation from the path, acceleration, deviation from and alignment with a reference "
              "motion) are the means over all its positions or moving steps, and the summary of a "
              "folder of trajectories counts each one and lists mean and spread of them. In the "
              "environment of the comparison, avoidance moves on from each free start without "
              "touching an obstacle.",
    over=["inputs"],
    quant="all sequences of up to five steps out of a set with standing still in 2D and 3D, all "
          "bounded motions, starts, lengths, steps and walls, all sets of recorded runs, and a grid "
          "of starts in the environment",
    why="There are no tests of the recording and of the measures.",
    files=["nonlinear_avoidance/comparison/evaluation_trajectories.py",
           "nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py",
           "nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py"],
    mech=[("recording", "nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py:"
           "integrate_trajectory"),
          ("summary", "nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py:"
           "TrajectoryEvaluator.run")],
    technique=SCENES,
)

prop(
    id="C22", title="Numerical building blocks follow their mathematical definition",
    statement="The Gaussian density and its derivative, the fourth-order integration step, the "
              "capped linear magnitude, the orthonormal basis of the plane of two unit vectors (also "
              "if they are almost parallel), the closest point of a ray, the rotation from the "
              "reference direction to the motion, the outline and overlap of ellipses, the common "
              "position of two overlapping bodies, and the weights of overlapping regions have the "
              "values of their mathematical definition, and leave their inputs unchanged.",
    over=["inputs"],
    quant="all inputs of bounded grids (dimensions, scales, turns, degenerate and almost degenerate "
          "directions, disjoint, touching and overlapping bodies)",
    why="The existing tests look at two projections onto a ray.",
    files=["nonlinear_avoidance/utils.py", "nonlinear_avoidance/geometry.py",
           "nonlinear_avoidance/multivariant_gaussian.py",
           "nonlinear_avoidance/gmm_learner/math_tools.py",
           "nonlinear_avoidance/dynamics/sequenced_dynamics.py",
           "nonlinear_avoidance/multihull_convergence.py"],
    mech=[("basis", "nonlinear_avoidance/utils.py:get_orthonormal_spanning_basis"),
          ("overlap", "nonlinear_avoidance/geometry.py:get_intersection_of_obstacles"),
          ("integration", "nonlinear_avoidance/gmm_learner/math_tools.py:rk4")],
    technique=SCENES,
)

prop(
    id="C23", title="Regression of demonstrated motions",
    statement="The parts of a learned mixture have the densities, shares, and conditional means and "
              "covariances of Gaussians. The predicted motion turns the direction to the attractor "
              "by a part of the mean learned turn, is the same for single positions and arrays, moves "
              "along with the data and the attractor, and becomes straight far away; velocities are "
              "cropped to the given limits. Learning (by mixture, process or vectors) takes the "
              "attractor from the ends of the demonstrations unless one is given, and reproduces "
              "the demonstrations.",
    over=["inputs"],
    quant="all bounded mixtures (numbers, shapes, dimensions), positions on a grid around them, sets "
          "of demonstrations (turns, numbers, shifts), learners, and starts of trajectories",
    why="The existing tests check hardly any predicted value.",
    files=["nonlinear_avoidance/gmm_learner/learner/directional_gmm.py",
           "nonlinear_avoidance/gmm_learner/learner/gpr_directional.py",
           "nonlinear_avoidance/gmm_learner/learner/svr_directional.py",
           "nonlinear_avoidance/gmm_learner/learner/base.py",
           "nonlinear_avoidance/gmm_learner/direction_space.py"],
    mech=[("mixture", "nonlinear_avoidance/gmm_learner/learner/directional_gmm.py:"
           "DirectionalGMM"),
          ("loading", "nonlinear_avoidance/gmm_learner/learner/base.py:Learner")],
    technique=SCENES,
)

prop(
    id="C24", title="Regions of a learned mixture form a tree towards the attractor",
    statement="The regions enclosing the parts of a learned mixture form one tree: a single root, "
              "the region that ends closest to the attractor, no cycles, and children consistent "
              "with parents; each region follows the successor it prefers as long as that leads to "
              "the root. The tree does not depend on the order of the parts nor on the frame, each "
              "region converges to a position on its outline towards its parent, and no motion leads "
              "out of the regions.",
    over=["inputs"],
    quant="all bounded sets of parts (chains, stars, all four-element subsets of nine cells), their "
          "permutations and shifts, and positions on the outlines of the regions",
    why="The existing test draws one data set and checks nothing.",
    files=["nonlinear_avoidance/gmm_learner/graph.py",
           "nonlinear_avoidance/multiboundary_container.py"],
    mech=[("tree", "nonlinear_avoidance/gmm_learner/graph.py:GraphGMM"),
          ("goals", "nonlinear_avoidance/multiboundary_container.py:MultiBoundaryContainer")],
    technique=SCENES,
)

prop(
    id="C25", title="Articulated bodies stay joined at their joints",
    statement="Whatever sequence of moves, turns, replacements and tracked positions a body of "
              "jointed parts goes through, after an update every part meets the one it hangs on in "
              "their joint; orientations are kept, only positions follow, and a second update changes "
              "nothing. Tracked limbs point from their joint to the tracked position, parts without "
              "tracking turn with the part they hang on, and a tracked trunk stays upright at its "
              "fixed height, whatever the order of the messages. Distances to the body are those to "
              "its nearest part, the body turned into an obstacle keeps its hierarchy, joints and "
              "distances in every frame, and avoiding it neither collides nor speeds up.",
    over=["inputs", "histories"],
    quant="all hierarchies of up to four (thorough: five) parts in 2D and 3D, all change sequences "
          "up to length two or three, all sets of tracked parts with their positions above, below "
          "and beside the joint, robot frames, and grid and surface positions around a person",
    why="The existing tests of the bodies are switched off.",
    files=["nonlinear_avoidance/multi_body_human.py", "nonlinear_avoidance/multi_obstacle.py"],
    mech=[("joints", "nonlinear_avoidance/multi_body_human.py:MultiBodyObstacle."
                     "align_position_with_parent"),
          ("tracking", "nonlinear_avoidance/multi_body_human.py:MultiBodyObstacle."
                       "update_using_optitrack"),
          ("obstacle", "nonlinear_avoidance/multi_body_human.py:"
                       "transform_from_multibodyobstacle_to_multiobstacle")],
    technique=SCENES,
)

prop(
    id="C26", title="Ellipses around groups of points form one obstacle",
    statement="Every ellipse of a fitted mixture has one surface, on which its distance measure is "
              "one: distances, normals, projections (from its center or any point inside), the circle "
              "frame and the analytic ellipse all agree with the covariance of the points. The "
              "ellipses form one tree from the one closest to the common center, whatever their "
              "order, with reference points where the ellipses overlap. The weights of the ellipses "
              "are not negative, sum to one, are shared by those which contain the position and are "
              "smaller for hidden ones; the blended reference and normal are unit vectors, agree with "
              "those of a single ellipse, point outwards and do not depend on frame and order.",
    over=["inputs"],
    quant="all listed covariances, centers, sizes and directions in 2D and 3D, all orders of the "
          "layouts, all two- and three-element subsets of nine cells, lattice positions, and groups "
          "of lattice points",
    why="The existing tests evaluate one or two positions, with the wrong matrix filled in by hand.",
    files=["nonlinear_avoidance/gmm_obstacle.py", "nonlinear_avoidance/graph_handler.py"],
    mech=[("distances", "nonlinear_avoidance/gmm_obstacle.py:GmmObstacle.get_gamma_proportional"),
          ("tree", "nonlinear_avoidance/gmm_obstacle.py:GmmObstacle."
                   "evaluate_hirarchy_and_reference_points"),
          ("blending", "nonlinear_avoidance/gmm_obstacle.py:GmmObstacle."
                       "evalute_weighted_reference_and_normal_offset")],
    technique=SCENES,
)

prop(
    id="C27", title="Obstacles with pockets and tunnels can be entered and left safely",
    statement="A position collides with such an obstacle exactly if it is in the body and in none of "
              "the free regions, at any pose; there the motion is zero, and everywhere else it is "
              "finite, bounded, never points into the wall, comes to rest at the attractor, and is "
              "the same in every frame and (with one entrance) whatever attractor was set before. Two regions, or a "
              "region and the outside, are connected if they overlap, at a position in both, and the "
              "motion follows the shortest way through these connections, out of a pocket and into "
              "another one if need be, so that trajectories arrive without leaving free space. "
              "Several obstacles give the mean of their motions, and an attractor in the wall belongs "
              "to the closest region.",
    over=["inputs", "histories"],
    quant="all listed bodies with up to five free regions in (almost) all orders, attractors in every "
          "region, in overlaps, outside and in the wall, frames, lattice and outline positions, and "
          "closed-loop trajectories from a lattice",
    why="No test touches this class; paths, frames and pockets depend on geometry, order and history.",
    files=["nonlinear_avoidance/multi_hull_and_obstacle.py"],
    mech=[("shortest ways", "nonlinear_avoidance/multi_hull_and_obstacle.py:MultiHullAndObstacle."
                            "update_shortest_attractor_path"),
          ("connections", "nonlinear_avoidance/multi_hull_and_obstacle.py:MultiHullAndObstacle."
                          "evaluate_hirarchy_and_reference_points"),
          ("motion", "nonlinear_avoidance/multi_hull_and_obstacle.py:MultiHullAndObstacle.evaluate")],
    technique=LOOP,
)

prop(
    id="C28", title="Around a tree of obstacles, motions converge to the one at its root",
    statement="The direction to which the avoidance of trees of obstacles converges has unit length; on "
              "and within any part of a tree it is the motion at the root of this tree (or the fall-back "
              "motion there), far away and without obstacles it is the initial motion, and in the "
              "plane it lies in between. A tree around the attractor has no influence, which grows as "
              "the attractor gets further away. The direction depends neither on the frame of "
              "reference, nor on the order of trees and parts or earlier evaluations, and does not "
              "jump at single positions.",
    over=["inputs"],
    quant="all listed scenes of up to three trees in all frames, motions with and without attractor, "
          "fall-back motions, attractors at eight distances in several directions, lattices, "
          "positions on, in and straight behind every part, all orders of trees and parts, in 2D and 3D",
    why="The tests evaluate a handful of positions in 2D scenes; chains of parts, frames, orders and "
        "degenerate lines are not covered.",
    files=["nonlinear_avoidance/multi_obstacle_avoider.py"],
    mech=[("convergence", "nonlinear_avoidance/multi_obstacle_avoider.py:MultiObstacleAvoider."
                          "compute_convergence_sequence"),
          ("influence of a tree", "nonlinear_avoidance/multi_obstacle_avoider.py:"
                                  "MultiObstacleAvoider.compute_tree_weight"),
          ("reduction", "nonlinear_avoidance/multi_obstacle_avoider.py:MultiObstacleAvoider."
                        "vector_rotation_reduction")],
    technique=SCENES,
)
