import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed as _s
WANT = sys.argv[1:]


def seed(sid, *args):
    if not WANT or sid.split("_")[0] in WANT:
        _s.seed(sid, *args)


R = "nonlinear_avoidance/"
ELL = """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from vartools.states import Pose, Twist
"""

seed("s07_seen_already", "C06", [(R + "multi_obstacle_container.py",
"""    def append(self, obstacle: HierarchyObstacle) -> None:
        self._obstacle_list.append(obstacle)
""",
"""    def append(self, obstacle: HierarchyObstacle) -> None:
        if obstacle not in self._obstacle_list:
            self._obstacle_list.append(obstacle)
""")], ELL + """
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle import MultiObstacle


def tree():
    one = MultiObstacle(Pose(np.zeros(2), 0.0))
    one.set_root(Ellipse(center_position=np.zeros(2), axes_length=np.ones(2)))
    return one


both = MultiObstacleContainer()
first = tree()
both.append(first)
both.append(first)
assert len(both) == 2
""", "an obstacle which is appended a second time",
"the container does not list the obstacles that the history implies")

seed("s08_contact_shares", "C07", [(R + "multi_obstacle_avoider.py",
"            return critical_points * 1.0 / np.sum(critical_points)\n",
"            return critical_points * 1.0\n")], """
import numpy as np
from nonlinear_avoidance.multi_obstacle_avoider import compute_gamma_weights

assert np.allclose(compute_gamma_weights([1.0, 3.0]), [1, 0])
assert np.allclose(compute_gamma_weights([1.0, 3.0, 0.9]), [0.5, 0, 0.5])
""", "two or more obstacles in contact at once", "the weights sum to more than one")

seed("s09_wide_tangent", "C08", [(R + "avoidance/rotational_avoider.py",
"            tmp_radius = math.pi - convergence_radius\n",
"            tmp_radius = convergence_radius\n")], """
import numpy as np
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider

normal = np.array([1.0, 0.0])
for radius in (np.pi / 2, 0.75 * np.pi):
    for angle in (1.0, 2.0, 3.0):
        vec = np.array([np.cos(angle), np.sin(angle)])
        out = RotationalAvoider.get_projected_tangent_from_vectors(
            vec, normal=normal, reference=-normal, convergence_radius=radius)
        assert np.isclose(np.arccos(out @ -normal), radius), (radius, angle, out)
""", "a convergence radius above 90 degrees and a direction outside of it",
"the tangent includes the wrong angle with the normal and may point into the obstacle")

seed("s10_speed_of_slowdown", "C09", [(R + "avoidance/rotational_avoider.py",
"""            if dot_product < (-1e-3):
                return 0.0
            return 1.0
""",
"""            return 1.0
""")], """
import numpy as np
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider

out = RotationalAvoider.compute_safe_scaling(
    velocity=np.array([-1.0, 0.5]), averaged_normal=np.array([1.0, 0]), gamma=1.0)
assert out == 0, out
""", "a position exactly on (or within) the surface, heading inwards",
"the motion is not stopped at the surface")

seed("s11_radius_of_neighbour", "C10", [(R + "avoidance/rotational_avoider.py",
"                convergence_radius = obstacle_list.convergence_radiuses[it_obs]\n",
"                convergence_radius = obstacle_list.convergence_radiuses[it]\n")], ELL + """
import math
from vartools.dynamical_systems import LinearSystem
from nonlinear_avoidance.rotation_container import RotationContainer
from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider


def velocity(positions, radiuses, at):
    env = RotationContainer()
    for pos in positions:
        env.append(Ellipse(center_position=np.array(pos), axes_length=np.array([2.0, 2.0])))
    env.convergence_radiuses = radiuses
    dyn = LinearSystem(attractor_position=np.array([6.0, 0.5]), maximum_velocity=1.0)
    avoider = RotationalAvoider(initial_dynamics=dyn, obstacle_environment=env,
                                convergence_system=dyn, cut_off_gamma=30.0)
    return avoider.avoid(np.array(at))


wide, narrow = 0.8 * math.pi, 0.5 * math.pi
alone = velocity([(0.0, 0.0)], [wide], (-1.2, 0.3))
both = velocity([(500.0, 0.0), (0.0, 0.0)], [narrow, wide], (-1.2, 0.3))
assert np.allclose(alone, both, atol=1e-6), (alone, both)
""", "different convergence radii per obstacle and an obstacle out of reach listed before",
"an obstacle uses the convergence radius of another one")

seed("s12_history_of_weights", "C11", [(R + "multi_obstacle_avoider.py",
"""        self._rotation_weights = []
        self._convergence_reference_proximity = []

        node_list""",
"""        if not hasattr(self, "_rotation_weights"):
            self._rotation_weights = []
            self._convergence_reference_proximity = []

        node_list""")], ELL + """
from vartools.dynamical_systems import LinearSystem
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider


def make():
    tree = MultiObstacle(Pose(np.zeros(2), 0.0))
    tree.set_root(Ellipse(center_position=np.zeros(2), axes_length=np.array([2.0, 3.0])))
    env = MultiObstacleContainer()
    env.append(tree)
    dyn = LinearSystem(attractor_position=np.array([6.0, 0.0]), maximum_velocity=1.0)
    return MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=env, initial_dynamics=dyn, reference_dynamics=dyn)


positions = [np.array([-3.0, 0.01]), np.array([3.0, 2.0]), np.array([-1.2, 0.4])]
used = make()
for pos in positions:
    old = used.evaluate_sequence(pos)
    assert np.allclose(old, make().evaluate_sequence(pos)), (pos, old)
""", "an evaluation close to the line through the reference point, followed by another one",
"the velocity depends on earlier evaluations: it stays slowed down")

seed("s13_spin_3d", "C12", [(R + "multi_obstacle_avoider.py",
"                        obs.twist.angular, (position - pose.position)\n",
"                        (position - pose.position), obs.twist.angular\n")], ELL + """
from scipy.spatial.transform import Rotation
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity

tree = MultiObstacle(Pose(np.array([1.0, 0.0, 0.0]), Rotation.identity()))
tree.set_root(Ellipse(center_position=np.zeros(3), axes_length=np.array([4.0, 1.0, 1.0])))
tree.twist = Twist(np.zeros(3), np.array([0.0, 0.0, 0.5]))
vel = compute_multiobstacle_relative_velocity(np.array([2.0, 0.5, 0.0]), [tree])
assert vel[1] > 0, vel
""", "an obstacle turning in 3D", "the robot evades to the wrong side and is hit by the obstacle")

seed("s14_center_far", "C14", [(R + "dynamics/circular_dynamics.py",
"                ((self.decent_factor - 1) * self.influence_radius)\n",
"                (self.influence_radius)\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.circular_dynamics import DynamicDynamics
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from vartools.states import ObjectPose

for factor, dist in ((2.0, 3.0), (3.0, 3.0), (3.0, 5.0)):
    dyn = DynamicDynamics(
        main_dynamics=SimpleCircularDynamics(pose=ObjectPose(position=np.zeros(2))),
        dynamics_of_base=ConstantValueWithSequence(np.array([1.0, 0.0])), influence_radius=2.0,
        frequency=10.0)
    dyn.decent_factor = factor
    dyn.update_base(np.array([0.0, dist]))
    assert dyn.position[0] <= 0.1 + 1e-9, (factor, dist, dyn.position)
    assert np.isclose(dyn.position[0], 0.1 * (factor * 2 - dist) / ((factor - 1) * 2))
""", "another decent factor than the default and a robot in the fading range",
"the center moves faster than its own motion")

seed("s15_endless_leg", "C15", [(R + "dynamics/segmented_dynamics.py",
"        tt = min(self.length, max(tt, 0))\n", "        tt = max(tt, 0)\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points

dyn = create_segment_from_points([[0.0, 0.0], [0.0, 3.0], [3.0, 3.0]], margin=0.1)
pos = np.array([0.0, 6.0])
for _ in range(600):
    pos = pos + 0.05 * dyn.evaluate(pos)
assert np.linalg.norm(pos - dyn.attractor_position) < 0.2, pos
""", "a robot beyond the end of a leg of the path, in line with the leg",
"the robot follows the extension of the leg and never arrives")

seed("s16_fold_power", "C16", [(R + "dynamics/projected_rotation_dynamics.py",
"                dotprod_factor = dotprod_factor ** (1.0 / self.dotprod_projection_power)\n",
"                dotprod_factor = math.sqrt(dotprod_factor)\n")], ELL + """
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics

obs = Ellipse(center_position=np.array([3.0, 0.5]), axes_length=np.array([2.0, 3.0]))
att = np.array([0.0, 0.0])
for power in (2, 1):
    dyn = ProjectedRotationDynamics(obstacle=obs, attractor_position=att)
    dyn.dotprod_projection_power = power
    pos = np.array([3.4, 3.0])
    far = dyn._get_folded_position_opposite_kernel_point(pos, att, in_obstacle_frame=False)
    back = dyn._get_unfolded_position_opposite_kernel_point(far, att, in_obstacle_frame=False)
    assert np.allclose(back, pos), (power, back)
""", "another power of the projection than the default", "unfolding does not undo folding")

seed("s17_skipped_after_opposite", "C21", [(R + "nonlinear_rotation_avoider.py",
"""            if projected_weight <= 0:
                continue

            obstacle_convergence_sequence""",
"""            if projected_weight <= 0:
                break

            obstacle_convergence_sequence""")], ELL + """
from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
from dynamic_obstacle_avoidance.containers import ObstacleContainer


class Spiral:
    dimension = 2
    attractor_position = np.zeros(2)

    def evaluate(self, position):
        rot = np.array([[0.0, -1.0], [1.0, 0.0]])
        out = -position + rot @ position
        return out / max(np.linalg.norm(out), 1.0)


def evaluate(order, at):
    obstacles = [Ellipse(center_position=np.array([4.0, 0.0]), axes_length=np.array([1.0, 1.0])),
                 Ellipse(center_position=np.array([-4.0, 1.5]), axes_length=np.array([1.0, 1.4]))]
    env = ObstacleContainer()
    for ii in order:
        env.append(obstacles[ii])
    dyn = Spiral()
    return SingularityConvergenceDynamics(
        initial_dynamics=dyn, obstacle_environment=env,
        obstacle_convergence=ProjectedRotationDynamics(
            attractor_position=np.zeros(2), initial_dynamics=dyn)).evaluate_sequence(at)


at = np.array([-4.0, 0.0])
assert np.allclose(evaluate([0, 1], at), evaluate([1, 0], at), atol=1e-6)
""", "a position exactly opposite of one obstacle, close to another one listed after it",
"the velocity depends on the order of the obstacles")

seed("s18_growing_in_place", "C05", [(R + "multi_obstacle.py",
"""            obs.axes_length = factor * obs.axes_length

            obs.pose = self._pose.transform_pose_from_relative(pose)
""",
"""            obs.axes_length = factor * obs.axes_length
""")], ELL + """
from nonlinear_avoidance.multi_obstacle import MultiObstacle

tree = MultiObstacle(Pose(np.array([1.0, 2.0]), 0.7))
tree.set_root(Ellipse(center_position=np.zeros(2), axes_length=np.array([2.0, 1.0])))
tree.add_component(Ellipse(center_position=np.array([1.0, 0.0]), axes_length=np.array([2.0, 1.0])),
                   reference_position=[-0.5, 0.0], parent_ind=0)
tree.deformation_rate = 0.5
tree.update_deformation(1.0)
local = tree.get_pose().transform_position_to_relative(tree.get_component(1).center_position)
assert np.allclose(local, [1.5, 0.0]), local
""", "a deforming obstacle of several parts", "the parts grow, but stay where they are")
