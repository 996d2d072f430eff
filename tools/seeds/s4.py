import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed as _s
WANT = sys.argv[1:]


def seed(sid, *args):
    if not WANT or sid.split("_")[0] in WANT:
        _s.seed(sid, *args)


R = "nonlinear_avoidance/"
LEARN = """
import numpy as np
from vartools.handwritting_handler import MotionDataHandler
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner


def demonstration(pos, attractor):
    pos = np.array(pos, dtype=float)
    data = MotionDataHandler(position=pos)
    vel = np.vstack((pos[1:] - pos[:-1], pos[-1:] - pos[-2:-1]))
    data.velocity = vel / np.linalg.norm(vel, axis=1)[:, None]
    data.sequence_value = np.linspace(0, 1, len(pos))
    data.attractor = np.array(attractor, dtype=float)
    return data
"""

BODY = """
import types
import numpy as np
from scipy.spatial.transform import Rotation
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.multi_body_human import transform_from_multibodyobstacle_to_multiobstacle


def part(position=(0, 0, 0)):
    return Ellipse(center_position=np.array(position, dtype=float), axes_length=np.array([0.2, 0.3, 0.5]))


def joint(body, idx, end):
    return body[idx].pose.transform_position_from_relative(np.array(end, dtype=float))
"""

seed("s30_still_hand", "C25", [(R + "multi_body_human.py",
"""                self[idx_node].orientation = self[idx_parent].orientation

                self.align_position_with_parent(idx_node)
""", """                self[idx_node].orientation = self[idx_parent].orientation

                if filtered_poses[idx_parent] is not None:
                    self.align_position_with_parent(idx_node)
""")], BODY + """
class Updater:
    def get_messages(self):
        return [types.SimpleNamespace(obs_id=7, position=np.array([1.0, 0.5, 0.3]),
                                      rotation=Rotation.from_euler("z", 0.4))]


body = MultiBodyObstacle(pose_updater=Updater())
body.set_root(part(), name="trunk", update_id=7)
body.add_component(part(), name="arm", reference_position=[0, 0, -0.2], parent_name="trunk",
                   parent_reference_position=[0.1, 0, 0.2])
body.add_component(part(), name="hand", reference_position=[0, 0, -0.2], parent_name="arm",
                   parent_reference_position=[0, 0, 0.2])
body.update()
assert np.allclose(joint(body, 2, [0, 0, -0.2]), joint(body, 1, [0, 0, 0.2]))
""", "a part which is two joints away from the one that is tracked",
"it does not follow the part it hangs on")

seed("s31_order_of_the_children", "C25", [(R + "multi_body_human.py",
"""        self._graph.nodes[parent_ind]["indeces_children"].append(self._id_counter)
""", """        self._graph.nodes[parent_ind]["indeces_children"].insert(0, self._id_counter)
""")], BODY + """
body = MultiBodyObstacle()
body.set_root(part((0.4, 0.1, 0.0)), name="trunk")
ends = [[0.1, 0.0, 0.2], [-0.1, 0.0, 0.2]]
for ii, end in enumerate(ends):
    body.add_component(part(), name=f"arm{ii}", reference_position=[0, 0, -0.2], parent_name="trunk",
                       parent_reference_position=end)
body.update()
for ii, end in enumerate(ends):
    assert np.allclose(joint(body, ii + 1, [0, 0, -0.2]), joint(body, 0, end)), ii
""", "two parts at the same one", "the parts swap their joints")

GMM = """
import numpy as np
from nonlinear_avoidance.gmm_obstacle import GmmObstacle


class Mixture:
    covariance_type = "full"

    def __init__(self, means, covariances):
        self.means_ = np.array(means, dtype=float)
        self.covariances_ = np.array(covariances, dtype=float)
        self.precisions_cholesky_ = np.array(
            [np.linalg.cholesky(np.linalg.inv(cov)) for cov in self.covariances_])
        self.weights_ = np.ones(len(self.means_)) / len(self.means_)

    def predict_proba(self, positions):
        value = np.array([[np.exp(-0.5 * (pp - mm) @ np.linalg.inv(cc) @ (pp - mm)) / np.sqrt(np.linalg.det(cc))
                           for mm, cc in zip(self.means_, self.covariances_)] for pp in positions])
        return value / value.sum(axis=1, keepdims=True)


def obstacle(means, covariances):
    obs = GmmObstacle(n_gmms=len(means))
    obs._gmm = Mixture(means, covariances)
    obs.evaluate_hirarchy_and_reference_points()
    return obs
"""

seed("s32_row_of_the_next", "C26", [(R + "gmm_obstacle.py",
"            proba_matrix = np.delete(proba_matrix, (ind[0]), axis=0)\n",
"            proba_matrix = np.delete(proba_matrix, 0, axis=0)\n")], GMM + """
means = [[0.0, 3.2], [-3.0, 0.0], [0.0, 0.0], [3.0, 0.0], [0.0, 6.0], [0.0, -9.2]]
obs = obstacle(means, [np.eye(2)] * 6)
parents = [obs.gmm_index_graph.get_parent(ii) for ii in range(6)]
assert parents == [2, 2, None, 2, 0, 2], parents
""", "at least four ellipses which are not added in their order", "ellipses hang on the wrong one")

seed("s33_hidden_from_the_other_side", "C26", [(R + "gmm_obstacle.py",
"            if surface_point_gamma >= 1:\n                continue\n",
"            if surface_point_gamma > 2:\n                continue\n")], GMM + """
obs = obstacle([[0.0, 0.0], [1.5, 0.0]], [0.25 * np.eye(2), np.diag([0.25, 1.0])])
for xx in np.linspace(-4, 4, 17):
    for yy in (2.5, 3.0, 4.0, -2.5, -4.0):
        position = np.array([xx, yy])
        obs.evaluate_gamma_weights(position)
        gammas = np.array([obs.get_gamma_proportional(position, ii) for ii in range(2)]) - 1
        if min(gammas) > 0:
            assert obs.relative_weights[1] / obs.relative_weights[0] <= gammas[0] / gammas[1] + 1e-9, position
""", "a position next to two ellipses", "the weight of an ellipse grows although nothing is in front of it")

seed("s34_plane_of_the_turn", "C15", [(R + "dynamics/locally_rotated_linear_dynamics.py",
"        local_rotation = global_rotation.rotate_vector_rotation(self.rotation)\n",
"        local_rotation = self.rotation\n")], """
import numpy as np
from scipy.spatial.transform import Rotation
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics import LocallyRotatedFromObtacle

obstacle = Ellipse(center_position=np.array([3.0, 0.0, 0.0]), axes_length=np.array([2.0, 2.0, 2.0]),
                   orientation=Rotation.identity())
motion = LocallyRotatedFromObtacle(obstacle=obstacle, attractor_position=np.zeros(3),
                                   reference_velocity=np.array([-0.6, 0.8, 0.0]))
vel = motion.evaluate(np.array([1.0, 0.0, 2.0]))
side = np.array([2.0, 0.0, -1.0]) / np.sqrt(5)
assert vel[1] > 0.01 and abs(vel @ side) < 1e-6 * np.linalg.norm(vel), vel
""", "a motion in 3D, evaluated aside of the line from the obstacle to the attractor",
"the motion is turned about a fixed axis, out of the plane which it is given by")

seed("s35_direction_as_learned", "C17", [(R + "kmeans_learner/kmeans_motion_learner.py",
"        if self._is_pointing_towards_parent(direction, ind_node, ind_parent):\n            return direction\n",
"        if norm_dir or self._is_pointing_towards_parent(direction, ind_node, ind_parent):\n            return direction\n")],
LEARN + """
corners = np.array([(0, 0), (1, 1.5), (2, 0), (3, 1.5), (4, 0)], dtype=float)
length = np.hstack((0, np.cumsum(np.linalg.norm(np.diff(corners, axis=0), axis=1))))
at = np.linspace(0, 1, 30) / 1.06 * length[-1]
xx = np.vstack([np.interp(at, length, corners[:, dd]) for dd in range(2)]).T
goal = [np.interp(1.05 / 1.06 * length[-1], length, corners[:, dd]) for dd in range(2)]
data = demonstration(xx, goal)
at = lambda ss: np.array([np.interp(ss / 1.06 * length[-1], length, corners[:, dd]) for dd in range(2)])
data.velocity = np.array([at(ss + 0.01) - at(ss - 0.01) for ss in np.linspace(0, 1, 30)])
data.velocity /= np.linalg.norm(data.velocity, axis=1)[:, None]
np.random.seed(0)
learner = KMeansMotionLearner.from_centers(
    np.array([part.mean(axis=0) for part in np.array_split(xx, 5)]).T, data)
centers = learner.kmeans.cluster_centers_
size = max(learner.region_radius_, 0.3 * np.max(np.linalg.norm(centers - np.mean(centers, axis=0), axis=1)))
for start in xx[::5]:
    pos = np.copy(start)
    for _ in range(900):
        if np.linalg.norm(pos - goal) < 0.12:
            break
        pos = pos + 0.03 * size * learner.predict(pos)
    assert np.linalg.norm(pos - goal) < 0.2, (start, pos)
""", "a demonstration with turns of more than a right angle", "the learned motion leaves its regions")

seed("s36_distance_of_the_end", "C15", [(R + "dynamics/segmented_dynamics.py",
"        return dist_attr / self.slowdown_distance * self.maximum_velocity\n",
"        return dist_attr * self.maximum_velocity\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points

motion = create_segment_from_points([[0.0, 0.0], [0.0, 3.0], [3.0, 3.0]], margin=0.1)
motion.slowdown_distance = 2.0
assert np.isclose(np.linalg.norm(motion.evaluate(motion.attractor_position - [1.5, 0.0])), 0.75)
""", "a distance other than one for slowing down", "the speed jumps at that distance")
