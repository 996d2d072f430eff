import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import seed as _s
WANT = sys.argv[1:]


def seed(sid, *args):
    if not WANT or sid.split("_")[0] in WANT:
        _s.seed(sid, *args)


R = "nonlinear_avoidance/"
ELL = """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from vartools.states import Pose, Twist
"""


LEARN = """
import numpy as np
from vartools.handwritting_handler import MotionDataHandler
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner


def demonstration(pos, attractor):
    pos = np.array(pos, dtype=float)
    data = MotionDataHandler(position=pos)
    vel = np.vstack((pos[1:] - pos[:-1], pos[-1:] - pos[-2:-1]))
    data.velocity = vel / np.linalg.norm(vel, axis=1)[:, None]
    data.sequence_value = np.linspace(0, 1, len(pos))
    data.attractor = np.array(attractor, dtype=float)
    return data
"""

seed("s19_sparse_groups", "C17", [(R + "kmeans_learner/kmeans_motion_learner.py",
"                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0\n",
"                    self.kmeans.cluster_centers_, obj=ii - min(n_delta_label, 1), axis=0\n")], LEARN + """
xx = np.hstack(([-30, -20, -10], np.linspace(0, 4, 40), np.linspace(8, 12, 40)))
data = demonstration(np.vstack((xx, 0 * xx)).T, (13.0, 0.0))
for start in range(20):
    np.random.seed(start)
    learner = KMeansMotionLearner(data, n_clusters=5)
    dist = np.abs(xx[:, None] - learner.kmeans.cluster_centers_[:, 0])
    assert np.all(np.bincount(np.argmin(dist, axis=1), minlength=learner.n_clusters) > 3), start
""", "a demonstration with three sparse groups of samples",
"groups with many samples are left out instead of sparse ones")

seed("s20_wall_in_the_opening", "C18", [(R + "kmeans_learner/kmeans_obstacle.py",
"                if len(self.successor_index) != 1:\n",
"                if len(self.successor_index) <= 1:\n")], """
import numpy as np
from sklearn.cluster import KMeans
from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle

centers = np.array([[-1.0, 0.0], [1.0, 0.0]])
kmeans = KMeans(n_clusters=2, init=centers, n_init=1, max_iter=1).fit(centers)
region = KMeansObstacle(kmeans=kmeans, radius=2.0, index=0)
region.successor_index = [1]
for pos in ((-0.001, 0.3), (0.0, 0.3)):
    assert region.get_gamma(np.array(pos), in_global_frame=True) > 1e6, pos
""", "a position exactly in the opening to the following region",
"there is a wall towards the following region")

seed("s21_first_region", "C19", [(R + "multihull_convergence.py",
"    if obstacle_list.get_parent(it_obs) >= 0:\n", "    if obstacle_list.get_parent(it_obs) > 0:\n")], """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import Ellipse
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
from nonlinear_avoidance.multihull_convergence import multihull_attraction

GOALS = [np.array([-1.0, 0.0]), np.array([0.7, 0.2])]


class Chain(MultiBoundaryContainer):
    def get_convergence_direction(self, position, it_obs):
        return GOALS[self.numbers[it_obs]] - position


def attract(order, pos):
    regions = [((0, 0), (2.0, 1.0), 0.0), ((2.5, 0.5), (2.0, 1.0), 0.4)]
    cont = Chain()
    cont.numbers = order
    for ii in order:
        center, axes, angle = regions[ii]
        cont.append(Ellipse(center_position=np.array(center, dtype=float), orientation=angle,
                            axes_length=np.array(axes), is_boundary=True))
    cont.extend_graph(child=order.index(1), parent=order.index(0))
    cont.update_intersection_graph()
    return multihull_attraction(np.array(pos), np.array([0.0, 1.0]), cont)


for pos in ((3.5, 1.2), (1.2, 0.6), (1.4, 0.3), (0.9, 0.4)):
    assert np.allclose(attract([0, 1], pos), attract([1, 0], pos), atol=1e-8), pos
""", "a region whose parent is the region that was added first",
"the motion depends on the order in which the regions are listed")

seed("s22_padded_record", "C20", [(R + "comparison/comparison_multiobstacle_vectorfield.py",
"            return positions[:, : (ii - 1)]\n", "            return positions[:, : (ii + 1)]\n")], """
import numpy as np
from nonlinear_avoidance.comparison.comparison_multiobstacle_vectorfield import integrate_trajectory


def motion(position):
    return np.array([1.0, 0.0]) if position[0] < 3 else np.zeros(2)


traj = integrate_trajectory(motion, np.array([2.0, 1.0]), it_max=500, delta_time=0.01)
steps = np.linalg.norm(traj[:, 1:] - traj[:, :-1], axis=0)
assert np.allclose(steps, 0.01), steps
""", "a trajectory that comes to rest", "the record ends with a jump to zero")

seed("s23_last_stage", "C22", [(R + "gmm_learner/math_tools.py",
"    xd = ds(x + k3) * k_f\n", "    xd = ds(x + k3)\n")], """
import numpy as np
from nonlinear_avoidance.gmm_learner.math_tools import rk4

out = rk4(0.5, np.array([1.0, 2.0]), lambda xx: -xx, k_f=2.0)
assert np.allclose(out, np.array([1.0, 2.0]) * (1 - 1 + 1 / 2 - 1 / 6 + 1 / 24)), out
""", "an integration step with a factor other than one", "the step is not of fourth order")

seed("s24_end_of_the_first", "C23", [(R + "gmm_learner/learner/directional_gmm.py",
"""                    + self.dataset["data"][0, it_set][:2, -1].T
""",
"""                    + self.dataset["data"][0, 0][:2, -1].T
""")], """
import os
import tempfile
import numpy as np
import scipy.io
from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM

data = np.empty((1, 2), dtype=object)
for kk, end in enumerate((0.0, 1.0)):
    xx = np.linspace(4, end, 30)
    data[0, kk] = np.vstack((xx, xx * 0.5, -np.ones(30), -0.5 * np.ones(30)))
with tempfile.TemporaryDirectory() as folder:
    scipy.io.savemat(os.path.join(folder, "data.mat"), {"data": data})
    learner = DirectionalGMM(directory_name=folder, file_name="data.mat")
    learner.load_data_from_mat()
assert np.allclose(learner.pos_attractor, (0.5, 0.25)), learner.pos_attractor
""", "several demonstrations which do not end at the same position",
"the attractor is the end of the first demonstration")

seed("s25_second_choice", "C24", [(R + "gmm_learner/graph.py",
"                    if it_pref and len(list_parent_child) > 1:\n",
"                    if it_pref > 1 and len(list_parent_child) > 1:\n")], """
import types
import numpy as np
from nonlinear_avoidance.gmm_learner.graph import GraphGMM

# Parts 1 and 2 prefer each other, and both reach the root as a second choice
share = np.array([[1.0, 0.2, 0.1], [0.3, 1.0, 0.6], [0.1, 0.6, 1.0]])


class Fake:
    dim_space = 2
    pos_attractor = np.zeros(2)
    dpgmm = types.SimpleNamespace(means_=np.zeros((3, 5)), covariances_=np.zeros((3, 5, 5)))
    n_gaussians = 3

    def get_mixing_weights(self, **kwargs):
        return share.T


class Graph(GraphGMM):
    def __init__(self):
        self._Learner = Fake()
        self._graph_root = None

    def get_end_point(self, it):
        return np.array([[0.0, 0.0], [2.0, 0.0], [3.0, 0.0]])[it]


graph = Graph()
graph.create_graph_from_gaussians()
assert [int(pp) for pp in graph._parent_array[1:]] == [0, 1], graph._parent_array
""", "two or more regions that reach the tree with their second choice only",
"a region is attached to its second choice though its first one leads to the root")

seed("s26_motion_of_the_former", "C13", [(R + "rotation_container.py",
"        self._convergence_dynamics[key] = None\n",
"        if self._convergence_dynamics[key] is None:\n"
"            self._convergence_dynamics[key] = None\n")], """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from vartools.dynamical_systems import LinearSystem
from nonlinear_avoidance.rotation_container import RotationContainer

one = Ellipse(center_position=np.zeros(2), axes_length=np.ones(2))
two = Ellipse(center_position=np.ones(2), axes_length=np.ones(2))
cont = RotationContainer()
cont.append(one)
cont.set_convergence_directions(converging_dynamics=LinearSystem(attractor_position=np.ones(2)))
cont[0] = two
try:
    kept = cont.get_convergence_direction(np.array([3.0, 0.0]), 0)
except AttributeError:
    kept = None
assert kept is None, kept
""", "an obstacle which is replaced after its motion was set",
"the new obstacle has the motion of the former one")

seed("s27_sequence_in_place", "C02", [(R + "vector_rotation.py",
"        temp_base = np.copy(self.basis_array)\n", "        temp_base = self.basis_array\n")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationSequence

seq = VectorRotationSequence.create_from_vector_array(
    np.array([[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, 1.0, 1.0], [0.0, 0.0, 1.0]]).T)
first = seq.rotate_weighted(np.array([1.0, 0.0, 0.0]), weights=[0.5, 0.2, 0.3])
again = seq.rotate_weighted(np.array([1.0, 0.0, 0.0]), weights=[0.5, 0.2, 0.3])
assert np.allclose(first, again), (first, again)
""", "a sequence that is evaluated with partial weights more than once",
"the sequence is changed by evaluating it")

seed("s28_weights_of_before", "C03", [(R + "vector_rotation.py",
"        self.reset_node_weights()\n\n", "")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree

tree = VectorRotationTree(0, np.array([1.0, 0.0]))
tree.add_node(1, np.array([0.0, 1.0]), parent_id=0)
tree.add_node(2, np.array([1.0, -1.0]), parent_id=0)
tree.get_weighted_mean([1, 2], [0.5, 0.5])
mean = tree.get_weighted_mean([2], [1.0])
assert np.allclose(mean, np.array([1.0, -1.0]) / np.sqrt(2)), mean
""", "a mean over some nodes after a mean over others", "earlier weights have an influence on the mean")

seed("s29_fourth_dimension", "C14", [(R + "dynamics/circular_dynamics.py",
"            direction[2:] = (-1) * relative_position[2:] * self.k2\n",
"            direction[2] = (-1) * relative_position[2] * self.k2\n")], """
import numpy as np
from vartools.states import ObjectPose
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics

motion = SimpleCircularDynamics(pose=ObjectPose(position=np.zeros(4)), radius=1.0, dimension=4)
vel = motion.evaluate(np.array([1.0, 0.0, 0.0, 0.5]))
assert vel[3] < -1e-3, vel
""", "a motion in four dimensions", "it never gets to the plane of its circle")
