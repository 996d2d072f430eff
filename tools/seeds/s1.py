import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import seed
R = "nonlinear_avoidance/"

seed("s01_opposite_3d", "C01", [(R + "vector_rotation.py",
"""            vec_perp = np.zeros(vec_init.shape)
            if not LA.norm(vec_init[:2]):
                vec_perp[0] = 1
            else:
                vec_perp[0] = vec_init[1]
                vec_perp[1] = vec_init[0] * (-1)
                vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
            angle""",
"""            vec_perp = np.zeros(vec_init.shape)
            if not vec_init[0]:
                vec_perp[1] = 1
            else:
                vec_perp[0] = vec_init[1]
                vec_perp[1] = vec_init[0] * (-1)
                vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
            angle""")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationXd

for vec in ([0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [0.0, 0.0, 1.0]):
    vec = np.array(vec)
    rot = VectorRotationXd.from_directions(vec, -vec)
    assert np.allclose(rot.rotate(vec), -vec), (vec, rot.rotate(vec))
    other = np.array([0.3, -0.5, 0.2])
    assert np.isclose(np.linalg.norm(rot.rotate(other)), np.linalg.norm(other))
""", "two opposite directions in the plane x = 0 with a non-zero second component",
"the rotation between opposite directions degenerates: it is no rotation any more")

seed("s02_push_root_angles", "C02", [(R + "vector_rotation.py",
"        self.rotation_angles = np.append(angle, self.rotation_angles)\n",
"        self.rotation_angles = np.append(self.rotation_angles, angle)\n")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationSequence, VectorRotationXd

c, s = np.cos, np.sin
vecs = [np.array([c(aa), s(aa)]) for aa in (0.0, 1.0, 1.4)]
seq = VectorRotationSequence.create_from_vector_array(np.array(vecs[1:]).T)
rot = VectorRotationXd.from_directions(vecs[0], vecs[1])
seq.push_root_from_base_and_angle(rot.base, rot.rotation_angle)
assert np.allclose(seq.get_end_vector(), vecs[-1]), seq.get_end_vector()
""", "a sequence to which a root of another angle is pushed in front",
"the angles are assigned to the wrong planes of rotation")

seed("s03_partial_depth", "C03", [(R + "vector_rotation.py",
"""                continue

            successors = self.get_all_childs_children(node_id)

            _succ_basis = []
""",
"""                continue

            successors = self.get_children(node_id)

            _succ_basis = []
""")], """
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree

dirs = [np.array(vv) / np.linalg.norm(vv)
        for vv in ([1.0, 0, 0], [1.0, 1, 0], [0.0, 1, 1], [-1.0, 1, 1.0])]
tree = VectorRotationTree()
tree.set_root(0, dirs[0])
for ii in range(1, 4):
    tree.add_node(node_id=ii, direction=dirs[ii], parent_id=ii - 1)
tree.add_node(node_id="b", direction=dirs[0], parent_id=0)
# The mean moves along the chain with a weight of one -> no influence of splitting a step
seq = tree.reduce_weighted_to_sequence([0, 3], [0.5, 0.5])
basis, angles = seq.basis_array, seq.rotation_angles
cur = dirs[0]
for ii in range(seq.n_rotations):
    assert np.allclose(basis[:, ii, 0], cur, atol=1e-6), (ii, basis[:, ii, 0], cur)
    cur = np.cos(angles[ii]) * basis[:, ii, 0] + np.sin(angles[ii]) * basis[:, ii, 1]
""", "a tree with a branch of three or more levels and a partial weight at its end",
"rotations two or more levels above a partially weighted node are not carried along")

seed("s04_shared_children", "C04", [(R + "graph_handler.py",
"        self._children_indices = [[] for ii in range(self.n_nodes)]\n",
"        self._children_indices = [[]] * self.n_nodes\n")], """
from nonlinear_avoidance.graph_handler import GraphHandler

graph = GraphHandler(node_values=["a", "b", "c"])
graph.set_parent_of_element("b", parent_value="a")
assert graph.get_children("a") == ["b"]
assert graph.get_children("c") == [], graph.get_children("c")
""", "a hierarchy created with two or more nodes",
"all nodes given at construction share one list of children")

seed("s05_turn_in_place", "C05", [(R + "multi_obstacle.py",
"""    def update_pose(self, new_pose: Pose) -> None:
        self._pose = new_pose
""",
"""    def update_pose(self, new_pose: Pose) -> None:
        is_same_position = np.allclose(self._pose.position, new_pose.position)
        self._pose = new_pose
        if is_same_position:
            return

""")], """
import numpy as np
from vartools.states import Pose
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse
from nonlinear_avoidance.multi_obstacle import MultiObstacle

obs = MultiObstacle(Pose(np.zeros(2), 0.0))
obs.set_root(Ellipse(center_position=np.array([2.0, 0.0]), axes_length=np.array([3.0, 1.0])))
obs.update_pose(Pose(np.zeros(2), np.pi / 2))
assert obs.get_gamma(np.array([0.0, 2.0]), in_global_frame=True) < 1
assert obs.get_gamma(np.array([2.0, 0.0]), in_global_frame=True) > 1
""", "a pose update which turns the obstacle but leaves its position",
"components stay behind when the obstacle turns in place")

seed("s06_common_dynamics", "C06", [(R + "rotation_container.py",
"""            self._convergence_dynamics = [
                converging_dynamics for ii in range(self.n_obstacles)
            ]
""",
"""            self._convergence_dynamics = [
                dynamics or converging_dynamics
                for dynamics in self._convergence_dynamics
            ]
""")], """
import numpy as np
from vartools.dynamical_systems import LinearSystem
from dynamic_obstacle_avoidance.obstacles import Ellipse
from nonlinear_avoidance.rotation_container import RotationContainer

cont = RotationContainer()
cont.append(Ellipse(center_position=np.array([2.0, 1.0]), axes_length=np.array([1.0, 1.0])))
first = LinearSystem(attractor_position=np.array([0.0, 0.0]))
second = LinearSystem(attractor_position=np.array([8.0, 0.0]))
cont.set_convergence_directions(converging_dynamics=first)
cont.set_convergence_directions(converging_dynamics=second)
pos = np.array([4.0, 0.0])
assert np.allclose(cont.get_convergence_direction(pos, 0), second.evaluate(pos))
""", "a second assignment of common convergence dynamics",
"convergence dynamics that were assigned before are kept")
