From 2c49d100e499bc175cb8aef52d476d619f6ab566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 001/128] fix: GraphHandler.get_nodes_hirarchy_descending
 raises AttributeError

---
 nonlinear_avoidance/graph_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..d2b1cd3 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -134,10 +134,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From db53c382595686030ef24045d674f4956185a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 002/128] fix: GraphHandler.roots returns the root nodes
 instead of a list of None

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index d2b1cd3..48f6437 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -90,7 +90,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ind] for ind in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
-- 
2.43.0


From a3ff953849f73aa27543477fd4394684c299ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 003/128] fix: GraphHandler.set_parent_of_element keeps the
 node listed at its old parent

---
 nonlinear_avoidance/graph_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 48f6437..5800843 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -125,6 +125,11 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        # Detach from the previous parent
+        ind_previous = self._parent_index[ind_node]
+        if ind_previous is not None:
+            self._children_indices[ind_previous].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From aa654b5a928d1152823c27e23ee1974e11196dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 004/128] fix: GraphHandler.add_element_with_parent corrupts
 the graph on unknown parent

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 5800843..aae0ff6 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -111,11 +111,13 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        # Look up the parent first, such that an unknown parent leaves the graph as it was
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
 
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
-- 
2.43.0


From 54418e102ef505f5202ddc6774636b8a97dded91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 005/128] fix: GraphHandler shares the list of node-values with
 its caller

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index aae0ff6..d4cef0e 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -75,7 +75,7 @@ class GraphHandler:
     def __init__(self, n_nodes: int = None, node_values: list = None):
         """Input argument has to be the number of nodes 'n_nodes' or the node_values."""
         if node_values is not None:
-            self._node_values = node_values
+            self._node_values = list(node_values)
         elif n_nodes is not None:
             self._node_values = np.arange(n_nodes).tolist()
         else:
-- 
2.43.0


From 0bbece961e33866bf8be8f4d415ef2db68761928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 006/128] fix: GraphElement keeps stale links after
 re-parenting and expelling

---
 nonlinear_avoidance/graph_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index d4cef0e..6792b44 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)  # Elements are compared by identity (parent & children are cyclic)
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,10 +28,12 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
-        self.children.append(child)
-        child.parent = self
+        child.set_parent(self)
 
     def set_parent(self, parent):
+        if self.parent is not None and self in self.parent.children:
+            self.parent.children.remove(self)
+
         self.parent = parent
         parent.children.append(self)
 
@@ -41,9 +43,11 @@ class GraphElement:
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
         if self.parent is not None:
             self.parent.children.remove(self)
+        self.parent = None
 
 
 @dataclass
-- 
2.43.0


From 5ea4104e1e25bd7b281767216a408193ba99e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 007/128] fix: BasicGraphHandler.add_element_with_parent does
 not register the child

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 6792b44..f3a32a7 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -65,7 +65,9 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        element.set_parent(parent)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From f9e8da7a578dafa46e622b65f22f2aec9fc23dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 008/128] fix: get_intersection_of_obstacles takes the second
 shape's type from the first obstacle

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From 857cc53dae6d42c8c75e26ae712f8899ab17a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 009/128] fix: MultiObstacle gamma in local frame transforms
 the position as a pose

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..8f147f4 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From b75398de1a3bfa944913a3931876d394b7419819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 010/128] fix: BlockArchObstacle gamma in local frame
 transforms the position as a pose

---
 nonlinear_avoidance/arch_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 563dc9abdb48d8763ec9c6e15f67a15ab74808c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 011/128] fix: BlockArchObstacle.update_obstacles does not move
 its components

---
 nonlinear_avoidance/arch_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 46aed7d..c99aeea 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -181,7 +181,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
-- 
2.43.0


From 7b1a2b9ead9a61463a03b42ab9e1ac5838ecd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 012/128] fix: MultiObstacle.linear_velocity reads an attribute
 Twist does not have

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 8f147f4..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From e97405802e291188208374d4e2ef5ee94d036e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 013/128] fix: MultiObstacle.add_component intersects a local
 with a global obstacle

---
 nonlinear_avoidance/multi_obstacle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..fdd2c9b 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -150,13 +150,17 @@ class MultiObstacle:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
         if reference_position is None:
+            # Bring obstacle to the (global) frame of its parent
+            local_pose = obstacle.pose
+            obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
+            global_pose, obstacle.pose = obstacle.pose, local_pose
             if global_reference is None:
                 raise ValueError("No intersection found.")
 
-            reference_position = obstacle.pose.transform_position_to_relative(
+            reference_position = global_pose.transform_position_to_relative(
                 global_reference
             )
         else:
-- 
2.43.0


From b2f7b5491cd09c9c7f9ea1cf231912f4bbc73dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 014/128] fix: MultiEllipseObstacle takes index 0 for 'not set'

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From 6ac28c540a23acc3a08c846131c4475b218a73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 015/128] fix: VectorRotationXd.from_directions returns NaN for
 anti-parallel vectors

The perpendicular vector was only picked for parallel vectors; for (nearly)
anti-parallel ones it was the normalized rounding error.
---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..d20fa19 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,7 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
-- 
2.43.0


From 17ca1be9bfe905debb359e2e699dd52a2bc164d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 016/128] fix: rotate_vector_rotation rotates in the plane of
 its argument

The rotation has to be applied in the plane of the rotation itself, as in
rotate_sequence.
---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d20fa19..1e17e6e 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From 6140bcd261ca64da24d627219a8fab96b207a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 017/128] fix: anti-parallel vectors pass the check of
 create_from_vector_array

The dot product of anti-parallel unit vectors is only -1 up to rounding.
---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 1e17e6e..2373514 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -260,7 +260,7 @@ class VectorRotationSequence:
         vectors_array = vectors_array / array_norm
         dot_prod = np.sum(vectors_array[:, 1:] * vectors_array[:, :-1], axis=0)
 
-        if np.sum(dot_prod == (-1)):  # Any of the values
+        if np.any(dot_prod < -1 + 1e-15):  # Any of the values
             raise ValueError("Antiparallel vectors.")
 
         # Evaluate basis and angles
-- 
2.43.0


From 98a83a63ff2afbb5bfabae5babfb2e4e491d90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 018/128] fix: rotate_weighted moves the remaining rotations
 the wrong way

When a rotation is only partially applied, the following bases have to be
rotated back, such that they start where the partial rotation ends (as done
in the VectorRotationTree). So far they were rotated further.
---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 2373514..9ab5016 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -362,7 +362,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From 23184e29076ecd2eeccbccf78d49a775b61a3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 019/128] fix: append_from_direction does not start at the end
 of the sequence

It started at the perpendicular base vector of the last rotation.
---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 9ab5016..cb1f668 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -304,9 +304,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From 33644030ebc6023e975f1de9613e63beb67db848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 020/128] fix: evaluate_graph_summing appends the last rotation
 twice

This happened if the nodes of the last weighted level have successors which
are without weight. The resulting sequence rotated twice as far.
---
 nonlinear_avoidance/vector_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index cb1f668..f38efb4 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -836,8 +836,8 @@ class VectorRotationTree:
                 all_successors += successors
                 all_basis = np.hstack((all_basis, succ_basis))
 
-            if not all_successors:
-                # Zero list -> check the next level
+            if not any(self._graph.nodes[ss]["weight"] for ss in all_successors):
+                # No weight above this level -> appended as last rotation (below)
                 continue
 
             if new_angle:
-- 
2.43.0


From 76a99ec657269abc8c8a101f46676f93e33bff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 021/128] fix: VectorRotationTree.set_direction fails for nodes
 with children

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index f38efb4..d9776b5 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -559,7 +559,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 8fde1bc68cad7528c333dd9fbd50d78c6782968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 022/128] fix: VectorRotationTree.get_parent indexes an
 iterator

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d9776b5..a3b0f88 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -436,7 +436,7 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-- 
2.43.0


From 38c788283a5f880db702d455fb74e0fc5127577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 023/128] fix: VectorRotationTree.rotate and inverse_rotate
 always raise

The arguments were not passed on to get_weighted_mean, and root called the
node-view instead of indexing it.
---
 nonlinear_avoidance/vector_rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index a3b0f88..5012a1c 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -423,7 +423,7 @@ class VectorRotationTree:
 
     @property
     def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -875,7 +875,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -892,7 +892,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From 70f10746f4612f0e66482cfa847cbfc43335dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 024/128] fix: VectorRotationTree.add_node leaves a half
 inserted node when it refuses

For an unknown parent, a too high level or a NaN direction, the node (and the
unknown parent) stayed in the graph and all further evaluations failed.
---
 nonlinear_avoidance/vector_rotation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5012a1c..5bdf2f6 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -459,16 +459,16 @@ class VectorRotationTree:
     ) -> None:
         if not (dir_norm := np.linalg.norm(direction)):
             raise ValueError("Zero direction cannot be interpreted.")
+        if np.isnan(dir_norm):
+            raise ValueError("Faulty input.")
         direction = direction / dir_norm
 
         if node_id in self.graph.nodes():
             raise ValueError(f"Node with id: {node_id} already exists.")
 
         if parent_id is not None:
-            self._graph.add_edge(
-                parent_id,
-                node_id,
-            )
+            if parent_id not in self._graph.nodes:
+                raise ValueError(f"Parent with id: {parent_id} does not exist.")
             level = self._graph.nodes[parent_id]["level"] + 1
 
         elif child_id is not None:
@@ -490,9 +490,8 @@ class VectorRotationTree:
             weight=0,
             orientation=None,
         )
-
-        if np.any(np.isnan(direction)):
-            raise ValueError("Faulty input.")
+        if parent_id is not None:
+            self._graph.add_edge(parent_id, node_id)
 
         if direction is not None:
             self.set_direction(node_id, direction)
-- 
2.43.0


From 389c8783154a964976c143018c67d5db1421914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 025/128] fix: RotationContainer cannot delete or replace an
 obstacle

The obstacle was passed on as key, and deleting removed the whole list of
convergence dynamics.
---
 nonlinear_avoidance/rotation_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,11 +32,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From 66d52e727bde96c8981b4cbcb1f94b951a8dddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 026/128] fix: set_convergence_directions takes the origin for
 the attractor

The shortcuts for an obstacle at the attractor and for a velocity which points
to the attractor were evaluated with respect to the origin. An obstacle at the
origin lost its local rotation, and one at the attractor was evaluated there.
---
 nonlinear_avoidance/rotation_container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..e0f09e4 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,7 +78,8 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
+            relative_position = position - attractor
+            pos_norm = LA.norm(relative_position)
             if not pos_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
@@ -88,7 +89,7 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
+            dot_prod = np.dot(relative_position, local_velocity) / (
                 pos_norm * LA.norm(local_velocity)
             )
 
-- 
2.43.0


From 836f2f29806733dd8fe680c9951f7823550d34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 027/128] fix: MultiBoundaryContainer cannot delete an obstacle

Deleting tried to append an undefined value (and stopped at a breakpoint). The
indices of the graph have to follow the ones of the obstacles.
---
 nonlinear_avoidance/multiboundary_container.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..0975056 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,10 +73,19 @@ class MultiBoundaryContainer(RotationContainer):
                 )
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
-        del self._children_list[key]
+        key = range(len(self))[key]  # Allow negative indices
+        super().__delitem__(key)
+
+        # Children of the removed element are root-elements from now on
+        self._parent_array[self._parent_array == key] = -1
         self._parent_array = np.delete(self._parent_array, key)
+        self._parent_array[self._parent_array > key] -= 1
+
+        del self._children_list[key]
+        self._children_list = [
+            [ii - (ii > key) for ii in children if ii != key]
+            for children in self._children_list
+        ]
 
         del self._parent_intersection_point[key]
 
-- 
2.43.0


From 4fb7f9aab839cb19cae699f51548130f0059d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 028/128] fix: extend_graph keeps the child listed at its
 former parent

---
 nonlinear_avoidance/multiboundary_container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0975056..ab4d669 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -106,6 +106,8 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        if (old_parent := self.get_parent(child)) >= 0:
+            self._children_list[old_parent].remove(child)
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
-- 
2.43.0


From b7bc3ab10bcad2757944cfeb29b9ad7354b31f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 029/128] fix: intersection of boundary-ellipses is evaluated
 at the origin

The ellipses were never moved to their position, hence the intersection point
between child and parent did not depend on where they are.
---
 nonlinear_avoidance/multiboundary_container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index ab4d669..5848c0d 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -24,7 +24,7 @@ def create_shapely_ellipse(ellipse):
     if ellipse.dim != 2:
         raise NotImplementedError("Shapely object only existing for 2D")
 
-    # Point is set at zero, and only moved when needed
+    # Create the ellipse at the origin, and move it when it is aligned
     if ellipse.dimension != 2:
         raise NotImplementedError()
 
@@ -36,7 +36,9 @@ def create_shapely_ellipse(ellipse):
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
 
-    return shapely_ellipse
+    return affinity.translate(
+        shapely_ellipse, ellipse.center_position[0], ellipse.center_position[1]
+    )
 
 
 class MultiBoundaryContainer(RotationContainer):
-- 
2.43.0


From 508d41d4bd270ac53cb576e398b783ed85a15f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 030/128] fix: get_boundary_list reads a misspelled attribute

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 5848c0d..535a7bf 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -175,7 +175,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From dcfc34a545eb08d7de4e98ba22b591f9b997d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 031/128] fix: MultiObstacleContainer.is_in_free_space calls a
 method obstacle-trees do not have

---
 nonlinear_avoidance/multi_obstacle_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..4fee60b 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -69,7 +69,7 @@ class MultiObstacleContainer:
         if not in_global_frame:
             raise NotImplementedError()
         for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
+            if obs.is_collision_free(position):
                 continue
             return False
 
-- 
2.43.0


From e04b3faebf00e64af129c8be133fa25ec0271753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 032/128] fix: get_limited_weights_to_max_sum exceeds one for
 several full weights

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..e24914f 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,8 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        # Equally shared, such that the sum remains one
+        new_weights = ind_max / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
-- 
2.43.0


From 7d4179ed22476df6890a689c1272973153e81798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 033/128] fix: compute_occlusion_weights lifts gammas to the
 maximum instead of limiting them

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index e24914f..4e1c90e 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1162,7 +1162,7 @@ class MultiObstacleAvoider:
             # )
 
         if max_gamma is not None:
-            occlusion_gammas = np.maximum(occlusion_gammas, max_gamma)
+            occlusion_gammas = np.minimum(occlusion_gammas, max_gamma)
 
         # print("occlusion_gammas", occlusion_gammas)
         if np.any(occlusion_gammas > 1 + gamma_margin):
-- 
2.43.0


From 761dfb32fcd33b1c71d9119d21f718bc32a9ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 034/128] fix: evaluate_occlusion_array gives all weight to the
 last component

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 4e1c90e..6a03cc9 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1203,15 +1203,9 @@ class MultiObstacleAvoider:
             )
             return final_weights
 
-        arg_max = np.argsort(occlusion_weights)
-        final_weights = np.zeros_like(occlusion_weights)
-        final_weights[-1] = 1.0
-        for ii in range(final_weights.shape[0] - 1, 0):
-            # Take the closest ones and divide (!)
-            if occlusion_weights[ii] < occlusion_weights[-1]:
-                break
-            final_weights[ii] = 1.0
-        return final_weights / np.sum(final_weights)
+        # Take the closest ones and divide (!)
+        ind_max = occlusion_weights >= np.max(occlusion_weights)
+        return ind_max / np.sum(ind_max)
 
     def _compute_normal_and_reference_of_branch(
         self,
-- 
2.43.0


From 1915f4fed9c47b5f4f5252c634dea710450775bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 035/128] fix: slowfactor_from_convergence is NaN when pointing
 at the reference point

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 6a03cc9..92d38c1 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -367,7 +367,7 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        ind_pos = (rot_weight > 0.0) & (0.0 < conv_prox) & (conv_prox < 1.0)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-- 
2.43.0


From 0527123be576b0a8eae23dfcbae56c5139b5da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 036/128] fix: relative velocity of an obstacle rotating in 3D

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 92d38c1..19e4b94 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,7 +128,7 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
@@ -143,7 +143,7 @@ def compute_multiobstacle_relative_velocity(
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity[: position.shape[0]]
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From 24c9978c0f98d31964588474570090de49eb0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 037/128] fix: safe scaling is NaN for velocities which are no
 unit-vectors

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..b5aa9ad 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -480,7 +480,7 @@ class RotationalAvoider(BaseAvoider):
         if not (rotated_norm := np.linalg.norm(velocity)):
             return 1.0
 
-        dot_product = np.dot(velocity, averaged_normal)
+        dot_product = np.dot(velocity / rotated_norm, averaged_normal)
         normal_norm = np.linalg.norm(averaged_normal)
 
         if dot_product > 0 or np.isclose(normal_norm, 0):
@@ -507,7 +507,7 @@ class RotationalAvoider(BaseAvoider):
         if not (rotated_norm := np.linalg.norm(rotated_velocity)):
             return rotated_velocity
 
-        dot_product = np.dot(rotated_velocity, averaged_normal)
+        dot_product = np.dot(rotated_velocity / rotated_norm, averaged_normal)
         normal_norm = np.linalg.norm(averaged_normal)
 
         # if dot_product < 0:
-- 
2.43.0


From da11ccdfb47eca6e6da0c07eee9bb601be32eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 038/128] fix: directional_convergence_summing swaps reference
 and convergence

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b5aa9ad..159c097 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,10 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma,
+            vector_reference=reference_vector,
+            vector_convergence=convergence_vector,
+            base=base,
         )
 
         if weight <= 0:
-- 
2.43.0


From 87144090a3dfea8c96c91bd6363900c9ccaa8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 039/128] fix: avoid applies the convergence of the first
 obstacle to all obstacles

---
 .../avoidance/rotational_avoider.py           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 159c097..12825d5 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
-                if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
-                        position=position, it_obs=it_obs
-                    )
-                else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+            if convergence_velocity is not None:
+                local_convergence = convergence_velocity
+            elif self.convergence_dynamics is None:
+                local_convergence = obstacle_list.get_convergence_direction(
+                    position=position, it_obs=it_obs
+                )
+            else:
+                local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 6cb427b72ea0130ea79336a0892cbf8832c72788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 040/128] fix: a rounding-size negative weight turns
 VectorRotationTree means into non-directions

---
 nonlinear_avoidance/vector_rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5bdf2f6..e8df2a1 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -679,7 +679,8 @@ class VectorRotationTree:
 
         # Weights are stored in the predecessing nodes of the corresponding edge
         for ii, node in enumerate(node_list):
-            self._graph.nodes[node]["weight"] = weights[ii]
+            # A weight may be slightly negative due to numerical rounding
+            self._graph.nodes[node]["weight"] = max(weights[ii], 0.0)
 
         self.evaluate_all_orientations(sorted_list)
         for node in self._graph.nodes():
-- 
2.43.0


From 3fee979691b743dcce5858bf68a9c593865cffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 041/128] fix: convergence radius of a single obstacle is
 ignored by its tangent

---
 .../avoidance/rotational_avoider.py           | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 12825d5..a214f33 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -981,11 +981,15 @@ class RotationalAvoider(BaseAvoider):
         vector_reference: np.ndarray,
         vector_convergence: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> float:
         """
         dir_reference and dir_convergence are expected to be in the the direction-space, with respect
         to the negative of the normal
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_reference = UnitDirection(base).from_vector(vector_reference).as_angle()
         dir_convergence = UnitDirection(base).from_vector(vector_convergence).as_angle()
 
@@ -996,11 +1000,11 @@ class RotationalAvoider(BaseAvoider):
         if weight >= 1.0:
             return 1.0
 
-        if np.linalg.norm(dir_convergence) >= self.convergence_radius:
+        if np.linalg.norm(dir_convergence) >= convergence_radius:
             return weight
         # MAYBE: incorporate this in the tangent length(?)
         continuation_weight = np.linalg.norm(dir_convergence - dir_reference)
-        radius_factor = self.convergence_radius - np.linalg.norm(dir_reference)
+        radius_factor = convergence_radius - np.linalg.norm(dir_reference)
         radius_factor = min(radius_factor, np.pi * 0.5)
         continuation_weight = continuation_weight / radius_factor
 
@@ -1018,12 +1022,16 @@ class RotationalAvoider(BaseAvoider):
         vector_convergence: np.ndarray,
         vector_reference: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> np.ndarray:
         """Input and output are expected in the directional-space with respect to
         the negative normal."""
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_convergence = UnitDirection(base).from_vector(vector_convergence)
         if (
-            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius
+            np.linalg.norm(dir_convergence.as_angle()) >= convergence_radius
             and not self.tail_rotation
         ):
             return vector_convergence
@@ -1033,7 +1041,7 @@ class RotationalAvoider(BaseAvoider):
         dir_convergence_tangent = RotationalAvoider.get_tangent_convergence_direction(
             dir_convergence=dir_convergence.as_angle(),
             dir_reference=dir_reference.as_angle(),
-            convergence_radius=self.convergence_radius,
+            convergence_radius=convergence_radius,
         )
         # breakpoint()
         return UnitDirection(base).from_angle(dir_convergence_tangent).as_vector()
@@ -1066,7 +1074,7 @@ class RotationalAvoider(BaseAvoider):
         base: np.ndarray,
         gamma: float,
         nonlinear_velocity: Optional[np.ndarray] = None,
-        convergence_radius: float = math.pi / 2,
+        convergence_radius: Optional[float] = None,
     ) -> UnitDirection:
         """Rotating / modulating a vector by using directional space.
 
@@ -1081,6 +1089,9 @@ class RotationalAvoider(BaseAvoider):
         -------
         converging_velocity: Weighted summing in direction-space to 'emulate' the modulation.
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         # Put int range
         # unitdir_convergence = UnitDirection(base).from_vector(convergence_vector)
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
@@ -1090,13 +1101,17 @@ class RotationalAvoider(BaseAvoider):
             vector_reference=reference_vector,
             vector_convergence=convergence_vector,
             base=base,
+            convergence_radius=convergence_radius,
         )
 
         if weight <= 0:
             return nonlinear_velocity
 
         vector_convergence_tangent = self.get_pseudo_tangent(
-            convergence_vector, reference_vector, base=base
+            convergence_vector,
+            reference_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         # This is now replacing the 'general_weighted_sum'
-- 
2.43.0


From 2d3d49bcbf801c80f6ea53c04870f562a3e8ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 042/128] fix: VectorRotationXd.from_directions turns close to
 parallel vectors in a random plane

---
 nonlinear_avoidance/vector_rotation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index e8df2a1..4112075 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,10 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
+        vec_perp = vec_rot - vec_init * dot_prod
+        perp_norm = LA.norm(vec_perp)
+
+        if perp_norm < 1e-10:
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
@@ -130,10 +133,12 @@ class VectorRotationXd:
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
-            vec_perp = vec_rot - vec_init * dot_prod
+            vec_perp = vec_perp / perp_norm
+            # Subtraction of close to parallel vectors is inexact -> orthogonalize again
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
             vec_perp = vec_perp / LA.norm(vec_perp)
 
-        angle = np.arccos(min(max(dot_prod, -1), 1))
+        angle = np.arctan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
-- 
2.43.0


From 7fcb0c723b5906a04cd136de30e6b1b74b5dcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 043/128] fix: reference and initial dynamics are swapped for
 dynamics without attractor

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 19e4b94..e0942ea 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -280,7 +280,8 @@ class MultiObstacleAvoider:
                 raise ValueError("What reference dynamics should be taken !?")
 
             return ConvergenceDynamicsWithoutSingularity(
-                initial_dynamics, reference_dynamics
+                convergence_dynamics=reference_dynamics,
+                initial_dynamics=initial_dynamics,
             )
 
     @property
-- 
2.43.0


From 181e91209021ea90199ced9df5a94db2aa4ebb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 044/128] fix: zero-transform between components does not start
 at the convergence direction

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..135faf2 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -91,7 +91,7 @@ class ConvergenceDynamicsWithoutSingularity:
         self, start: np.ndarray, end: np.ndarray, center: np.ndarray
     ) -> VectorRotationXd:
         """Returns zero-transform as there is no singularity."""
-        velocity = self.initial_dynamics.evaluate(start)
+        velocity = self.convergence_dynamics.evaluate(start)
         return VectorRotationXd.from_directions(velocity, velocity)
 
     def evaluate_projected_weight(
-- 
2.43.0


From 0bd44c354a6cff1477971518669ffc4a75104a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 045/128] fix: velocity without close obstacles does not have
 the initial magnitude

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index e0942ea..b3ffe5c 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -330,7 +330,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From d78c16a1819ed16148bf133cb1eb2c3cb34ff761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 046/128] fix: VectorRotationXd.from_directions of equal
 vectors has a rounding-size angle

---
 nonlinear_avoidance/vector_rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 4112075..257dce1 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -132,13 +132,14 @@ class VectorRotationXd:
                 vec_perp[0] = vec_init[1]
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
+            angle = 0.0 if dot_prod > 0 else math.pi
         else:
             vec_perp = vec_perp / perp_norm
             # Subtraction of close to parallel vectors is inexact -> orthogonalize again
             vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
             vec_perp = vec_perp / LA.norm(vec_perp)
+            angle = np.arctan2(perp_norm, dot_prod)
 
-        angle = np.arctan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
-- 
2.43.0


From 24ff9bad2af0c6fa9d19f895358f06bd7f5da33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 047/128] fix: SimpleCircularDynamics ignores its maximum
 velocity outside of the slow-down zone

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..e09a2ae 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -273,14 +273,11 @@ class SimpleCircularDynamics(DynamicalSystem):
 
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
+        velocity = normalized_direction * self.maximum_velocity
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
-            )
+            velocity = velocity * (pos_norm / slow_down_distance)
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(velocity)
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From 078d38ed5d791f35a078137238d733bb34fe3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 048/128] fix: SimpleCircularDynamics fails without a pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index e09a2ae..9bcffea 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -213,6 +213,9 @@ class SimpleCircularDynamics(DynamicalSystem):
             else:
                 pose.orientation = Rotation.from_matrix(base_matrix)
 
+        elif pose is None:
+            pose = ObjectPose(position=np.zeros(kwargs.get("dimension", 2)))
+
         super().__init__(
             pose=pose,
             attractor_position=pose.position,
-- 
2.43.0


From e707fce5b1e7209e99a3146798c3bdcfc3101f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 049/128] fix: CircularRotationDynamics ignores its pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 9bcffea..ffe213a 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -175,10 +175,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        relative_position = self.pose.transform_position_to_relative(position)
+        if not LA.norm(relative_position):
+            return np.zeros_like(relative_position)
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ relative_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
@@ -186,7 +187,9 @@ class CircularRotationDynamics(DynamicalSystem):
         rot_dir = self._rotation.rotate(init_direction, rot_factor=rot_weight)
         final_dir = rot_dir * self.constant_velocity
 
-        return self.base_matrix @ final_dir
+        return self.pose.transform_direction_from_relative(
+            self.base_matrix @ final_dir
+        )
 
 
 class SimpleCircularDynamics(DynamicalSystem):
-- 
2.43.0


From 0e81bc67815277a15555a8d2cc868d33d61e1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 050/128] fix: DynamicDynamics.update_base stops in the
 debugger

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index ffe213a..6b6f122 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From c166e168e3d8c504846abbe9ca0e899808b8f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 051/128] fix: SpiralingDynamics3D adds the position of its
 center to the velocity

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From 9cbdd14f5d14af4d66cbb793ebc88cf3e1127775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 052/128] fix: LocallyRotatedFromObtacle drops the rotation
 perpendicular to the obstacle only

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..da9e637 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -215,7 +215,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From 68d1f42aa7d9af9dc6741ee60bdc69717822b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 053/128] fix: LocallyRotatedFromObtacle with the obstacle at
 the attractor cannot be evaluated

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index da9e637..475c50f 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -62,7 +62,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
-            return
+            attractor_dir, attr_norm = reference_velocity, 1.0
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
-- 
2.43.0


From 1617c586f5f81652ff15e611154335a707e71ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 054/128] fix: WavyPathFollowing returns a scalar at the
 attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..7a4f03f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -180,7 +180,7 @@ class WavyPathFollowing(Dynamics):
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
         if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From 477803ef0d4eb57b6a334fb894a3f671398ea470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 055/128] fix: WavyPathFollowing sequence is NaN at the
 attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 7a4f03f..bbab66f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -1,5 +1,6 @@
 import math
 from dataclasses import dataclass
+from typing import Optional
 
 import numpy as np
 
@@ -135,7 +136,11 @@ class WavyPathFollowing(Dynamics):
 
     def evaluate_dynamics_sequence(
         self, position: np.ndarray
-    ) -> VectorRotationSequence:
+    ) -> Optional[VectorRotationSequence]:
+        if not np.linalg.norm(self.attractor_position - position):
+            # No direction at the attractor
+            return None
+
         weights = self.get_weights(position)
 
         direction_tree = VectorRotationTree()
-- 
2.43.0


From 40fd8cb1fa8f194b379d65ec9504d90b64355e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 056/128] fix: weights of WavyPathFollowing sum up to two where
 segments meet

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index bbab66f..4cd3658 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -117,7 +117,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From f24438c0454c361767627635b0fa33cc2e9f58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 057/128] fix: convergence velocity of
 PerpendicularDeviatoinOfLinearDS is not scaled

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..e3d93f1 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From f020791348c3af2afe090d875ea557a801093eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 058/128] fix: PerpendicularDeviatoinOfLinearDS cannot be
 fitted in 3D

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index e3d93f1..da4e98d 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -244,7 +244,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         X_relative = X - np.tile(self.attractor_position, (X.shape[0], 1))
 
         self._null_matrices = np.zeros(
-            (self.dimension, self.dimension, 2, self.dimension)
+            (self.dimension, self.dimension, self.dimension, 2)
         )
 
         for dd in range(self.dimension):
-- 
2.43.0


From a1f5c4c6814910ba15add9add8946b7d321b6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 059/128] fix: ObstacleRotatedDynamics weighs obstacles by
 their distance within one of them

---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index c3855d9..dfd4267 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -71,7 +71,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
             ]
         )
 
-        if np.any((ind_zero := gammas) <= 1):
+        if np.any(ind_zero := (gammas <= 1)):
             weights = ind_zero / np.sum(ind_zero)
             weight_sum = 1
 
-- 
2.43.0


From 398a50f3d223fbde1de7404f39ebea737b331a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 060/128] fix: unfolding a position alters its input

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..60918f9 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -288,7 +288,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position).astype(float)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0


From 0b4ac97bd0db3a424a7d600fed469d7721b4def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 061/128] fix: projected weight is NaN at the attractor and
 opposite of the obstacle

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 60918f9..546b65f 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -587,6 +587,10 @@ class ProjectedRotationDynamics:
         self.obstacle = obstacle  # Just to be sure that its the same...
 
         projected_position = self.get_projected_position(position)
+        if not np.isfinite(LA.norm(projected_position)):
+            # Projected to infinity (at the attractor or opposite of the obstacle)
+            return 0.0
+
         proj_gamma = obstacle.get_gamma(projected_position, in_global_frame=True)
         gamma = obstacle.get_gamma(position, in_global_frame=True)
 
-- 
2.43.0


From 5209e751527b2063921111d9d3fff296c8619871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 062/128] fix: rotation from the shrunk position raises
 TypeError

---
 .../dynamics/projected_rotation_dynamics.py               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 546b65f..f2209b3 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -553,12 +553,16 @@ class ProjectedRotationDynamics:
         """Returns VectorRotationXd needed to go from position to the obstacle-reference.
         The base vectors are pointing towards the attractor for compatibalitiy with straight-stable dynamics.
         """
+        self.obstacle = obstacle
+
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position,
+            in_obstacle_frame=False,
+            deflation_weight=shrinking_weight,
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
-- 
2.43.0


From 8b223f998f32151c82728c31336524145fd54324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 063/128] fix: compute_obstacle_convergence_sequence raises
 TypeError

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index f2209b3..f5e23c4 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -514,7 +514,9 @@ class ProjectedRotationDynamics:
             return initial_sequence
 
         # Trafo is expected to be not None, as we have: weight > 0
-        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(position)
+        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(
+            position, root_obs
+        )
 
         convergence_sequence = evaluate_dynamics_sequence(
             root_obs.get_reference_point(in_global_frame=True),
@@ -532,7 +534,7 @@ class ProjectedRotationDynamics:
             sequence=initial_sequence,
         )
         obs_id = 2
-        self.conv_tree.add_node(
+        self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=obs_id,
             parent_id=root_id,
-- 
2.43.0


From 2b4e38025b01c1ed97697fe65fde0b4d6de822c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 064/128] fix: SingularityConvergenceDynamics evaluates the
 convergence of the wrong obstacle

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 135faf2..a536a41 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From 8c7ac9e85637c62446975db7db1937a988d5d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 065/128] fix: SingularityConvergenceDynamics.avoid raises
 AttributeError

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index a536a41..953eecc 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -188,16 +188,11 @@ class SingularityConvergenceDynamics(BaseAvoider):
     # def evaluate_convergence_dynamics(self, position: np.ndarray) -> np.ndarray:
     #     return self._rotation_avoider.convergence_dynamics.evaluate(position)
 
-    def avoid(self, position, initial_velocity):
-        convergence_velocity = self.evaluate_convergence_dynamics(position)
-        return self._rotation_avoider.avoid(
-            position=position,
-            initial_velocity=initial_velocity,
-            convergence_velocity=convergence_velocity,
-        )
-
     def evaluate(self, position, **kwargs):
         initial_velocity = self.evaluate_initial_dynamics(position)
+        return self.avoid(position, initial_velocity, **kwargs)
+
+    def avoid(self, position, initial_velocity, **kwargs):
         if not (initial_norm := LA.norm(initial_velocity)):
             return initial_velocity
 
-- 
2.43.0


From d559cc785af613e40f637a70849baf1fef302146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 066/128] fix: speed close to several obstacles depends on
 their order

---
 .../avoidance/rotational_avoider.py           | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index a214f33..2d364b2 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -448,26 +448,15 @@ class RotationalAvoider(BaseAvoider):
     ):
         """Returns scaled velocity such that zero on the surface of an obstacle."""
         # magnitude = np.dot(inv_gamma_weight, weights) * np.linalg.norm(initial_velocity)
-        min_dot_prod = 0
-        it_min = None
+        scaling = 1.0
         for ii in range(len(gammas)):
             # Under the assumption of normalized input vectors
             dot_prod = np.dot(modulated_velocity, normals[:, ii])
 
-            if dot_prod < min_dot_prod:
-                min_dot_prod = dot_prod
-                it_min = ii
+            # The most restrictive obstacle (i.e., not only the most aligned one)
+            scaling = min(scaling, 1 + (1 / gammas[ii]) * dot_prod)
 
-        if it_min is None:
-            return modulated_velocity * initial_magintude
-
-        modulated_velocity = (
-            modulated_velocity
-            * initial_magintude
-            * (1 + (1 / gammas[it_min]) * min_dot_prod)
-        )
-
-        return modulated_velocity
+        return modulated_velocity * initial_magintude * scaling
 
     @staticmethod
     def compute_safe_scaling(
-- 
2.43.0


From ef7340466607bdd17c2fc62c98b3e4b1c6dba93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 067/128] fix: distance and normal of a k-means region on its
 own surface

---
 .../kmeans_learner/kmeans_obstacle.py         | 82 ++++++++-----------
 1 file changed, 36 insertions(+), 46 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..3ced2bb 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -243,15 +243,7 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
-            # Project towards the outside
-            proj_position = relative_position * (surf_norm / position_norm) ** 2
-            proj_position_norm = LA.norm(proj_position)
-
-            # Put to global frame
-            proj_position = proj_position + self.center_position
-
-        elif position_norm == surf_norm:
+        if math.isclose(position_norm, surf_norm):
             # Surface points cannot be disregarded yet, since we need to check for
             # transition regions
             if ind_transparent is None:
@@ -261,16 +253,21 @@ class KMeansObstacle(Obstacle):
 
                 ind_transparent = self.successor_index[0]
 
-            if np.dot(
-                surf_position - self.inbetween_points[ind_transparent, :],
-                self.normal_directions[ind_transparent, :],
-            ):
+            if self._get_surface_index(surf_position) != ind_transparent:
                 # NOT on the transparent surface
                 return 1.0
 
             return sys.float_info.max
-        else:
 
+        elif position_norm < surf_norm:
+            # Project towards the outside
+            proj_position = relative_position * (surf_norm / position_norm) ** 2
+            proj_position_norm = LA.norm(proj_position)
+
+            # Put to global frame
+            proj_position = proj_position + self.center_position
+
+        else:
             proj_position = position
             proj_position_norm = position_norm
 
@@ -386,7 +383,19 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        if math.isclose(position_norm, surf_norm):
+            # Surface points cannot be disregarded --- we're exactly on it(!)
+            ind_surface = self._get_surface_index(surf_position)
+            if ind_surface == self._index:
+                normal = relative_position / position_norm
+            else:
+                normal = self.normal_directions[ind_surface, :]
+
+            if self.is_boundary:
+                normal = (-1) * normal
+            return normal
+
+        elif position_norm < surf_norm:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -394,37 +403,6 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
-            # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
-
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
-
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
-
-            normal = normal_plane / LA.norm(normal_plane)
-            if self.is_boundary:
-                normal = (-1) * normal
-            return normal
         else:
 
             proj_position = position
@@ -510,6 +488,18 @@ class KMeansObstacle(Obstacle):
         # else:
         #     return self.pose.transform_direction_to_relative(weighted_direction)
 
+    def _get_surface_index(self, surface_position: Vector) -> int:
+        """Returns the index of the (neighboring) cluster, of which the separating plane
+        contains the (global) surface point; or the own index on the outer sphere."""
+        distances_surface = self._get_normal_distances(
+            surface_position, is_boundary=False
+        )
+        distances_surface[self._index] = (
+            LA.norm(surface_position - self.center_position) - self.radius
+        )
+        indexes = self.ind_relevant_and_self
+        return indexes[np.argmax(distances_surface[indexes])]
+
     def _get_surface_weights(self, position: Vector) -> np.ndarray:
         """Get the surface weights in the global frame."""
         relative_position = position - self.center_position
-- 
2.43.0


From c5498f765483c61f86237b68522a6abaf1a85139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 068/128] fix: evaluating a k-means region at its center
 changes the position passed to it

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 3ced2bb..32117f7 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -374,11 +374,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            normal = np.zeros(self.dimension)
+            normal[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                normal = (-1) * normal
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
@@ -540,6 +541,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From f7d59c2fa3a0d17e954acd208f3e0681b35227be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 069/128] fix: changing the velocity returned by a constant
 motion changes the motion

---
 nonlinear_avoidance/dynamics/constant_value.py      | 2 +-
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/constant_value.py b/nonlinear_avoidance/dynamics/constant_value.py
index 891de6c..9db3807 100644
--- a/nonlinear_avoidance/dynamics/constant_value.py
+++ b/nonlinear_avoidance/dynamics/constant_value.py
@@ -14,7 +14,7 @@ class ConstantValueWithSequence(Dynamics):
 
     def evaluate(self, *args, **kwargs):
         """Random input arguments, but always ouptuts same vector-field"""
-        return self.constant_velocity
+        return np.copy(self.constant_velocity)
 
     def evaluate_dynamics_sequence(self, position: np.ndarray):
         velocity = self.evaluate(position)
diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index da4e98d..2ba8ee6 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -98,7 +98,7 @@ class DeviationOfConstantFlow(DirectionalSystem):
     def get_lyapunov_gradient_direction(self, position: Vector) -> Vector:
         """Returns the reference direction / gradient of the Lyapunov function.
         The value is normalize (!), since only the direction is relevant."""
-        return self.reference_velocity
+        return np.copy(self.reference_velocity)
 
     @property
     def dimension(self):
@@ -156,7 +156,7 @@ class DeviationOfConstantFlow(DirectionalSystem):
         return self.regressor.predict(position)
 
     def evaluate_convergence_velocity(self, position: Vector) -> Vector:
-        return self.reference_velocity
+        return np.copy(self.reference_velocity)
 
 
 class DeviationOfLinearDS(DirectionalSystem):
-- 
2.43.0


From 050a477bd486786a071bc4f2de0373777c9733a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 070/128] fix: samples of removed clusters are given to the
 wrong cluster

---
 .../kmeans_learner/kmeans_motion_learner.py          | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..aa83fcb 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -247,15 +247,9 @@ class KMeansMotionLearner:
                 logger.info(f"Removed cluster with label {ii}.")
                 # print(f"Removed cluster with label {ii}.")
 
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
-
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+        if n_delta_label:
+            # Update labels to have sequence of numbers
+            self.kmeans.labels_ = self.kmeans.predict(self.data.position)
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From 35a82a92784e0e3f96932f925286d6cd607b905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 071/128] fix: a k-means motion from given centers fails
 outside of its regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index aa83fcb..d3c7918 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -103,6 +103,7 @@ class KMeansMotionLearner:
         new_instance._fit_region_radius()
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
+        new_instance._fit_outside_dynamics()
 
         return new_instance
 
@@ -166,6 +167,9 @@ class KMeansMotionLearner:
         self._fit_region_obstacles()
         self._fit_local_dynamics()
 
+        self._fit_outside_dynamics()
+
+    def _fit_outside_dynamics(self):
         # Set 'general'/ global velocity (more complex motion could be approximated...)
         self.outside_dynamics = LinearSystem(
             attractor_position=self.data.attractor_position,
-- 
2.43.0


From 976aa6c3fc92d4de9923122366482e0fc0bc4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 072/128] fix: a k-means motion which is fitted again keeps its
 old hierarchy

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index d3c7918..4a37904 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -290,6 +290,7 @@ class KMeansMotionLearner:
         """Evaluates the sequence of each cluster along the trajectory.
         -> this can only be used for demonstration which always take the same path."""
         # TODO generalize for multiple (inconsistent sequences) learning
+        self._graph.clear()
         average_sequence = np.zeros(self.get_number_of_features())
         self.distances_parent = np.zeros_like(average_sequence)
 
-- 
2.43.0


From b3ac25e81294cde2a141ab897ad84a18143c6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 073/128] fix: positions next to the center of a k-means region
 are taken as outside of it

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 32117f7..ed0e32a 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -234,7 +234,9 @@ class KMeansObstacle(Obstacle):
             relative_position = position
             position = position + self.center_position
 
-        if not (position_norm := LA.norm(relative_position)):
+        position_norm = LA.norm(relative_position)
+        if position_norm < 1e-12 * self.radius:
+            # The projection to the outside is badly conditioned at the center
             if self.is_boundary:
                 return sys.float_info.max
             else:
-- 
2.43.0


From 83f3cb856a233e55e8f99b967cc23696da562566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 074/128] fix: motion straight away from an obstacle is turned
 to the side

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 2d364b2..361a521 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1114,7 +1114,14 @@ class RotationalAvoider(BaseAvoider):
             direction=base[:, 0],
         )
 
-        if convergence_radius > math.pi * 0.5:
+        if np.dot(convergence_vector, base[:, 0]) < (1e-14 - 1) * LA.norm(
+            convergence_vector
+        ):
+            # The convergence is opposite to the base: there are many rotations to the
+            # base and back from it, which do not need to cancel each other
+            parent_id = -1
+
+        elif convergence_radius > math.pi * 0.5:
             # Add intermediate convergence
             intermediate_vector = self.get_intermediate_convergence_direction(
                 convergence_vector, reference_vector, base
-- 
2.43.0


From 94fd3275c10de627f503c1f6ed16a50b13181e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 075/128] fix: samples instead of velocities are cropped before
 the regression

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..1c618ec 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -115,7 +115,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
         if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+            velocities = np.copy(values[:, self.dim_space : self.dim_space * 2])
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
@@ -123,10 +123,10 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 values = np.copy(values)
                 velocities[ind_large, :] = (
                     velocities[ind_large, :]
-                    / np.tile(mag_vel[ind_large], (values.shape[1], 1)).T
+                    / np.tile(mag_vel[ind_large], (velocities.shape[1], 1)).T
                 )
 
-                values[self.dim_space : self.dim_space * 2, :] = velocities
+                values[:, self.dim_space : self.dim_space * 2] = velocities
         return values
 
     def transform_normalized_to_initial(self, values, dims_ind):
-- 
2.43.0


From bfbf34a5c8c223a6afcfcc5ca183221dd940850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 076/128] fix: weights of a sample depend on the other samples,
 and are NaN far from all components

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 1c618ec..d97fa8b 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -392,8 +392,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # Add zero velocity
             mu_yx = np.dstack((mu_yx, np.zeros((dim_out, n_samples, 1))))
 
-        beta_norm = np.sum(beta)
-        beta = beta / beta_norm * (beta_norm**self.beta_power)
+        beta_norm = np.sum(beta, axis=0)
+        ind_nonzero = beta_norm > 0
+        beta[:, ind_nonzero] = beta[:, ind_nonzero] * (
+            beta_norm[ind_nonzero] ** (self.beta_power - 1)
+        )
 
         regression_value = np.sum(np.tile(beta.T, (dim_out, 1, 1)) * mu_yx, axis=2).T
 
-- 
2.43.0


From fcf15fff1febd5eec4781e8e8ae440f0b01d281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 077/128] fix: factor in the exponent of the Gaussian
 probability

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index d97fa8b..af86f5a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -492,7 +492,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 axis=2,
             )
 
-            val_pow = np.exp(-np.sum(dX * val_pow_fac, axis=1))
+            val_pow = np.exp(-0.5 * np.sum(dX * val_pow_fac, axis=1))
             prob_gauss[gg, :] = fac * val_pow
 
         return prob_gauss
-- 
2.43.0


From 085ef816afd7912649d891120a40e298a6b67330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 078/128] fix: factor in the exponent of the Gaussian
 probability (direction space)

---
 nonlinear_avoidance/gmm_learner/direction_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/direction_space.py b/nonlinear_avoidance/gmm_learner/direction_space.py
index 67f5db0..93b8a9a 100755
--- a/nonlinear_avoidance/gmm_learner/direction_space.py
+++ b/nonlinear_avoidance/gmm_learner/direction_space.py
@@ -317,7 +317,7 @@ def get_gaussianProbability(X, dpgmm, dims_input=[]):
             * np.swapaxes(np.tile(dX, (dim, 1, 1)), 0, 1),
             axis=2,
         )
-        pow = np.exp(-np.sum(dX * pow, axis=1))
+        pow = np.exp(-0.5 * np.sum(dX * pow, axis=1))
 
         prob_gauss[gg, :] = fac * pow
         # gg[0,:] = fac*pow
-- 
2.43.0


From 45453999d8ba66ad24e9fc565782de4ed75de101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 079/128] fix: the setting to converge to the attractor is
 overwritten by each prediction

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index af86f5a..e17858b 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -327,7 +327,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         input_output_normalization=True,
         feat_in=None,
         feat_out=None,
-        convergence_attractor: None = False,
+        convergence_attractor: bool = None,
         p_beta=2,
         beta_min=0.5,
         beta_r=0.3,
-- 
2.43.0


From eacc024e87491683dc8a22774a49353697e89a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 080/128] fix: weights including the attractor sum up to more
 than one

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index e17858b..1aab08e 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -386,7 +386,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 -p_beta
             ) + beta_min
             beta[:, ind_nonzero] = beta[:, ind_nonzero] / np.tile(
-                np.linalg.norm(beta[:, ind_nonzero], axis=0), (self.n_gaussians + 1, 1)
+                np.sum(beta[:, ind_nonzero], axis=0), (self.n_gaussians + 1, 1)
             )
 
             # Add zero velocity
-- 
2.43.0


From da0ecceb97506404e3c80e75c429f17bc0cdf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 081/128] fix: learned directions are relative to the origin
 instead of the attractor

---
 .../gmm_learner/learner/directional_gmm.py    | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 1aab08e..441fac8 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -195,19 +195,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
             )
 
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=LinearSystem(dimension=self.dim_space).evaluate,
-        )
-
-        self.X = np.hstack((self.pos, self.vel, direction.T))
-
-        self.X = self.normalize_velocity(self.X)
-
-        self.num_samples = self.X.shape[0]
-        self.dim_gmm = self.X.shape[1]
-
         weightDir = 4
 
         if attractor is None:
@@ -237,6 +224,20 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x, center_position=self.pos_attractor)
             self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
+        # The directions are relative to the (same) dynamics used for the prediction
+        direction = get_angle_space_of_array(
+            directions=self.vel.T,
+            positions=self.pos.T,
+            func_vel_default=self.null_ds.evaluate,
+        )
+
+        self.X = np.hstack((self.pos, self.vel, direction.T))
+
+        self.X = self.normalize_velocity(self.X)
+
+        self.num_samples = self.X.shape[0]
+        self.dim_gmm = self.X.shape[1]
+
         if self.has_path_completion:
             # TODO
             raise NotImplementedError()
-- 
2.43.0


From a07834667efa72a7c0670b11a58104e3e78a1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 082/128] fix: demonstrations cannot be loaded with a given
 attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 441fac8..8c458e4 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -270,8 +270,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.meanX = None
             self.varX = None
 
-            self.pos_attractor = pos_attractor
-
     def regress(self, *args, **kwargs):
         # TODO: remove
         return self.fit(*args, **kwargs)
-- 
2.43.0


From de2f0d4850879f5422257cb0351a390e672a68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 083/128] fix: trajectories of the mixture start at the
 starting points and stay at the attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 8c458e4..e4124e1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -593,6 +593,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         else:
             nTraj = starting_points.shape[1]
             x_traj = np.zeros((self.dim, num_steps, nTraj))
+            x_traj[:, 0, :] = starting_points
 
         # Do the first step without velocity
         print("Doint the integration.")
@@ -600,7 +601,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
@@ -627,8 +628,10 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 # print('xd', xd)
                 x_traj[:, nn, ii] = x_traj[:, nn - 1, ii] + xd * delta_t
 
-                if np.linalg.norm(x_traj[:, nn, ii]) < convergence_err:
+                dist_attractor = np.linalg.norm(x_traj[:, nn, ii] - self.pos_attractor)
+                if dist_attractor < convergence_err:
                     print(f"Converged after {nn} iterations.")
+                    x_traj[:, nn + 1 :, ii] = x_traj[:, nn, ii][:, np.newaxis]
                     break
 
         print("This took me a while...")
-- 
2.43.0


From 5e61cc50c3de0810dcbd867ce1db3108362955f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 084/128] fix: learned trajectories start at the starting
 points and stay at the attractor

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 714b2f6..50f40e8 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -150,6 +150,7 @@ class Learner(ABC):
         else:
             n_trajectories = starting_points.shape[1]
             trajectory_list = np.zeros((self.dim, n_steps, n_trajectories))
+            trajectory_list[:, 0, :] = starting_points
 
         for ii in range(n_trajectories):
             for nn in range(1, n_steps):
@@ -157,8 +158,14 @@ class Learner(ABC):
                     delta_t, trajectory_list[:, nn - 1, ii], self.predict
                 )
 
-                if np.linalg.norm(trajectory_list[:, nn, ii]) < convergence_margin:
+                dist_attractor = np.linalg.norm(
+                    trajectory_list[:, nn, ii] - self.pos_attractor
+                )
+                if dist_attractor < convergence_margin:
                     print(f"Converged after {nn} iterations.")
+                    trajectory_list[:, nn + 1 :, ii] = trajectory_list[:, nn, ii][
+                        :, np.newaxis
+                    ]
                     break
 
         return trajectory_list
-- 
2.43.0


From 93a4f07e5ad288b8cf6de12f88a21a93c5506710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 085/128] fix: the weight of the preferred parent decides which
 component is attached first

---
 nonlinear_avoidance/gmm_learner/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f92096d..27fee19 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -345,8 +345,9 @@ class GraphGMM(MultiBoundaryContainer):
                         # If the chosen one is the secondary choice, only adapt one
                         # and then reitarate, i.e. make an optimal sequence / graph
                         ind_critical = [child for par, child in list_parent_child]
+                        ind_parents = [par for par, child in list_parent_child]
                         ind_child = np.argmax(
-                            weights_without_self[ind_critical, it_pref]
+                            weights_without_self[ind_critical, ind_parents]
                         )
                         ind_child = ind_critical[ind_child]
 
-- 
2.43.0


From 8dbe2a75853e07d07449845057e9aa5e59b4da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 086/128] fix: attractor of the Gaussian process is the mean of
 all ends, and the directions are relative to it

---
 .../gmm_learner/learner/gpr_directional.py            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 6d64e99..21becca 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -82,10 +82,7 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         pos_attractor = np.zeros((self.dim))
 
-        for it_set in range(1, self.dataset["data"].shape[1]):
-            self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
-            self.vel = np.vstack((self.vel, self.dataset["data"][0, it_set][2:4, :].T))
-
+        for it_set in range(self.dataset["data"].shape[1]):
             pos_attractor = (
                 pos_attractor
                 + self.dataset["data"][0, it_set][:2, -1].T
@@ -94,6 +91,10 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
             print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
+        for it_set in range(1, self.dataset["data"].shape[1]):
+            self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
+            self.vel = np.vstack((self.vel, self.dataset["data"][0, it_set][2:4, :].T))
+
             # TODO include velocity - rectify
             t = np.hstack(
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
@@ -117,7 +118,7 @@ class DirectionalGPR(LearnerVisualizer, Learner):
         weightDir = 4
 
         # 2D system
-        linear_dynamics = LinearSystem(attractor_position=np.zeros(2))
+        linear_dynamics = self.null_ds
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
-- 
2.43.0


From 16a26f73dc573172418e42186861c56e9f43bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 087/128] fix: the support vector regression cannot be
 evaluated, and its attractor is not the mean of all ends

---
 .../gmm_learner/learner/svr_directional.py       | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 079ad7d..502a78f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -34,7 +34,7 @@ from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
 from nonlinear_avoidance.gmm_learner.learner.visualizer import LearnerVisualizer
 
-from vartools.dynamicalsys.closedform import evaluate_linear_dynamical_system
+from vartools.dynamical_systems import LinearSystem
 from vartools.directional_space import get_angle_space, get_angle_space_inverse
 from vartools.directional_space import get_angle_space_of_array
 from vartools.directional_space import get_angle_space_inverse_of_array
@@ -101,7 +101,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
-            for it_set in range(1, self.dataset["data"].shape[1]):
+            for it_set in range(self.dataset["data"].shape[1]):
                 pos_attractor = (
                     pos_attractor
                     + self.dataset["data"][0, it_set][:2, -1].T
@@ -110,9 +110,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
                 print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
             self.pos_attractor = pos_attractor
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         elif attractor is False:
             # Does not have attractor
@@ -121,9 +119,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         else:
             self.pos_attractor = np.array(attractor)
 
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         self.X = self.pos
 
@@ -143,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From de5ec91492cf29cce7bf9f8cd89b59dfcff8a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 088/128] fix: array prediction with velocity inputs

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 50f40e8..6c55c24 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -112,7 +112,7 @@ class Learner(ABC):
         # directions_angle_space = np.zeros(directions_angle_space.shape)
         velocities = get_angle_space_inverse_of_array(
             vecs_angle_space=directions_angle_space.T,
-            positions=xx,
+            positions=xx[: self.dim_space, :],
             # func_vel_default=self.null_ds,
             default_system=self.null_ds,
         )
-- 
2.43.0


From efb9779a6ecb976f4dcd5cac2b1fae04b026e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 089/128] fix: value and derivative of the multivariant
 Gaussian

---
 nonlinear_avoidance/multivariant_gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..65f9ce6 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,20 +44,20 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-1) * (self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From 038fbad2a0f70c95759d32c1c33e469d5aee84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 090/128] fix: magnitude of a single vector is capped, too

---
 nonlinear_avoidance/gmm_learner/math_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/math_tools.py b/nonlinear_avoidance/gmm_learner/math_tools.py
index c9be517..c99dcf3 100755
--- a/nonlinear_avoidance/gmm_learner/math_tools.py
+++ b/nonlinear_avoidance/gmm_learner/math_tools.py
@@ -15,8 +15,8 @@ import numpy as np
 def mag_linear_maximum(x, k=1, maxMag=1.0):
     magnitude = np.linalg.norm(x, axis=0) * k
     max_indeces = magnitude > maxMag
-    if np.sum(max_indeces.shape[0]):  # nonzero
-        magnitude[max_indeces] = maxMag * np.ones(np.sum(max_indeces))
+    if np.any(max_indeces):
+        magnitude = np.where(max_indeces, maxMag, magnitude)
 
     return magnitude
 
-- 
2.43.0


From 38f057a0b1edb27305fa18d856611bcc61b4ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 091/128] fix: motion is attracted to several hulls with
 outdated arguments

---
 nonlinear_avoidance/multihull_convergence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multihull_convergence.py b/nonlinear_avoidance/multihull_convergence.py
index 905e22b..c382dce 100644
--- a/nonlinear_avoidance/multihull_convergence.py
+++ b/nonlinear_avoidance/multihull_convergence.py
@@ -213,8 +213,7 @@ def multihull_attraction(
         rotated_directions[:, it] = avoider.directional_convergence_summing(
             convergence_vector=convergence_velocity,
             reference_vector=reference_dir,
-            weight=inv_gamma_weight[it],
-            # weight=1, #
+            gamma=gamma_array[it],
             nonlinear_velocity=initial_velocity,
             # base=DirectionBase(matrix=normal_orthogonal_matrix),
             base=normal_orthogonal_matrix,
-- 
2.43.0


From 8dc2caa0a0eab16975a56cf97d08e7c43e0c7771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 092/128] fix: demonstrations which end at the attractor cannot
 be loaded

---
 nonlinear_avoidance/gmm_learner/learner/base.py    | 14 ++++++++++++++
 .../gmm_learner/learner/directional_gmm.py         |  6 +-----
 .../gmm_learner/learner/gpr_directional.py         | 14 ++------------
 .../gmm_learner/learner/svr_directional.py         | 12 ++----------
 4 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 6c55c24..cc841af 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -40,6 +40,20 @@ class Learner(ABC):
     def evaluate(self, position):
         return self.predict(xx=position)
 
+    def get_demonstrated_angles(self, positions, velocities):
+        """Returns the angles (one column per sample) of the demonstrated velocities with
+        respect to the null-dynamics. At the attractor there is no reference, hence zero."""
+        angles = np.zeros((positions.shape[1] - 1, positions.shape[0]))
+        ind = [np.any(self.null_ds.evaluate(pos)) for pos in positions]
+
+        if any(ind):
+            angles[:, ind] = get_angle_space_of_array(
+                directions=velocities[ind, :].T,
+                positions=positions[ind, :].T,
+                func_vel_default=self.null_ds.evaluate,
+            )
+        return angles
+
     @abstractmethod
     def _predict(self, xx):
         """Predicts learned DS but returns value in direction space.
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index e4124e1..14937e4 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -225,11 +225,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         # The directions are relative to the (same) dynamics used for the prediction
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=self.null_ds.evaluate,
-        )
+        direction = self.get_demonstrated_angles(self.pos, self.vel)
 
         self.X = np.hstack((self.pos, self.vel, direction.T))
 
diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 21becca..6e5c2df 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -117,8 +117,6 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         weightDir = 4
 
-        # 2D system
-        linear_dynamics = self.null_ds
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
@@ -126,17 +124,9 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
             self.n_samples = n_input
 
-            directions = get_angle_space_of_array(
-                directions=self.vel.T[:, ind],
-                positions=self.pos.T[:, ind],
-                func_vel_default=linear_dynamics.evaluate,
-            )
+            directions = self.get_demonstrated_angles(self.pos[ind], self.vel[ind])
         else:
-            directions = get_angle_space_of_array(
-                directions=self.vel.T,
-                positions=self.pos.T,
-                func_vel_default=linear_dynamics.evaluate,
-            )
+            directions = self.get_demonstrated_angles(self.pos, self.vel)
 
             self.n_samples = n_input
 
diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 502a78f..ae39b4f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -136,17 +136,9 @@ class DirectionalSVR(LearnerVisualizer, Learner):
 
             self.n_samples = n_input
 
-            directions = get_angle_space_of_array(
-                directions=self.vel.T[:, ind],
-                positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds.evaluate,
-            )
+            directions = self.get_demonstrated_angles(self.pos[ind], self.vel[ind])
         else:
-            directions = get_angle_space_of_array(
-                directions=self.vel.T,
-                positions=self.pos.T,
-                func_vel_default=self.null_ds.evaluate,
-            )
+            directions = self.get_demonstrated_angles(self.pos, self.vel)
 
             self.n_samples = n_input
         self.y = np.squeeze(directions)
-- 
2.43.0


From dcba91106324abfed26308132ac3113709314626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 093/128] fix: learned motion cannot be evaluated at the
 attractor

---
 .../gmm_learner/learner/base.py               | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index cc841af..c44dfeb 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -95,6 +95,10 @@ class Learner(ABC):
         dir_angle_space = dir_angle_space[0, : self.dim - 1]
 
         null_direction = self.null_ds.evaluate(xx[: self.dim_space])
+        if not np.any(null_direction):
+            # At the attractor
+            return null_direction
+
         velocity = get_angle_space_inverse(
             dir_angle_space=dir_angle_space, null_direction=null_direction
         )
@@ -124,12 +128,17 @@ class Learner(ABC):
             directions_angle_space = directions_angle_space.reshape(-1, 1)
 
         # directions_angle_space = np.zeros(directions_angle_space.shape)
-        velocities = get_angle_space_inverse_of_array(
-            vecs_angle_space=directions_angle_space.T,
-            positions=xx[: self.dim_space, :],
-            # func_vel_default=self.null_ds,
-            default_system=self.null_ds,
-        )
+        positions = xx[: self.dim_space, :]
+        velocities = np.zeros(positions.shape)
+        ind = [np.any(self.null_ds.evaluate(pos)) for pos in positions.T]
+
+        if any(ind):  # Zero velocity at the attractor
+            velocities[:, ind] = get_angle_space_inverse_of_array(
+                vecs_angle_space=directions_angle_space[ind, :].T,
+                positions=positions[:, ind],
+                # func_vel_default=self.null_ds,
+                default_system=self.null_ds,
+            )
 
         return velocities
 
-- 
2.43.0


From 81b67473fd20e2874e866712f5ee2beb1d8ac160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 094/128] fix: attraction to several hulls at rest, and where
 the convergence is at rest

---
 nonlinear_avoidance/multihull_convergence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multihull_convergence.py b/nonlinear_avoidance/multihull_convergence.py
index c382dce..a8a84c9 100644
--- a/nonlinear_avoidance/multihull_convergence.py
+++ b/nonlinear_avoidance/multihull_convergence.py
@@ -148,6 +148,9 @@ def multihull_attraction(
     if not n_obstacles:  # No obstacles in the environment
         return initial_velocity
 
+    if not np.any(initial_velocity):  # No direction to rotate
+        return initial_velocity
+
     dimension = position.shape[0]
 
     gamma_array = np.zeros((n_obstacles))
@@ -196,10 +199,9 @@ def multihull_attraction(
         )
 
         conv_vel_norm = np.linalg.norm(convergence_velocity)
-        if conv_vel_norm:  # Zero value
-            # base = DirectionBase(matrix=normal_orthogonal_matrix)
-            base = normal_orthogonal_matrix
+        if not conv_vel_norm:  # Zero value
             rotated_directions[:, it] = initial_velocity
+            continue
 
         # position, gamma_value, it_obs, obstacle_list, dotprod_weight=1, gamma_weight=1):
         convergence_radius = get_desired_radius(
-- 
2.43.0


From f27f8922a9a40a607fee9895ff0fcc1350101840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 095/128] fix: the root region converges towards the last
 region if it does not contain the attractor

---
 nonlinear_avoidance/gmm_learner/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index 27fee19..8741cb3 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -159,7 +159,8 @@ class GraphGMM(MultiBoundaryContainer):
         """Returns local_attractor based projected point & parent_direction."""
         # TODO: maybe parent _end_points / end-point direction could be used...
         if (
-            self[it_obs].get_gamma(
+            self.get_parent(it_obs) < 0  # Root
+            or self[it_obs].get_gamma(
                 self.pos_attractor, in_global_frame=True, relative_gamma=False
             )
             >= 1
-- 
2.43.0


From a7dc270966d8fc2f5141409a9f69a5ef691eec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 096/128] fix: velocity deviations compared at wrong positions
 after a step without motion

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py   | 6 ++++--
 .../comparison/evaluation_trajectories_with_std.py          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..89bf1b3 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -73,11 +73,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -87,11 +88,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..f5c80d6 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -74,11 +74,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -88,11 +89,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
-- 
2.43.0


From 25648246427cb07bedb2370c6ff011395650aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 097/128] fix: trajectory evaluation misses its imports and the
 radius of the compared motion

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py  | 7 ++++++-
 .../comparison/evaluation_trajectories_with_std.py         | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 89bf1b3..24971ba 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
@@ -16,6 +18,7 @@ from numpy import linalg as LA
 
 import matplotlib.pyplot as plt
 
+from vartools.states import Pose
 from nonlinear_avoidance.dynamics.circular_dynamics import (
     # CircularRotationDynamics,
     SimpleCircularDynamics,
@@ -132,7 +135,9 @@ class TrajectoryEvaluator:
         delta_time = simulation_parameters["delta_time"]
         it_max = simulation_parameters["it_max"]
 
-        initial_dynamics = SimpleCircularDynamics(dimension=2)
+        initial_dynamics = SimpleCircularDynamics(
+            pose=Pose.create_trivial(dimension=2), radius=2.0
+        )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
         files_list = os.listdir(datafolder_path)
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index f5c80d6..e2b2332 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From b9c98a39b53bc196d4e90dc2fde9a5325ed9588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 098/128] fix: deviations inside and outside of the path cancel
 each other out

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 24971ba..dc44879 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -50,7 +50,7 @@ def normalize_velocities(velocities):
 def mean_squared_error_to_path(trajectory, center_position, radius):
     # Assumption of circular dynamics
     traj_centered = trajectory - np.tile(center_position, (trajectory.shape[1], 1)).T
-    err_squared = np.sum(traj_centered**2, axis=0) - radius**2
+    err_squared = abs(np.sum(traj_centered**2, axis=0) - radius**2)
 
     return np.mean(err_squared)
 
-- 
2.43.0


From 35b9f3b4e7e9e83a02f915129b9a9650bd725698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 099/128] fix: spanning basis of almost parallel vectors is not
 orthonormal

---
 nonlinear_avoidance/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index bd99654..ea8e275 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -73,10 +73,10 @@ def gamma_normal_gradient_descent(
 def get_orthonormal_spanning_basis(vector1, vector2, /):
     """Returns a orthonormal basis from to orthonormal input vectors."""
     dot_prod = np.dot(vector1, vector2)
+    vec_perp = vector2 - vector1 * dot_prod
 
-    if abs(dot_prod) < 1:
-        vec_perp = vector2 - vector1 * dot_prod
-        vec_perp = vec_perp / LA.norm(vec_perp)
+    if (norm_perp := LA.norm(vec_perp)) > 1e-8:
+        vec_perp = vec_perp / norm_perp
     else:
         # (Anti-)parallel vectors => take random perpendicular vector
         vec_perp = np.zeros(vector1.shape)
-- 
2.43.0


From 0edba5deda5ccccd007770103b59dfb762121d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 100/128] fix: intersection of touching obstacles raises an
 error

---
 nonlinear_avoidance/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 979e2d8..59bfd9a 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -65,6 +65,10 @@ def get_intersection_of_obstacles(
         shape2 = obstacle2.shape
 
     intersect = shape1.intersection(shape2)
+    if not intersect.area:
+        # No overlap, but the obstacles might touch each other
+        return None
+
     intersections = np.array(intersect.exterior.coords.xy)
 
     if False:
-- 
2.43.0


From 4cce5389d785392a05ff9449eb1fca3f211967e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 101/128] fix: search of a common position moves away from the
 obstacles by default

---
 nonlinear_avoidance/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index ea8e275..1a60c06 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -43,10 +43,11 @@ def gamma_normal_gradient_descent(
     position = 0.5 * (obstacles[0].center_position + obstacles[1].center_position)
 
     if powers is None:
-        powers = [2 for _ in range(len(obstacles))]
+        powers = [-2 if obs.is_boundary else 2 for obs in obstacles]
 
     if factors is None:
-        factors = [1 for _ in range(len(obstacles))]
+        # Move against the (outwards pointing) normals
+        factors = [-1 for _ in range(len(obstacles))]
 
     dimension = obstacles[0].dimension
 
-- 
2.43.0


From bf1668940dd4d74d3226d4ea8c99152cf6670208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 102/128] fix: find the components of a body by their tracking
 id

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..192e197 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From 73a77f0bd3db9af82aa676c0833355212a8c7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 103/128] fix: limbs which are tracked by their position point
 towards it

---
 nonlinear_avoidance/multi_body_human.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 192e197..f4d62cb 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -429,8 +429,11 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+            theta = np.arctan2(rotvec_norm, axes_direction[2])
+            quat = np.hstack((rot_vec * np.sin(theta / 2.0), [np.cos(theta / 2.0)]))
+
+        elif axes_direction[2] < 0:
+            quat = np.array([1.0, 0, 0, 0])
 
         else:
             quat = np.array([0, 0, 0, 1.0])
-- 
2.43.0


From 92f4a20311ad50f7f2f0e474d2834b96bd2cf89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 104/128] fix: distances to the ellipses of a mixture use the
 precision matrix, not its Cholesky factor

---
 nonlinear_avoidance/gmm_obstacle.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..f70df35 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -492,9 +492,13 @@ class GmmObstacle:
         deriv_factor = (-0.5) * self._precisions_cholesky_[index, :, :] @ delta_dist
         return (powerfactor * deriv_factor) * fraction_value * exp_value
 
+    def _get_precision(self, index: int) -> np.ndarray:
+        """Inverse of the covariance (and not its Cholesky factor)."""
+        return LA.inv(self._gmm.covariances_[index, :, :])
+
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
         delta_dist = position - self._gmm.means_[index, :]
-        gamma = delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
+        gamma = delta_dist.T @ self._get_precision(index) @ delta_dist
         return np.sqrt(gamma) / self.variance_factor
 
     def get_gamma_derivative(
@@ -506,10 +510,10 @@ class GmmObstacle:
         d_gamma = (
             powerfactor
             / 2.0
-            * (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            * (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
@@ -583,10 +587,10 @@ class GmmObstacle:
         delta_dist = position - self._gmm.means_[index, :]
 
         d_gamma = (
-            (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (1.0 / 2.0 - 1)
             * self.variance_factor ** (-1)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
-- 
2.43.0


From c907abf041377e32685bb56057121ade4365d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 105/128] fix: analytic ellipses of a mixture are oriented
 along the eigenvectors

---
 nonlinear_avoidance/gmm_obstacle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index f70df35..ee62d8e 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -428,9 +428,7 @@ class GmmObstacle:
 
         obstacle_environment = ObstacleContainer()
         for ii in range(self.n_gmms):
-            uu = self._axes_directions[:, :, ii][0] / LA.norm(
-                self._axes_directions[:, :, ii][0]
-            )
+            uu = self._axes_directions[:, 0, ii]
             angle = np.arctan2(uu[1], uu[0])
 
             obstacle_environment.append(
-- 
2.43.0


From 066b2e584994f9ed6f8ff44e8ba7493bc255afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 106/128] fix: the axes are evaluated for mixtures of a single
 ellipse, too

---
 nonlinear_avoidance/gmm_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index ee62d8e..ebf1622 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -129,6 +129,9 @@ class GmmObstacle:
         self.gmm_index_graph = GraphHandler()
         self._reference_points = np.zeros(self._gmm.means_.shape).T
 
+        # By default also update axes length and direction
+        self.evaluate_axes_length_and_direction()
+
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
@@ -171,9 +174,6 @@ class GmmObstacle:
                 indices=[value, parent_value]
             )
 
-            # By default also update axes length and direction
-            self.evaluate_axes_length_and_direction()
-
     #     for ii in range(self.n_gmms):
     #         if ii == ind_closest:
     #             continue
-- 
2.43.0


From 1a1a246bc38096b99139480808de4d477a1da9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 107/128] fix: the root of a mixture is the ellipse which is
 closest to the mean center

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index ebf1622..766cc2d 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -135,7 +135,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From 5af3b3887198aae0337e1f9284c2363ee5b7f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 108/128] fix: setting a kernel point stores it

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 766cc2d..9659651 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From ff0f64ec09d7df16265c42cdcfe1ddfbf2c630c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 109/128] fix: finite normal direction at the center of an
 ellipse of a mixture

---
 nonlinear_avoidance/gmm_obstacle.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 9659651..4d75668 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -583,6 +583,11 @@ class GmmObstacle:
     def get_normal_direction(self, position: Vector, index: int) -> Vector:
         """Get normal direction of obstacle =>"""
         delta_dist = position - self._gmm.means_[index, :]
+        if not LA.norm(delta_dist):
+            # Feasible default value
+            d_gamma = np.zeros(self.dimension)
+            d_gamma[0] = 1
+            return d_gamma
 
         d_gamma = (
             (delta_dist.T @ self._get_precision(index) @ delta_dist)
@@ -592,14 +597,7 @@ class GmmObstacle:
             @ delta_dist
         )
 
-        dgamma_norm = LA.norm(d_gamma)
-        if dgamma_norm:
-            d_gamma = d_gamma / dgamma_norm
-        else:
-            # Feasible default value
-            d_gamma[0] = 1
-
-        return d_gamma
+        return d_gamma / LA.norm(d_gamma)
 
     def get_intersection_of_ellipses(
         self,
-- 
2.43.0


From 61296c1eb893eaf7297dd598318585be2ce63cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 110/128] fix: the mean normal of a mixture is the mean
 reference where they agree

---
 nonlinear_avoidance/gmm_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 4d75668..fc1743f 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -310,6 +310,7 @@ class GmmObstacle:
         if not LA.norm(delta_normal):
             # Trivial case
             self.mean_normal = self.mean_reference
+            return
 
         dot_prod = (-1) * (
             np.dot(delta_normal, self.mean_reference) / LA.norm(delta_normal)
-- 
2.43.0


From 0092ecbf33f401764c8d231d5fd419c98dfc468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 111/128] fix: mean reference of a mixture is with respect to
 the ellipse at the root

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index fc1743f..d3b77ec 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -209,7 +209,7 @@ class GmmObstacle:
                 )
 
     def get_root_rotation_direction(self, position: Vector, velocity: Vector) -> Vector:
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         kernel_direction = position - self.get_kernel_point(ind_root)
         kernal_norm = LA.norm(kernel_direction)
         if not kernal_norm:
@@ -293,7 +293,7 @@ class GmmObstacle:
             )
 
         # Get root
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         if self.relative_weights[ind_root]:
             base_vector = reference_directions[:, ind_root]
         else:
-- 
2.43.0


From bc1a42644ba04c6c65bef844701669078735c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 112/128] fix: the mean normal of a mixture weighs the normals
 of its ellipses

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index d3b77ec..48352fa 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -287,7 +287,7 @@ class GmmObstacle:
                 position, index
             )
 
-            delta_normal += (
+            delta_normal += self.relative_weights[index] * (
                 self.get_normal_direction(position, index)
                 - reference_directions[:, index]
             )
-- 
2.43.0


From abb565e5aa4d9de2e9e9c3571c5da77065c51122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 113/128] fix: obstacle counts at its own center, too

Obstacles were skipped for a zero gamma (position at their center), instead
of for a zero weight: the rotation did jump at the center of an obstacle
which overlaps with another one.
---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index dfd4267..5d91e28 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -84,7 +84,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         if update_center_dynamics:
             zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
             for ii, obs in enumerate(self.obstacle_container):
-                if not gammas[ii]:
+                if not weights[ii]:
                     continue
 
                 # We don't normalize before the summing, to keep the 'importance'
-- 
2.43.0


From 26120cf891588926386976fa238e536a2cc81231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 114/128] fix: rotated dynamics can reuse the values at the
 obstacle centers

evaluate(position, update_center_dynamics=False) always raised, since only
one of the two values at the centers was kept.
---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index 5d91e28..ed9fa72 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -51,6 +51,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         )
 
         self.center_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
+        self.center_zero_dynamics = np.zeros_like(self.center_dynamics)
 
         self.velocity_scaling = 1
         # Factor by which the dot-product gets multiplied before being applied
@@ -82,16 +83,14 @@ class ObstacleRotatedDynamics(DynamicalSystem):
                 weight_sum = 1
 
         if update_center_dynamics:
-            zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
             for ii, obs in enumerate(self.obstacle_container):
-                if not weights[ii]:
-                    continue
-
                 # We don't normalize before the summing, to keep the 'importance'
                 self.center_dynamics[:, ii] = self.initial_dynamics.evaluate(
                     obs.center_position
                 )
-                zero_dynamics[:, ii] = self.zero_dynamics.evaluate(obs.center_position)
+                self.center_zero_dynamics[:, ii] = self.zero_dynamics.evaluate(
+                    obs.center_position
+                )
                 # center_norms = LA.norm(center_dirs, axis=0)
                 # ind_nonzero = center_norms > 0
                 # center_dirs = center_dirs / np.tile(
@@ -125,7 +124,9 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         #        - center_positions, axis=0)
 
         # Get mean-basis
-        base0 = np.sum(zero_dynamics * np.tile(weights, (self.dimension, 1)), axis=1)
+        base0 = np.sum(
+            self.center_zero_dynamics * np.tile(weights, (self.dimension, 1)), axis=1
+        )
         base1 = np.sum(
             self.center_dynamics * np.tile(weights, (self.dimension, 1)), axis=1
         )
-- 
2.43.0


From a5c8c3ae030864a326f4b8560d6ee1df39657419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 115/128] fix: entrances are looked for in the right frame

The position of an entrance was checked twice in the frame of the inner
obstacle, and never with respect to the outer one.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..8b85eb8 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -541,7 +541,11 @@ class MultiHullAndObstacle(Obstacle):
                 factors=[-1, 1],
             )
 
-            if obs_ii.is_inside(position) or obs_ii.is_inside(position):
+            # In the free space of both (this includes invalid results of the descent)
+            if not (
+                obs_ii.get_gamma(position, in_global_frame=True) > 1
+                and self.outer_obstacle.get_gamma(position, in_global_frame=True) > 1
+            ):
                 continue
 
             self._graph.add_node(
-- 
2.43.0


From 1ef06eb683b4af4619262a1595e02be57be6086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 116/128] fix: inner obstacles which reach out do have an
 entrance

The shortcut compared the distance of the centers to the full axes.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 8b85eb8..58c6831 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -531,7 +531,8 @@ class MultiHullAndObstacle(Obstacle):
 
         for ii, obs_ii in enumerate(self.inner_obstacles):
             if LA.norm(obs_ii.center_position - self.outer_obstacle.center_position) < (
-                np.min(self.outer_obstacle.axes_length) - np.max(obs_ii.axes_length)
+                0.5
+                * (np.min(self.outer_obstacle.axes_length) - LA.norm(obs_ii.axes_length))
             ):
                 continue
 
-- 
2.43.0


From adb20e38adb5b43e563f8cab72c0bfd3572c84f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 117/128] fix: paths through other entrances than the first one

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 58c6831..0bba013 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -377,7 +377,7 @@ class MultiHullAndObstacle(Obstacle):
             # Treat 'int' obstacles differently, since they represent the entrance
             # coming from the same obstacle
             if isinstance(path[ii], int):
-                ind0 = 0
+                ind0 = path[ii]
                 obs = self.outer_obstacle
                 attractor = self._local_outside_attractor
 
@@ -391,7 +391,7 @@ class MultiHullAndObstacle(Obstacle):
                 break
 
             # Set projected connection element
-            ind1 = 0 if isinstance(path[ii + 1], int) else path[ii + 1]
+            ind1 = path[ii + 1]
 
             local_attractor = self._graph.edges[ind0, ind1]["intersection"]
             local_attractor = obs.get_point_on_surface(
-- 
2.43.0


From bd8be3baee136866166341a4a4c857cd7d1cdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 118/128] fix: shortest path to one of several inner obstacles

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 0bba013..2ba18c9 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -346,7 +346,11 @@ class MultiHullAndObstacle(Obstacle):
             if not self._graph.nodes[obs]["contains_attractor"]:
                 continue
 
-            closest_dist.append(path_dist)
+            if obs not in path_dist:
+                # There is no connection
+                continue
+
+            closest_dist.append(path_dist[obs])
             closest_elems.append(obs)
 
         if self._attractor_is_outside:
-- 
2.43.0


From a16b753181d8e3b6be8fb50ea1932671ca83c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 119/128] fix: motion around turned multi-hull obstacles is
 returned in the global frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2ba18c9..46a4348 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,7 +247,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.transform_relative2global_dir(mean_direction)
 
         return mean_direction
 
-- 
2.43.0


From 33e176be75c2fa22eb513f822072ffb6b0d57fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 120/128] fix: multi-hull obstacles are inside at their actual
 pose

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 46a4348..862787d 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
-- 
2.43.0


From b8ffdcf2b831cfc710a8a55bfce6f6b159536e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 121/128] fix: an attractor in the wall belongs to the closest
 free region

All weights are zero there.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 862787d..ce12c44 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -159,7 +159,7 @@ class MultiHullAndObstacle(Obstacle):
             warnings.warn("Attractor is in obstacle-wall.")
 
             self._evaluate_weights(position)
-            ind_max = np.argmin(self.weights)
+            ind_max = np.argmax(self.gamma_list)
             if ind_max == self._indices_outer:
                 self._local_outside_attractor = position
                 self._attractor_is_outside = True
-- 
2.43.0


From 821c12db270e197bd09783d9636de9651f0c9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 122/128] fix: choose the entrance with the shortest way to the
 attractor

The way from the entrance to itself was taken, for all inner obstacles.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index ce12c44..7cd762c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -315,7 +315,14 @@ class MultiHullAndObstacle(Obstacle):
 
             path_dist = shortest_path_length(self._graph, source=ii, weight="distance")
             for obs in self.inner_obstacles:
-                distances.append(path_dist[ii] + dist_to_entrance)
+                if not self._graph.nodes[obs]["contains_attractor"]:
+                    continue
+
+                if obs not in path_dist:
+                    # There is no connection
+                    continue
+
+                distances.append(path_dist[obs] + dist_to_entrance)
                 entrances.append(ii)
                 targets.append(obs)
 
-- 
2.43.0


From 9fbfbff8e8737efcaa03b954c0c4d5e550df8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 123/128] fix: motion around multi-hull obstacles comes to rest
 at the attractor

The velocity (up to the maximum) was evaluated, but only its direction was
returned, which is not defined at the attractor.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 7cd762c..ae6aae1 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,7 +247,8 @@ class MultiHullAndObstacle(Obstacle):
             breakpoint()
             raise ValueError("Zero direction value obtained.")
 
-        mean_direction = mean_direction / dir_norm * mean_magnitude
+        if dir_norm:
+            mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
             mean_direction = self.transform_relative2global_dir(mean_direction)
@@ -274,7 +275,8 @@ class MultiHullAndObstacle(Obstacle):
 
         linear_velocity = linear_velocity * scaling
 
-        vel_norm = LA.norm(linear_velocity)
+        if not (vel_norm := LA.norm(linear_velocity)):
+            return linear_velocity
 
         # Rotational Modulation
         normal = obs.get_normal_direction(position, in_global_frame=True)
@@ -299,7 +301,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
-- 
2.43.0


From c8bde025cf465fe7f6da4b4e5405ba06b66b32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 124/128] fix: entrances which cannot be reached are not on the
 way out

A KeyError was raised for two separate pockets.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index ae6aae1..58ee3ef 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -367,6 +367,10 @@ class MultiHullAndObstacle(Obstacle):
 
         if self._attractor_is_outside:
             for ii in range(self._entrance_counter):
+                if ii not in path_dist:
+                    # There is no connection
+                    continue
+
                 dist_attractor = LA.norm(
                     get_property_of_node_edge(self._graph, ii, "intersection")
                     - self._local_outside_attractor
-- 
2.43.0


From 1ef0d15b0769035ea05a5e72b31c1984393324c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 125/128] fix: leave a pocket if the attractor is in another
 one

A ValueError was raised if they are only connected through the outside.
---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 58ee3ef..86ce344 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -379,6 +379,13 @@ class MultiHullAndObstacle(Obstacle):
                 closest_dist.append(path_dist[ii] + dist_attractor)
                 closest_elems.append(ii)
 
+        elif not closest_dist:
+            # The attractor can only be reached through the outside
+            for ii in range(self._entrance_counter):
+                if ii in path_dist:
+                    closest_dist.append(path_dist[ii])
+                    closest_elems.append(ii)
+
         # Get the shortest path and update
         ind_min = np.argmin(closest_dist)
 
-- 
2.43.0


From 289dfa755b2e7e5c9be048e7aac3f340a5bce7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 126/128] fix: Convergence radiuses follow the obstacles of
 their container

---
 nonlinear_avoidance/avoidance/rotational_avoider.py |  2 ++
 nonlinear_avoidance/rotation_container.py           | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 361a521..416e110 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -387,6 +387,8 @@ class RotationalAvoider(BaseAvoider):
             ):
                 # Custom convergence radius per obstacle
                 convergence_radius = obstacle_list.convergence_radiuses[it_obs]
+                if convergence_radius is None:
+                    convergence_radius = self.convergence_radius
 
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index e0f09e4..cfbf2c9 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -30,14 +30,26 @@ class RotationContainer(BaseContainer):
         super().append(value)
         self._convergence_dynamics.append(None)
 
+        if convergence_radius is not None or len(self.convergence_radiuses):
+            # Obstacles without own radius (None) use the one of the avoider
+            radiuses = list(self.convergence_radiuses)
+            radiuses += [None] * (len(self) - 1 - len(radiuses))
+            self.convergence_radiuses = radiuses + [convergence_radius]
+
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
         super().__delitem__(key)
         del self._convergence_dynamics[key]
+        if len(self.convergence_radiuses):
+            self.convergence_radiuses = list(self.convergence_radiuses)
+            del self.convergence_radiuses[key]
 
     def __setitem__(self, key, value):
         super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
+        if len(self.convergence_radiuses):
+            self.convergence_radiuses = list(self.convergence_radiuses)
+            self.convergence_radiuses[key] = None
 
     def set_convergence_directions(
         self, nonlinear_dynamics=None, converging_dynamics=None
-- 
2.43.0


From 6151888f4433429b1980303937ff22f3469b3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 127/128] fix: Boundaries are added to the given parent

---
 nonlinear_avoidance/multiboundary_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 535a7bf..2cbf674 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -70,9 +70,8 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+            self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
         key = range(len(self))[key]  # Allow negative indices
-- 
2.43.0


From e323717b75815da4035a112d7a5244382e09a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 128/128] fix: Create the rotation by zero

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 257dce1..ff3a047 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -919,4 +919,4 @@ class VectorRotationTree:
 
 def create_zero_vector_rotation(dimension: int) -> VectorRotationXd:
     """Creates a zero vector rotation object."""
-    return VectorRotationXd(base=np.eye((dimension, 2)), rotation_angle=0.0)
+    return VectorRotationXd(base=np.eye(dimension, 2), rotation_angle=0.0)
-- 
2.43.0

