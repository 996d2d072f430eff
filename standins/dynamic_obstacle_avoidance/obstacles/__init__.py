"""Convex / star-shaped obstacles: the interface of dynamic_obstacle_avoidance.obstacles."""
from __future__ import annotations
import copy
import math
import sys
from typing import Optional
import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation
from shapely import affinity
from shapely.geometry import Point, box, Polygon
from vartools.states import Pose, ObjectPose, Twist

BIG = 1e8


class Obstacle:
    """Star-shaped obstacle around `center_position`; `reference_point` is in the obstacle frame.

    Gamma: outside (d_center - d_surface) * distance_scaling + 1, inside d_center / d_surface;
    a boundary has d_surface / d_center (> 1 inside of the walls)."""

    def __init__(self, center_position=None, orientation=None, pose=None, position=None,
                 margin_absolut=0.0, is_boundary=False, name="", linear_velocity=None,
                 angular_velocity=None, twist=None, distance_scaling=1.0, reference_point=None,
                 reference_position=None, sigma=1.0, dimension=None, tail_effect=True, **kwargs):
        if pose is None:
            if center_position is None:
                center_position = position
            if center_position is None:
                center_position = np.zeros(dimension or 2)
            center_position = np.array(center_position, dtype=float)
            if orientation is None:
                orientation = 0.0 if center_position.shape[0] == 2 else (
                    Rotation.identity() if center_position.shape[0] == 3 else None)
            pose = ObjectPose(center_position, orientation)
        self.pose = pose
        self.margin_absolut = margin_absolut
        self.is_boundary = is_boundary
        self.name = name
        self.tail_effect = tail_effect
        self.distance_scaling = distance_scaling
        self.sigma = sigma
        dim = self.pose.position.shape[0]
        if twist is None:
            twist = Twist(np.zeros(dim) if linear_velocity is None
                          else np.array(linear_velocity, dtype=float),
                          angular_velocity if angular_velocity is not None
                          else (0.0 if dim == 2 else np.zeros(3)))
        self.twist = twist
        if reference_point is None:
            reference_point = reference_position
        self.reference_point = (np.zeros(dim) if reference_point is None
                                else np.array(reference_point, dtype=float))
        self._shape = None

    # --- state
    @property
    def dimension(self):
        return self.pose.position.shape[0]

    @property
    def dim(self):
        return self.pose.position.shape[0]

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = np.array(value, dtype=float)

    position = center_position

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def rotation_matrix(self):
        return self.pose.rotation_matrix

    @property
    def linear_velocity(self):
        return self.twist.linear

    @linear_velocity.setter
    def linear_velocity(self, value):
        self.twist.linear = np.array(value, dtype=float)

    @property
    def angular_velocity(self):
        return self.twist.angular

    @angular_velocity.setter
    def angular_velocity(self, value):
        self.twist.angular = value

    # --- frames
    def transform_position_from_relative(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_position_to_relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_global2relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_relative2global(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_global2relative_dir(self, direction):
        return self.pose.transform_direction_to_relative(direction)

    def transform_relative2global_dir(self, direction):
        return self.pose.transform_direction_from_relative(direction)

    @staticmethod
    def _is_global(in_global_frame, in_obstacle_frame):
        if in_global_frame is not None:
            return in_global_frame
        if in_obstacle_frame is not None:
            return not in_obstacle_frame
        return False

    # --- reference point
    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self.reference_point)

    def get_reference_point(self, in_global_frame=False):
        return self.global_reference_point if in_global_frame else np.copy(self.reference_point)

    def set_reference_point(self, position, in_global_frame=False):
        position = np.array(position, dtype=float)
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self.reference_point = position

    def get_reference_direction(self, position, in_global_frame=None, in_obstacle_frame=None,
                                normalize=True):
        ref = self.global_reference_point if self._is_global(
            in_global_frame, in_obstacle_frame) else self.reference_point
        if hasattr(self, "global_relative_reference_point") and self._is_global(
                in_global_frame, in_obstacle_frame):
            ref = self.global_relative_reference_point
        direction = ref - np.asarray(position, dtype=float)
        norm = LA.norm(direction)
        if not norm:
            direction = np.zeros(direction.shape)
            direction[0] = 1.0
            return direction
        return direction / norm if normalize else direction

    # --- relative gamma for touching boundaries
    @property
    def local_relative_reference_point(self):
        return self.pose.transform_position_to_relative(self.global_relative_reference_point)

    def set_relative_gamma_at_position(self, position, relative_gamma):
        self._relative_gamma = (np.copy(position), relative_gamma)

    def reset_relative_reference(self):
        for name in ("_relative_gamma", "global_relative_reference_point"):
            if name in self.__dict__:
                del self.__dict__[name]

    # --- shape: to be defined by the child: signed 'radius' along a unit direction
    def get_local_radius(self, position, in_global_frame=False):
        raise NotImplementedError()

    def get_point_on_surface(self, position, in_global_frame=None, in_obstacle_frame=None):
        glob = self._is_global(in_global_frame, in_obstacle_frame)
        local = self.pose.transform_position_to_relative(position) if glob else np.asarray(
            position, dtype=float)
        norm = LA.norm(local)
        direction = local / norm if norm else np.eye(self.dimension)[:, 0]
        surf = direction * self.get_local_radius(direction)
        return self.pose.transform_position_from_relative(surf) if glob else surf

    def get_gamma(self, position, in_obstacle_frame=None, in_global_frame=None,
                  relative_gamma=True, margin_absolut=None, **kwargs):
        position = np.asarray(position, dtype=float)
        glob = self._is_global(in_global_frame, in_obstacle_frame)
        if relative_gamma and glob and "_relative_gamma" in self.__dict__:
            if np.allclose(self._relative_gamma[0], position):
                return self._relative_gamma[1]
        local = self.pose.transform_position_to_relative(position) if glob else position
        dist = LA.norm(local)
        if self.is_boundary:
            if not dist:
                return sys.float_info.max
            return (self.get_local_radius(local) / dist - 1) * self.distance_scaling + 1
        if not dist:
            return 0.0
        surf_dist = self._local_distance_to_surface(local)
        if surf_dist > 0:
            return surf_dist * self.distance_scaling + 1
        return dist / self.get_local_radius(local)

    def _local_distance_to_surface(self, local):
        return LA.norm(local) - self.get_local_radius(local)

    def is_inside(self, position, in_global_frame=False, margin=None, **kwargs):
        return self.get_gamma(position, in_global_frame=in_global_frame, relative_gamma=False) < 1

    def get_distance_to_surface(self, position, in_global_frame=None):
        glob = self._is_global(in_global_frame, None)
        local = self.pose.transform_position_to_relative(position) if glob else position
        return self._local_distance_to_surface(np.asarray(local, dtype=float))

    def get_normal_direction(self, position, in_global_frame=None, in_obstacle_frame=None, **kw):
        """Outward pointing (away from the center)."""
        glob = self._is_global(in_global_frame, in_obstacle_frame)
        local = self.pose.transform_position_to_relative(position) if glob else np.asarray(
            position, dtype=float)
        normal = self._local_normal(local)
        return self.pose.transform_direction_from_relative(normal) if glob else normal

    def _local_normal(self, local):
        raise NotImplementedError()

    def get_intersection_with_surface(self, start_position=None, direction=None,
                                      in_global_frame=False, edge_point=None, **kwargs):
        """First crossing of the surface from start_position along direction (None: no crossing)."""
        if start_position is None:
            start_position = edge_point
        direction = np.asarray(direction, dtype=float)
        if start_position is None:
            start_position = self.center_position if in_global_frame else np.zeros(self.dimension)
        if in_global_frame:
            start = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        else:
            start = np.asarray(start_position, dtype=float)
        direction = direction / LA.norm(direction)
        result = self._local_ray_crossing(start, direction)
        if result is None:
            return None
        return self.pose.transform_position_from_relative(result) if in_global_frame else result

    _get_intersection_with_surface = get_intersection_with_surface

    def _local_ray_crossing(self, start, direction):
        raise NotImplementedError()

    def get_characteristic_length(self):
        raise NotImplementedError()

    def get_reference_length(self):
        return self.get_characteristic_length()

    def get_maximal_distance(self):
        return self.get_characteristic_length()

    get_minimal_distance = get_maximal_distance

    # --- outlines
    def get_boundary_xy(self, n_points=100, in_global_frame=True):
        angles = np.linspace(0, 2 * np.pi, n_points)
        pts = np.vstack((np.cos(angles), np.sin(angles)))
        for ii in range(n_points):
            pts[:, ii] = pts[:, ii] * self.get_local_radius(pts[:, ii])
        if in_global_frame:
            pts = self.pose.transform_positions_from_relative(pts)
        return pts

    get_boundary_with_margin_xy = get_boundary_xy

    @property
    def boundary_points_global_closed(self):
        return self.get_boundary_xy()

    def draw_obstacle(self, n_points=100, **kwargs):
        return None

    def create_shape(self):
        self._shape = Polygon(self.get_boundary_xy(n_points=200).T)
        return self._shape

    @property
    def shape(self):
        if self._shape is None:
            self.create_shape()
        return self._shape

    @shape.setter
    def shape(self, value):
        self._shape = value

    def get_shapely(self, *args, **kwargs):
        return self.create_shape()

    def get_scaled_shapely(self, *args, **kwargs):
        return self.create_shape()

    def update_pose(self, new_pose):
        self.pose = new_pose

    def update_position(self, delta_time=None, **kwargs):
        self.pose.update(delta_time, self.twist)

    def do_velocity_step(self, delta_time):
        self.pose.update(delta_time, self.twist)


class _EllipseBase(Obstacle):
    """Common part of both (they are unrelated by inheritance, as in the original)."""

    def __init__(self, axes_length, center_position=None, pose=None, **kwargs):
        axes = np.array(axes_length, dtype=float)
        if center_position is None and pose is None and "position" not in kwargs:
            center_position = np.zeros(axes.shape[0])
        super().__init__(center_position=center_position, pose=pose, **kwargs)
        self._axes = axes

    @property
    def axes_length(self):
        return self._axes

    @axes_length.setter
    def axes_length(self, value):
        self._axes = np.array(value, dtype=float)

    @property
    def _half(self):
        return self._axes

    @property
    def semiaxes(self):
        return self._half

    @property
    def semiaxes_with_magin(self):
        return self._half + self.margin_absolut

    semiaxes_with_margin = semiaxes_with_magin

    @property
    def axes_with_margin(self):
        return self._axes + (self.semiaxes_with_magin - self._half) * (self._axes / self._half)

    def get_characteristic_length(self):
        return float(np.prod(self.semiaxes_with_magin) ** (1.0 / self.dimension))

    def get_maximal_distance(self):
        return float(max(self.semiaxes_with_magin))

    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        norm = LA.norm(position)
        if not norm:
            return float(self.semiaxes_with_magin[0])
        direction = np.asarray(position, dtype=float) / norm
        return float(1.0 / LA.norm(direction / self.semiaxes_with_magin))

    def _local_normal(self, local):
        # normal of the surface point on the same ray
        normal = local / self.semiaxes_with_magin**2
        norm = LA.norm(normal)
        if not norm:
            return np.eye(self.dimension)[:, 0]
        return normal / norm

    def _local_ray_crossing(self, start, direction):
        ax = self.semiaxes_with_magin
        pp, dd = start / ax, direction / ax
        a, b, c = dd @ dd, 2 * pp @ dd, pp @ pp - 1
        disc = b * b - 4 * a * c
        if disc < 0:
            return None
        for sign in (-1, 1):
            tt = (-b + sign * math.sqrt(disc)) / (2 * a)
            if tt >= -1e-9:
                return start + tt * direction
        return None

    def create_shape(self):
        ax = self.semiaxes_with_magin
        shape = affinity.scale(Point(0, 0).buffer(1), ax[0], ax[1])
        shape = affinity.rotate(shape, (self.orientation or 0.0) * 180 / math.pi, origin=(0, 0))
        self._shape = affinity.translate(shape, *self.center_position)
        return self._shape

    def __deepcopy__(self, memo):
        new = type(self).__new__(type(self))
        memo[id(self)] = new
        for key, val in self.__dict__.items():
            new.__dict__[key] = copy.deepcopy(val, memo)
        return new


class Ellipse(_EllipseBase):
    """axes_length: HALF axes."""


class EllipseWithAxes(_EllipseBase):
    """axes_length: FULL axes."""

    @property
    def _half(self):
        return self._axes * 0.5


class CuboidXd(Obstacle):
    """axes_length: FULL edge lengths; the margin rounds nothing (a larger box)."""

    def __init__(self, axes_length, center_position=None, pose=None, **kwargs):
        axes = np.array(axes_length, dtype=float)
        if center_position is None and pose is None and "position" not in kwargs:
            center_position = np.zeros(axes.shape[0])
        super().__init__(center_position=center_position, pose=pose, **kwargs)
        self._axes = axes

    @property
    def axes_length(self):
        return self._axes

    @axes_length.setter
    def axes_length(self, value):
        self._axes = np.array(value, dtype=float)

    @property
    def semiaxes(self):
        return self._axes * 0.5

    @property
    def semiaxes_with_magin(self):
        return self._axes * 0.5 + self.margin_absolut

    @property
    def axes_with_margin(self):
        return self._axes + 2 * self.margin_absolut

    def get_characteristic_length(self):
        return float(np.prod(self.semiaxes_with_magin) ** (1.0 / self.dimension))

    def get_maximal_distance(self):
        return float(LA.norm(self.semiaxes_with_magin))

    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        norm = LA.norm(position)
        if not norm:
            return float(self.semiaxes_with_magin[0])
        direction = np.abs(np.asarray(position, dtype=float)) / norm
        return float(1.0 / np.max(direction / self.semiaxes_with_magin))

    def _local_distance_to_surface(self, local):
        delta = np.abs(local) - self.semiaxes_with_magin
        if np.any(delta > 0):
            return LA.norm(np.maximum(delta, 0))
        return np.max(delta)

    def _local_normal(self, local):
        """Blend of the faces' normals close to edges (continuous)."""
        half = self.semiaxes_with_magin
        ratio = np.abs(local) / half
        top = np.max(ratio)
        if not top:
            return np.eye(self.dimension)[:, 0]
        dist = np.maximum(np.abs(local) - half, 0)
        if LA.norm(dist) > 1e-9 and np.sum(dist > 0) > 1:
            normal = dist * np.sign(local)
        else:
            normal = np.zeros(self.dimension)
            ii = int(np.argmax(ratio))
            normal[ii] = np.sign(local[ii])
        return normal / LA.norm(normal)

    def _local_ray_crossing(self, start, direction):
        half = self.semiaxes_with_magin
        tmax = math.inf
        tmin = -math.inf
        for ii in range(self.dimension):
            if abs(direction[ii]) < 1e-14:
                if abs(start[ii]) > half[ii]:
                    return None
                continue
            t1 = (-half[ii] - start[ii]) / direction[ii]
            t2 = (half[ii] - start[ii]) / direction[ii]
            tmin = max(tmin, min(t1, t2))
            tmax = min(tmax, max(t1, t2))
        if tmin > tmax or tmax < -1e-9:
            return None
        return start + (tmin if tmin >= -1e-9 else tmax) * direction

    def get_boundary_xy(self, n_points=100, in_global_frame=True):
        half = self.semiaxes_with_magin
        pts = np.array([[-1, 1, 1, -1, -1], [-1, -1, 1, 1, -1]]) * half[:, None]
        if in_global_frame:
            pts = self.pose.transform_positions_from_relative(pts)
        return pts

    get_boundary_with_margin_xy = get_boundary_xy

    def create_shape(self):
        self._shape = Polygon(self.get_boundary_xy().T)
        return self._shape

    __deepcopy__ = _EllipseBase.__deepcopy__


Cuboid = CuboidXd


class StarshapedFlower(Obstacle):
    def __init__(self, radius_magnitude=1, radius_mean=2, number_of_edges=4, center_position=None,
                 pose=None, **kwargs):
        super().__init__(center_position=center_position, pose=pose, **kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    def _radius(self, angle):
        return (self.radius_mean + self.radius_magnitude * math.cos(angle * self.number_of_edges)
                + self.margin_absolut)

    def get_characteristic_length(self):
        return self.radius_mean + self.margin_absolut

    def get_maximal_distance(self):
        return self.radius_mean + self.radius_magnitude + self.margin_absolut

    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return self._radius(math.atan2(position[1], position[0]))

    def _local_normal(self, local):
        ang = math.atan2(local[1], local[0])
        rad = self._radius(ang)
        drad = -self.radius_magnitude * self.number_of_edges * math.sin(ang * self.number_of_edges)
        # tangent of r(phi) e_r
        tangent = np.array([drad * math.cos(ang) - rad * math.sin(ang),
                            drad * math.sin(ang) + rad * math.cos(ang)])
        normal = np.array([tangent[1], -tangent[0]])
        return normal / LA.norm(normal)

    def _local_ray_crossing(self, start, direction):
        tt = np.linspace(0, 4 * self.get_maximal_distance(), 4000)
        inside = np.array([self.is_inside(start + t * direction) for t in tt])
        ind = np.where(inside[1:] != inside[:-1])[0]
        if not len(ind):
            return None
        low, high = tt[ind[0]], tt[ind[0] + 1]
        for _ in range(50):
            mid = 0.5 * (low + high)
            if self.is_inside(start + mid * direction) == inside[ind[0]]:
                low = mid
            else:
                high = mid
        return start + high * direction

    __deepcopy__ = _EllipseBase.__deepcopy__
