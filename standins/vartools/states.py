from __future__ import annotations
import copy
from dataclasses import dataclass
from typing import Optional
import numpy as np
from scipy.spatial.transform import Rotation


class Pose:
    """Position + orientation; 2D orientation is a float (rad), 3D a scipy Rotation (or None)."""

    def __init__(self, position, orientation=None):
        self.position = np.array(position, dtype=float)
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        if dimension == 2:
            return cls(np.zeros(2), 0.0)
        if dimension == 3:
            return cls(np.zeros(3), Rotation.identity())
        return cls(np.zeros(dimension))

    def __deepcopy__(self, memo):
        return type(self)(np.copy(self.position), copy.copy(self.orientation)
                          if not isinstance(self.orientation, Rotation)
                          else Rotation.from_quat(self.orientation.as_quat()))

    def __eq__(self, other):
        return self is other

    __hash__ = None

    def __repr__(self):
        return f"Pose({self.position}, {self.orientation})"

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        ori = self.orientation
        if ori is None:
            return np.eye(self.dimension)
        if isinstance(ori, Rotation):
            return ori.as_matrix()
        if self.dimension == 2:
            c, s = np.cos(ori), np.sin(ori)
            return np.array([[c, -s], [s, c]])
        if np.isscalar(ori):
            if ori == 0:
                return np.eye(self.dimension)
            raise ValueError("scalar orientation in dimension > 2")
        return np.asarray(ori)

    # directions
    def transform_direction_from_relative(self, direction):
        return self.rotation_matrix @ np.asarray(direction, dtype=float)

    def transform_direction_to_relative(self, direction):
        return self.rotation_matrix.T @ np.asarray(direction, dtype=float)

    def transform_directions_from_relative(self, directions):
        return self.rotation_matrix @ directions

    def transform_directions_to_relative(self, directions):
        return self.rotation_matrix.T @ directions

    # positions
    def transform_position_from_relative(self, position):
        return self.rotation_matrix @ np.asarray(position, dtype=float) + self.position

    def transform_position_to_relative(self, position):
        return self.rotation_matrix.T @ (np.asarray(position, dtype=float) - self.position)

    def transform_positions_from_relative(self, positions):
        return self.rotation_matrix @ positions + self.position[:, None]

    def transform_positions_to_relative(self, positions):
        return self.rotation_matrix.T @ (positions - self.position[:, None])

    # orientations
    def transform_orientation_from_relative(self, orientation):
        if self.dimension == 2:
            return (self.orientation or 0.0) + orientation
        own = self.orientation if isinstance(self.orientation, Rotation) else Rotation.identity()
        return own * orientation

    def transform_orientation_to_relative(self, orientation):
        if self.dimension == 2:
            return orientation - (self.orientation or 0.0)
        own = self.orientation if isinstance(self.orientation, Rotation) else Rotation.identity()
        return own.inv() * orientation

    # poses
    def transform_pose_from_relative(self, pose):
        if not isinstance(pose, Pose):
            raise TypeError("expected a Pose")
        new = type(pose)(self.transform_position_from_relative(pose.position), None)
        if self.dimension == 2:
            new.orientation = (self.orientation or 0.0) + (pose.orientation or 0.0)
        else:
            r1 = self.orientation if isinstance(self.orientation, Rotation) else Rotation.identity()
            r2 = pose.orientation if isinstance(pose.orientation, Rotation) else Rotation.identity()
            new.orientation = r1 * r2
        return new

    def transform_pose_to_relative(self, pose):
        if not isinstance(pose, Pose):
            raise TypeError("expected a Pose")
        new = type(pose)(self.transform_position_to_relative(pose.position), None)
        if self.dimension == 2:
            new.orientation = (pose.orientation or 0.0) - (self.orientation or 0.0)
        else:
            r1 = self.orientation if isinstance(self.orientation, Rotation) else Rotation.identity()
            r2 = pose.orientation if isinstance(pose.orientation, Rotation) else Rotation.identity()
            new.orientation = r1.inv() * r2
        return new

    def update(self, delta_time, twist):
        self.position = self.position + delta_time * twist.linear
        if twist.angular is not None and self.dimension == 2:
            self.orientation = (self.orientation or 0.0) + delta_time * twist.angular


class ObjectPose(Pose):
    pass


@dataclass
class Twist:
    linear: np.ndarray
    angular: Optional[float | np.ndarray] = None

    @property
    def dimension(self):
        return np.asarray(self.linear).shape[0]

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else np.zeros(3))


class ObjectTwist(Twist):
    pass
