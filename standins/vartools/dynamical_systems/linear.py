import numpy as np
from numpy import linalg as LA
from vartools.dynamical_systems._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    def __init__(self, attractor_position=None, A_matrix=None, maximum_velocity=None,
                 dimension=None, distance_decrease=None, **kwargs):
        if attractor_position is None:
            attractor_position = np.zeros(dimension if dimension is not None else 2)
        super().__init__(attractor_position=attractor_position,
                         maximum_velocity=maximum_velocity, **kwargs)
        self.A_matrix = -np.eye(self.dimension) if A_matrix is None else np.asarray(A_matrix)
        self.distance_decrease = distance_decrease

    def evaluate(self, position, maximum_velocity=None):
        velocity = self.A_matrix @ (np.asarray(position, dtype=float) - self.attractor_position)
        velocity = self.limit_velocity(velocity, maximum_velocity)
        if self.distance_decrease is not None and self.maximum_velocity is not None:
            dist = LA.norm(position - self.attractor_position)
            norm = LA.norm(velocity)
            if norm:
                mag = self.maximum_velocity * min(dist / self.distance_decrease, 1.0)
                velocity = velocity / norm * mag
        return velocity

    def evaluate_magnitude(self, position):
        return LA.norm(self.evaluate(position))

    def is_stable(self, position):
        return True


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity, **kwargs):
        velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=velocity.shape[0], **kwargs)
        self.constant_velocity = velocity
        del self.attractor_position  # has no attractor

    @property
    def attractor(self):
        return None

    def evaluate(self, *args, **kwargs):
        return np.copy(self.constant_velocity)


class LocallyRotated(DynamicalSystem):
    """Linear system whose direction is rotated near the influence pose."""

    def __init__(self, max_rotation=None, mean_rotation=None, influence_pose=None,
                 influence_radius=1, influence_axes_length=None, delta_influence_center=0.1,
                 attractor_position=None, maximum_velocity=None, dimension=None, **kwargs):
        super().__init__(attractor_position=attractor_position, dimension=dimension,
                         maximum_velocity=maximum_velocity)
        self.max_rotation = np.atleast_1d(max_rotation if max_rotation is not None else mean_rotation)
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius

    def evaluate(self, position):
        from vartools.directional_space import get_angle_space_inverse
        delta = self.attractor_position - position
        if not LA.norm(delta):
            return np.zeros_like(delta)
        dist = LA.norm(position - self.influence_pose.position)
        dist_at = LA.norm(self.attractor_position - self.influence_pose.position)
        w = max(0.0, 1.0 - max(dist - self.influence_radius, 0.0) / max(dist_at, 1e-9))
        out = get_angle_space_inverse(w * self.max_rotation, null_direction=delta)
        return self.limit_velocity(out * LA.norm(delta))
