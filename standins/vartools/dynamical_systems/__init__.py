import numpy as np
from numpy import linalg as LA
from ._base import DynamicalSystem
from .linear import LinearSystem, ConstantValue, LocallyRotated


class CircularStable(DynamicalSystem):
    """Limit cycle of given radius around the center."""

    def __init__(self, radius=1.0, constant_velocity=1.0, maximum_velocity=1.0, direction=1,
                 factor_controler=1.0, main_axis=0, outside_approaching_factor=1.0,
                 inside_approaching_factor=1.0, center_position=None, **kwargs):
        super().__init__(maximum_velocity=maximum_velocity, **kwargs)
        self.radius = radius
        self.direction = direction
        self.constant_velocity = constant_velocity
        self.factor_controler = factor_controler

    def evaluate(self, position):
        rel = self.pose.transform_position_to_relative(position)
        r = LA.norm(rel)
        if not r:
            return np.zeros_like(rel)
        tang = np.array([-rel[1], rel[0]]) / r * np.copysign(1, self.direction)
        radial = -rel / r * (r - self.radius) * self.factor_controler
        vel = tang + radial
        vel = vel / LA.norm(vel) * self.constant_velocity
        return self.pose.transform_direction_from_relative(self.limit_velocity(vel))


class QuadraticAxisConvergence(DynamicalSystem):
    def __init__(self, stretching_factor=1, main_axis=0, conv_pow=2, **kwargs):
        super().__init__(**kwargs)
        self.main_axis = main_axis
        self.stretching_factor = stretching_factor
        self.conv_pow = conv_pow

    def evaluate(self, position):
        rel = np.asarray(position, dtype=float) - self.attractor_position
        vel = -np.sign(rel) * np.abs(rel) ** self.conv_pow * self.stretching_factor
        vel[self.main_axis] = -rel[self.main_axis]
        return self.limit_velocity(vel)


class AxesFollowingDynamics(DynamicalSystem):
    def __init__(self, center_position=None, main_direction=None, **kwargs):
        super().__init__(dimension=np.asarray(main_direction).shape[0], **kwargs)
        self.main_direction = np.asarray(main_direction, dtype=float)

    def evaluate(self, position):
        return self.main_direction


class WavyRotatedDynamics(DynamicalSystem):
    """Position dependent rotation of the direction to the attractor."""

    def __init__(self, pose=None, rotation_frequency=1, rotation_power=1,
                 max_rotation=0.3 * np.pi, attractor_position=None, **kwargs):
        if attractor_position is None:
            attractor_position = pose.position
        super().__init__(pose=pose, attractor_position=attractor_position, **kwargs)
        self.rotation_frequency = rotation_frequency
        self.rotation_power = rotation_power
        self.max_rotation = max_rotation

    def evaluate(self, position):
        rel = self.pose.transform_position_to_relative(position)
        d = LA.norm(rel)
        if not d:
            return np.zeros_like(rel)
        a = min(max(np.sin(d * self.rotation_frequency) * d ** self.rotation_power,
                    -self.max_rotation), self.max_rotation)
        c, s = np.cos(a), np.sin(a)
        vel = np.array([[c, -s], [s, c]]) @ (-rel)
        return self.pose.transform_direction_from_relative(self.limit_velocity(vel))


def plot_dynamical_system(*a, **k):
    return None, None


plot_dynamical_system_quiver = plot_dynamical_system_streamplot = plot_dynamical_system
