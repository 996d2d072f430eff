from abc import ABC, abstractmethod
import numpy as np
from numpy import linalg as LA
from vartools.states import Pose, ObjectPose


class DynamicalSystem(ABC):
    """Base class; keeps pose / attractor / maximum velocity and the dimension."""

    def __init__(self, pose=None, maximum_velocity=None, dimension=None,
                 attractor_position=None, base_frame=None, **kwargs):
        if pose is not None:
            dimension = pose.position.shape[0]
        elif attractor_position is not None:
            dimension = np.asarray(attractor_position).shape[0]
        elif dimension is None:
            dimension = 2
        if pose is None:
            pose = ObjectPose(position=np.zeros(dimension))
        self.pose = pose
        self.dimension = dimension
        self.maximum_velocity = maximum_velocity
        self.attractor_position = (
            None if attractor_position is None else np.array(attractor_position, dtype=float))

    @property
    def attractor(self):
        return self.attractor_position

    @property
    def center_position(self):
        return self.pose.position

    def limit_velocity(self, velocity, maximum_velocity=None):
        if maximum_velocity is None:
            maximum_velocity = self.maximum_velocity
        if maximum_velocity is None:
            return velocity
        mag = LA.norm(velocity)
        if mag > maximum_velocity:
            velocity = velocity / mag * maximum_velocity
        return velocity

    _limit_velocity = limit_velocity

    @abstractmethod
    def evaluate(self, position):
        pass

    def compute_dynamics(self, position):
        return self.evaluate(position)

    def check_convergence(self, *args, **kwargs):
        return False

    def evaluate_array(self, positions):
        return np.array([self.evaluate(p) for p in positions.T]).T

    def motion_integration(self, start_position, dt=0.1, max_iteration=1000):
        traj = [np.array(start_position, dtype=float)]
        for _ in range(max_iteration):
            traj.append(traj[-1] + dt * self.evaluate(traj[-1]))
        return np.array(traj).T
