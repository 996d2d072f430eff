from __future__ import annotations
import copy


class BaseContainer:
    """List-like holder of obstacles."""

    def __init__(self, obs_list=None):
        if isinstance(obs_list, BaseContainer):
            obs_list = obs_list._obstacle_list
        self._obstacle_list = list(obs_list) if obs_list is not None else []

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __iter__(self):
        return iter(self._obstacle_list)

    def __len__(self):
        return len(self._obstacle_list)

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def list(self):
        return self._obstacle_list

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension if self._obstacle_list else None

    def empty(self):
        self._obstacle_list = []

    def copy(self):
        return copy.copy(self)

    def is_collision_free(self, position):
        for obs in self._obstacle_list:
            if obs.get_gamma(position, in_global_frame=True) < 1:
                return False
        return True

    def check_collision(self, position):
        return not self.is_collision_free(position)

    def check_collision_array(self, positions):
        return [self.check_collision(positions[:, ii]) for ii in range(positions.shape[1])]

    def get_minimum_gamma(self, position):
        return min(obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list)

    def do_velocity_step(self, delta_time):
        for obs in self._obstacle_list:
            obs.do_velocity_step(delta_time)


class ObstacleContainer(BaseContainer):
    pass


class SphereContainer(BaseContainer):
    pass


class MultiBoundaryContainer(BaseContainer):
    pass
