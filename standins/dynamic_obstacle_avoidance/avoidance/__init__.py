"""BaseAvoider and the dynamic modulation (Huber et al. 2019/2022), single formula."""
from __future__ import annotations
import numpy as np
from numpy import linalg as LA
from vartools.linalg import get_orthogonal_basis
from vartools.directional_space import get_directional_weighted_sum
from dynamic_obstacle_avoidance.utils import compute_weights, get_relative_obstacle_velocity


class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment

    def evaluate(self, position):
        return self.avoid(position, self.initial_dynamics.evaluate(position))

    evaluate_normalized = evaluate

    def avoid(self, position, initial_velocity):
        raise NotImplementedError()


def obs_avoidance_interpolation_moving(position, initial_velocity, obs=(), **kwargs):
    if not len(obs):
        return initial_velocity
    gammas = np.array([max(oo.get_gamma(position, in_global_frame=True), 1.0) for oo in obs])
    weights = compute_weights(gammas)
    relative = get_relative_obstacle_velocity(position, obs, weights=weights, gamma_list=gammas)
    velocity = np.asarray(initial_velocity, dtype=float) - relative
    norm = LA.norm(velocity)
    if not norm:
        return velocity + relative
    outs = np.zeros((velocity.shape[0], len(obs)))
    for ii, oo in enumerate(obs):
        normal = oo.get_normal_direction(position, in_global_frame=True)
        ref = oo.get_reference_direction(position, in_global_frame=True)
        base = get_orthogonal_basis(normal)
        dec = np.copy(base)
        dec[:, 0] = ref
        eig = np.ones(velocity.shape[0]) * (1 + 1 / gammas[ii])
        eig[0] = 1 - 1 / gammas[ii]
        outs[:, ii] = dec @ np.diag(eig) @ LA.pinv(dec) @ velocity
    mags = LA.norm(outs, axis=0)
    direction = get_directional_weighted_sum(velocity, weights, outs)
    return direction * (weights @ mags) + relative


class ModulationAvoider(BaseAvoider):
    def avoid(self, position, initial_velocity):
        return obs_avoidance_interpolation_moving(
            position, initial_velocity, self.obstacle_environment)
