from __future__ import annotations
import numpy as np


def compute_weights(distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2):
    """Normalized inverse-distance weights; all weight on the (equally shared) critical ones."""
    dist = np.array(distMeas, dtype=float)
    if not dist.size:
        return dist
    critical = dist <= distMeas_lowerLimit
    if np.any(critical):
        return critical / np.sum(critical)
    weights = (1.0 / (dist - distMeas_lowerLimit)) ** weightPow
    if not np.sum(weights):
        return weights
    if np.any(np.isinf(weights)):
        inf = np.isinf(weights)
        return inf / np.sum(inf)
    return weights / np.sum(weights)


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0, gamma_max=None):
    gamma_array = np.asarray(gamma_array, dtype=float)
    weight = np.ones(gamma_array.shape)
    ind = gamma_array > 1
    weight[ind] = 1.0 / gamma_array[ind] ** power_value
    return weight


def get_relative_obstacle_velocity(position, obstacle_list, E_orth=None, weights=None,
                                   ind_obstacles=None, gamma_list=None, **kwargs):
    """Velocity of the surrounding: weighted surface velocity of the obstacles (fades with gamma)."""
    position = np.asarray(position, dtype=float)
    if ind_obstacles is None:
        ind_obstacles = np.ones(len(obstacle_list), dtype=bool)
    result = np.zeros(position.shape)
    for it, it_obs in enumerate(np.arange(len(obstacle_list))[ind_obstacles]):
        obs = obstacle_list[it_obs]
        velocity = np.zeros(position.shape)
        if obs.linear_velocity is not None:
            velocity = velocity + obs.linear_velocity
        ang = obs.angular_velocity
        if ang is not None and np.any(ang):
            rel = position - obs.center_position
            if position.shape[0] == 2:
                velocity = velocity + ang * np.array([-rel[1], rel[0]])
            else:
                velocity = velocity + np.cross(ang, rel)
        fade = np.exp(-(max(gamma_list[it], 1.0) - 1.0) / getattr(obs, "sigma", 1.0))
        result = result + weights[it] * fade * velocity
    return result
