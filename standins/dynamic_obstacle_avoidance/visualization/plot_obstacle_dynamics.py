"""Plotting is no subject here: every function does nothing."""


def plot_obstacles(*args, **kwargs):
    return None


def plot_obstacle_dynamics(*args, **kwargs):
    return None


def Simulation_vectorFields(*args, **kwargs):
    return None


def plot_obstacle_dynamics_func(*args, **kwargs):
    return None
