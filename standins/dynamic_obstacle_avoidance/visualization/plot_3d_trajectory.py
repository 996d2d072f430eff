def plot_3d_trajectory(*a, **k):
    return None


def plot_obstacles_3d(*a, **k):
    return None
