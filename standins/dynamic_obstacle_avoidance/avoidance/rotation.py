def obstacle_avoidance_rotational(*args, **kwargs):
    raise NotImplementedError()
