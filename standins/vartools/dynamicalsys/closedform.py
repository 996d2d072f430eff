def evaluate_linear_dynamical_system(position, **kwargs):
    return -position
