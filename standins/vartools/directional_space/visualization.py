def circular_space_setup(*a, **k):
    return None
