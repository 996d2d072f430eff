import numpy as np


class PositionFilter:
    """Pass-through tracking filter (position measurement = state)."""

    def __init__(self, update_frequency=None, initial_position=None, **k):
        self.position = np.array(initial_position, dtype=float)
        self.velocity = np.zeros_like(self.position)

    def run_once(self, position):
        self.position = np.array(position, dtype=float)
        return self.position


class SimpleOrientationFilter:
    def __init__(self, update_frequency=None, initial_orientation=None, **k):
        self.rotation = initial_orientation
        self.orientation = initial_orientation
        self.angular_velocity = np.zeros(3)

    def run_once(self, rotation):
        self.rotation = rotation
        self.orientation = rotation
        return rotation
