import numpy as np


class MotionDataHandler:
    """Rows are samples; `velocity`, `attractor`, `sequence_value` are set by the user."""

    def __init__(self, position=None, velocity=None, attractor=None, sequence_value=None, **k):
        self.position = None if position is None else np.array(position, dtype=float)
        self.velocity = velocity
        self.attractor = attractor
        self.sequence_value = sequence_value

    @property
    def attractor_position(self):
        return self.attractor

    @property
    def X(self):
        return np.hstack((self.position, self.velocity, np.reshape(self.sequence_value, (-1, 1))))

    @property
    def dimension(self):
        return self.position.shape[1]

    @property
    def n_samples(self):
        return self.position.shape[0]


class HandwrittingHandler(MotionDataHandler):
    def __init__(self, *a, **k):
        raise FileNotFoundError("handwriting data set not available")


HandwrittingDataHandler = HandwrittingHandler
