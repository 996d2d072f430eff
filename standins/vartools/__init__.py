"""Stand-in for github.com/hubernikus/various_tools (see /verif/standins/README.md)."""
import numpy as np


def cross2d(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
