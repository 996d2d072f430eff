"""Shared alphabets and independent oracles."""
from __future__ import annotations

import itertools
import math

import numpy as np
from scipy.spatial.transform import Rotation


def rot2(angle):
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, -s], [s, c]])


def unit(vec):
    vec = np.asarray(vec, dtype=float)
    return vec / np.linalg.norm(vec)


def circle(n, offset=0.0):
    return [np.array([math.cos(2 * math.pi * k / n + offset),
                      math.sin(2 * math.pi * k / n + offset)]) for k in range(n)]


def sphere26():
    """All 26 lattice directions of {-1, 0, 1}^3."""
    return [unit(vv) for vv in itertools.product((-1, 0, 1), repeat=3) if any(vv)]


def lattice_directions(dim, values=(-1, 0, 1)):
    return [unit(vv) for vv in itertools.product(values, repeat=dim) if any(vv)]


def angle_between(v1, v2):
    """Numerically stable angle."""
    v1, v2 = unit(v1), unit(v2)
    return 2 * math.atan2(np.linalg.norm(v1 - v2), np.linalg.norm(v1 + v2))


def make_orientation(dim, ori):
    """JSON description -> orientation of a Pose (2D: angle, 3D: rotation vector)."""
    if dim == 2:
        return float(ori)
    return Rotation.from_rotvec(np.array(ori, dtype=float))


def matrix_of(dim, ori):
    if dim == 2:
        return rot2(float(ori))
    return Rotation.from_rotvec(np.array(ori, dtype=float)).as_matrix()


def make_pose(position, ori):
    from vartools.states import Pose
    position = np.array(position, dtype=float)
    return Pose(position, make_orientation(position.shape[0], ori))


def pose_matrix(pose):
    """Independent of Pose's own transform functions."""
    ori = pose.orientation
    dim = pose.position.shape[0]
    if isinstance(ori, Rotation):
        return ori.as_matrix()
    if dim == 2:
        return rot2(float(ori or 0.0))
    return np.eye(dim)


def slerp(v0, v1, tt):
    v0, v1 = unit(v0), unit(v1)
    ang = angle_between(v0, v1)
    if ang < 1e-12:
        return v0
    return (math.sin((1 - tt) * ang) * v0 + math.sin(tt * ang) * v1) / math.sin(ang)


def integer_compositions(total, parts):
    """All tuples of `parts` non-negative integers with the given sum."""
    if parts == 1:
        yield (total,)
        return
    for first in range(total + 1):
        for rest in integer_compositions(total - first, parts - 1):
            yield (first,) + rest
