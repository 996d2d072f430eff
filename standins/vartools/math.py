from enum import Enum, auto
import numpy as np
from numpy import linalg as LA


class IntersectionType(Enum):
    CLOSE = auto()
    FAR = auto()
    BOTH = auto()


CircleIntersectionType = IntersectionType


def get_intersection_with_circle(
    start_position, direction, radius, only_positive=True,
    start_at_zero=None, intersection_type=None,
):
    """Intersection(s) of the line  start + t * direction  with the origin-centered circle.

    only_positive=True (default) / FAR -> the one with the largest t;
    CLOSE -> the one with the smallest t; BOTH / only_positive=False -> array (dim, 2).
    Returns None if the line misses the circle."""
    start_position = np.asarray(start_position, dtype=float)
    direction = np.asarray(direction, dtype=float)
    aa = direction @ direction
    if not aa:
        raise ValueError("Zero direction.")
    bb = 2.0 * (direction @ start_position)
    cc = start_position @ start_position - radius**2
    disc = bb**2 - 4 * aa * cc
    if disc < 0:
        if disc > -1e-12 * max(bb**2, abs(4 * aa * cc), 1e-300):
            disc = 0.0
        else:
            return None
    root = np.sqrt(disc)
    near = start_position + direction * ((-bb - root) / (2 * aa))
    far = start_position + direction * ((-bb + root) / (2 * aa))
    if intersection_type is None:
        intersection_type = IntersectionType.FAR if only_positive else IntersectionType.BOTH
    if intersection_type == IntersectionType.FAR:
        return far
    if intersection_type == IntersectionType.CLOSE:
        return near
    return np.vstack((near, far)).T


def get_intersection_between_line_and_plane(
    line_position, line_direction, plane_position, plane_normal, positive_only=False,
    normalize=False
):
    """Point where the line meets the plane; None if (nearly) parallel (or behind the start)."""
    denom = np.dot(line_direction, plane_normal)
    if np.isclose(denom, 0.0, atol=1e-12):
        return None
    fac = np.dot(np.asarray(plane_position) - line_position, plane_normal) / denom
    if positive_only and fac < 0:
        return None
    return np.asarray(line_position) + fac * np.asarray(line_direction)
