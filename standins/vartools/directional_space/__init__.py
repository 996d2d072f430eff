"""Directional space: a unit vector v, seen from a base with first axis b0, is the (d-1)-vector
 angle(v, b0) * (component of v orthogonal to b0, normalized)."""
import math
import warnings
import numpy as np
from numpy import linalg as LA
from vartools.linalg import get_orthogonal_basis


def get_angle_from_vector(direction, base):
    base = getattr(base, "matrix", base)
    direction = np.asarray(direction, dtype=float)
    norm = LA.norm(direction)
    if not norm:
        raise ValueError("Zero direction.")
    local = base.T @ (direction / norm)
    angle = np.zeros(local.shape[0] - 1)
    rest = LA.norm(local[1:])
    theta = math.atan2(rest, local[0])
    if rest > 1e-16:
        return local[1:] / rest * theta
    if local[0] < 0:
        angle[0] = math.pi
    return angle


def get_vector_from_angle(angle, base):
    base = getattr(base, "matrix", base)
    angle = np.atleast_1d(np.asarray(angle, dtype=float))
    theta = LA.norm(angle)
    local = np.zeros(angle.shape[0] + 1)
    local[0] = math.cos(theta)
    if theta:
        local[1:] = math.sin(theta) * angle / theta
    return base @ local


def _null_base(null_direction=None, null_matrix=None, OrthogonalBasisMatrix=None):
    if null_matrix is None:
        null_matrix = OrthogonalBasisMatrix
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return null_matrix


def get_angle_space(direction, null_direction=None, null_matrix=None, normalize=None,
                    OrthogonalBasisMatrix=None):
    base = _null_base(null_direction, null_matrix, OrthogonalBasisMatrix)
    if not LA.norm(direction):
        return np.zeros(np.asarray(direction).shape[0] - 1)
    return get_angle_from_vector(direction, base)


def get_angle_space_inverse(dir_angle_space, null_direction=None, null_matrix=None,
                            NullMatrix=None):
    base = _null_base(null_direction, null_matrix, NullMatrix)
    return get_vector_from_angle(dir_angle_space, base)




def _default_velocity(func_vel, func_vel_default, default_system):
    for candidate in (func_vel, func_vel_default, default_system):
        if candidate is not None:
            return getattr(candidate, "evaluate", candidate)
    return None


def get_angle_space_of_array(directions, positions=None, func_vel=None, null_direction=None,
                             null_direction_abs=None, null_matrix=None, OrthogonalBasisMatrix=None,
                             func_vel_default=None, default_system=None):
    func_vel = _default_velocity(func_vel, func_vel_default, default_system)
    directions = np.asarray(directions, dtype=float)
    if directions.ndim == 1:
        directions = directions[:, None]
    out = np.zeros((directions.shape[0] - 1, directions.shape[1]))
    nd = null_direction if null_direction is not None else null_direction_abs
    for ii in range(directions.shape[1]):
        if func_vel is not None:
            null = func_vel(positions[:, ii])
            base = get_orthogonal_basis(null)
        elif nd is not None:
            base = get_orthogonal_basis(nd if nd.ndim == 1 else nd[:, ii])
        else:
            base = _null_base(null_matrix=null_matrix, OrthogonalBasisMatrix=OrthogonalBasisMatrix)
        if LA.norm(directions[:, ii]):
            out[:, ii] = get_angle_from_vector(directions[:, ii], base)
    return out


def get_angle_space_inverse_of_array(vecs_angle_space, positions=None, func_vel=None,
                                     null_direction=None, null_direction_abs=None, null_matrix=None,
                                     func_vel_default=None, default_system=None):
    func_vel = _default_velocity(func_vel, func_vel_default, default_system)
    vecs = np.asarray(vecs_angle_space, dtype=float)
    if vecs.ndim == 1:
        vecs = vecs[None, :]
    out = np.zeros((vecs.shape[0] + 1, vecs.shape[1]))
    nd = null_direction if null_direction is not None else null_direction_abs
    for ii in range(vecs.shape[1]):
        if func_vel is not None:
            base = get_orthogonal_basis(func_vel(positions[:, ii]))
        elif nd is not None:
            base = get_orthogonal_basis(nd if nd.ndim == 1 else nd[:, ii])
        else:
            base = _null_base(null_matrix=null_matrix)
        out[:, ii] = get_vector_from_angle(vecs[:, ii], base)
    return out


def get_directional_weighted_sum(null_direction, weights, directions, total_weight=1,
                                 normalize=True, normalize_reference=True):
    """Weighted mean of the directions, in the direction space of null_direction."""
    directions = np.asarray(directions, dtype=float)
    weights = np.asarray(weights, dtype=float)
    norms = LA.norm(directions, axis=0)
    ind = np.logical_and(weights > 0, norms > 0)
    null_direction = np.asarray(null_direction, dtype=float)
    if not LA.norm(null_direction):
        raise ValueError("Zero null direction.")
    if not np.any(ind):
        return null_direction / LA.norm(null_direction)
    base = get_orthogonal_basis(null_direction)
    if total_weight < 1:
        weights = weights * total_weight
    angle = np.zeros(directions.shape[0] - 1)
    for ii in np.arange(len(weights))[ind]:
        angle = angle + weights[ii] * get_angle_from_vector(directions[:, ii], base)
    return get_vector_from_angle(angle, base)


def get_directional_weighted_sum_from_unit_directions(base, weights, unit_directions):
    angle = sum(ww * dd.as_angle() for ww, dd in zip(weights, unit_directions))
    return UnitDirection(base).from_angle(angle)


class DirectionBase:
    def __init__(self, matrix=None, vector=None, direction=None):
        if matrix is None:
            matrix = get_orthogonal_basis(vector if vector is not None else direction)
        self.matrix = np.asarray(matrix, dtype=float)

    def __eq__(self, other):
        return isinstance(other, DirectionBase) and np.allclose(self.matrix, other.matrix)

    @property
    def dimension(self):
        return self.matrix.shape[0]

    def __getitem__(self, key):
        return self.matrix[key]


class UnitDirection:
    """A direction expressed in a base, stored as its direction-space angle."""

    def __init__(self, base):
        self._base = base if isinstance(base, DirectionBase) else DirectionBase(matrix=base)
        self._angle = np.zeros(self._base.dimension - 1)

    @property
    def base(self):
        return self._base

    @property
    def null_direction(self):
        return self._base.matrix[:, 0]

    def from_angle(self, value):
        self._angle = np.atleast_1d(np.array(value, dtype=float))
        return self

    def from_vector(self, value):
        self._angle = get_angle_from_vector(value, self._base.matrix)
        return self

    def as_angle(self):
        return np.copy(self._angle)

    def as_vector(self):
        return get_vector_from_angle(self._angle, self._base.matrix)

    def norm(self):
        return LA.norm(self._angle)

    def get_distance_to(self, other):
        return LA.norm(self._angle - other._angle)

    def transform_to_base(self, new_base):
        return UnitDirection(new_base).from_vector(self.as_vector())

    def invert_normal(self):
        return UnitDirection(np.hstack((-self._base.matrix[:, :1], self._base.matrix[:, 1:]))
                             ).from_vector(self.as_vector())

    def _other(self, other):
        if isinstance(other, UnitDirection):
            if np.allclose(other._base.matrix, self._base.matrix):
                return other._angle
            return other.transform_to_base(self._base)._angle
        return np.asarray(other)

    def __add__(self, other):
        return UnitDirection(self._base).from_angle(self._angle + self._other(other))

    def __sub__(self, other):
        return UnitDirection(self._base).from_angle(self._angle - self._other(other))

    def __mul__(self, fac):
        return UnitDirection(self._base).from_angle(self._angle * fac)

    __rmul__ = __mul__

    def __truediv__(self, fac):
        return UnitDirection(self._base).from_angle(self._angle / fac)

    def __neg__(self):
        return UnitDirection(self._base).from_angle(-self._angle)

    def __matmul__(self, other):
        return self._angle @ self._other(other)
