import numpy as np
from numpy import linalg as LA


def get_orthogonal_basis(vector, normalize=True):
    """Right-handed orthonormal basis whose first column is the (normalized) input vector."""
    vector = np.asarray(vector, dtype=float)
    norm = LA.norm(vector)
    if not norm:
        raise ValueError("Orthogonal basis not defined for 0-direction vector.")
    vector = vector / norm
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 2:
        basis[:, 1] = [-vector[1], vector[0]]
        return basis
    if dim == 3:
        second = np.array([-vector[1], vector[0], 0.0])
        n2 = LA.norm(second)
        basis[:, 1] = second / n2 if n2 else np.array([1.0, 0.0, 0.0])
        basis[:, 2] = np.cross(basis[:, 0], basis[:, 1])
        return basis
    # general: Gram-Schmidt over the unit vectors
    col = 1
    for ii in list(range(1, dim)) + [0]:
        if col == dim:
            break
        cand = np.zeros(dim)
        cand[ii] = 1.0
        cand = cand - basis[:, :col] @ (basis[:, :col].T @ cand)
        n = LA.norm(cand)
        if n > 1e-9:
            basis[:, col] = cand / n
            col += 1
    if LA.det(basis) < 0:
        basis[:, -1] *= -1
    return basis
