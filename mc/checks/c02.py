"""C02: sequences of rotations."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c01 import matrix, MOD


def alphabet(dim, tier):
    if dim == 2:
        return lib.circle(6, 0.1) + [-lib.circle(6, 0.1)[0] * 1.0]
    dirs = [lib.unit(vv) for vv in
            [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (1, 1, 0), (1, -1, 1), (0, 1, -2)]]
    if tier == "thorough":
        dirs += [lib.unit(vv) for vv in [(0, -1, 0), (-1, 1, 1), (2, 0, 1)]]
    return dirs


def compositions(n):
    """Fractions: all multiples of 1/4 over n rotations."""
    return [np.array(cc) / 4.0 for cc in lib.integer_compositions(4, n)]


def is_anti(v0, v1):
    return v0 @ v1 <= -1 + 1e-9


def check_chain(ctx, seq, vectors):
    """seq is the chain of rotations through the (unit) vectors."""
    n_rot = len(vectors) - 1
    ctx.require(seq.n_rotations == n_rot, "number of rotations")
    ctx.require(seq.dimension == vectors[0].shape[0], "dimension")
    basis = ctx.finite(seq.basis_array, "bases")
    mats = []
    for kk in range(n_rot):
        ctx.close(basis[:, kk, 0], vectors[kk], "each rotation starts at its vector", 1e-6)
        if abs(seq.rotation_angles[kk]) > 1e-9:
            ctx.close(basis[:, kk, :].T @ basis[:, kk, :], np.eye(2), "orthonormal base", 1e-6)
        mat = matrix(basis[:, kk, :], seq.rotation_angles[kk])
        ctx.close(mat @ vectors[kk], vectors[kk + 1], "each rotation ends at the next vector",
                  2e-5)
        mats.append(mat)
    return basis, np.array(seq.rotation_angles), mats


def partial_reference(basis, angles, cumulated):
    """Product of the partial rotations, each of which starts where the former one ended."""
    dim = basis.shape[0]
    total, moved = np.eye(dim), np.eye(dim)
    for kk in range(basis.shape[1]):
        base = moved @ basis[:, kk, :]
        total = matrix(base, angles[kk] * cumulated[kk]) @ total
        moved = moved @ matrix(basis[:, kk, :], angles[kk] * (cumulated[kk] - 1))
    return total


def seq_cases(tier):
    out = []
    for dim in (2, 3):
        n = len(alphabet(dim, tier))
        for length in range(2, 5 if tier == "quick" else 6):
            for idx in itertools.product(range(n), repeat=length - 1):
                out.append({"dim": dim, "first": list(idx), "tier": tier})
    return out


def seq_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = alphabet(dim, case["tier"])
    for last in range(len(dirs)):
        idx = case["first"] + [last]
        vectors = [dirs[ii] for ii in idx]
        arr = np.array([vv * (1 + 0.5 * kk) for kk, vv in enumerate(vectors)]).T
        keep = arr.copy()
        if any(is_anti(v0, v1) for v0, v1 in zip(vectors, vectors[1:])):
            ctx.raises("anti-parallel neighbours",
                       mod.VectorRotationSequence.create_from_vector_array, arr)
            continue
        seq = ctx.call("create_from_vector_array",
                       mod.VectorRotationSequence.create_from_vector_array, arr)
        ctx.close(arr, keep, "input unchanged", 0)
        basis, angles, mats = check_chain(ctx, seq, vectors)
        ctx.visit(dim, *idx)
        ctx.close(ctx.call("get_end_vector", seq.get_end_vector), vectors[-1], "end vector", 2e-5)
        total = np.eye(dim)
        for mat in mats:
            total = mat @ total
        for vec in dirs[::2]:
            got = ctx.call("rotate", seq.rotate, vec * 2)
            ctx.close(got, total @ vec * 2, "rotating over the full length applies all rotations",
                      1e-6)
        ctx.close(seq.rotate(vectors[0]), vectors[-1], "start is rotated to the end", 5e-5)
        for weights in compositions(len(idx) - 1):
            cumulated = np.cumsum(weights[::-1])[::-1]
            ref = partial_reference(basis, angles, cumulated)
            keep_w = weights.copy()
            for vec in (vectors[0], dirs[1]):
                got = ctx.call("rotate_weighted", seq.rotate_weighted, vec, weights)
                ctx.close(got, ref @ vec, "partial rotations follow each other", 1e-6)
            ctx.close(weights, keep_w, "weights unchanged", 0)
            ctx.outcome(*np.round(ref @ vectors[0], 3))
        ctx.close(seq.basis_array, basis, "queries leave the sequence unchanged", 0)
        ctx.close(seq.rotation_angles, angles, "queries leave the sequence unchanged", 0)
        zero = arr.copy()
        zero[:, -1] = 0
        ctx.raises("zero vector", mod.VectorRotationSequence.create_from_vector_array, zero)


# ------------------------------------------------------------------- building step by step
def build_cases(tier):
    """All histories of appending a direction at the end / pushing a new root in front."""
    out = []
    depth = 3 if tier == "quick" else 4
    for dim in (2, 3):
        n = len(alphabet(dim, tier))
        ops = [[op, ii] for op in ("append", "direction", "root") for ii in range(n)]
        for dd in range(1, depth + 1):
            for hist in itertools.product(ops, repeat=dd - 1):
                out.append({"dim": dim, "ops": [list(oo) for oo in hist], "tier": tier})
    return out


def build_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = alphabet(dim, case["tier"])
    all_last = [[op, ii] for op in ("append", "direction", "root") for ii in range(len(dirs))]
    for last in all_last:
        seq = mod.VectorRotationSequence.create_from_vector_array(np.array([dirs[0], dirs[1]]).T)
        other = mod.VectorRotationSequence.create_from_vector_array(
            np.array([dirs[0], dirs[1]]).T)
        vectors = [dirs[0], dirs[1]]
        for op, ii in case["ops"] + [last]:
            if is_anti(dirs[ii], vectors[0 if op == "root" else -1]):
                return_now = True
                break
            return_now = False
            if op == "append":
                rot = mod.VectorRotationXd.from_directions(vectors[-1], dirs[ii])
                ctx.call("append_from_base_and_angle", seq.append_from_base_and_angle,
                         rot.base, rot.rotation_angle)
                vectors.append(dirs[ii])
            elif op == "direction":
                ctx.call("append_from_direction", seq.append_from_direction, dirs[ii] * 2)
                vectors.append(dirs[ii])
            else:
                rot = mod.VectorRotationXd.from_directions(dirs[ii], vectors[0])
                ctx.call("push_root_from_base_and_angle", seq.push_root_from_base_and_angle,
                         rot.base, rot.rotation_angle)
                vectors.insert(0, dirs[ii])
        if return_now:
            continue
        check_chain(ctx, seq, vectors)
        ctx.close(ctx.call("get_end_vector", seq.get_end_vector), vectors[-1], "end vector", 2e-5)
        ctx.close(ctx.call("rotate", seq.rotate, vectors[0]), vectors[-1],
                  "start is rotated to the end", 5e-5)
        check_chain(ctx, other, [dirs[0], dirs[1]])
        ctx.visit(dim, *[tuple(vv) for vv in vectors])


def empty_cases(tier):
    return [{"dim": dim, "idx": ii} for dim in (2, 3, 4)
            for ii in range(len(lib.lattice_directions(dim)))]


def empty_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    ctx.visit(dim, case["idx"])
    seq = ctx.call("create_empty", mod.VectorRotationSequence.create_empty, dim)
    ctx.require(seq.n_rotations == 0 and seq.dimension == dim, "empty sequence")
    v0 = lib.lattice_directions(dim)[case["idx"]]
    for v1 in lib.lattice_directions(dim):
        if is_anti(v0, v1):
            continue
        ctx.visit(dim, tuple(v0), tuple(v1))
        new = mod.VectorRotationSequence.create_empty(dim)
        rot = mod.VectorRotationXd.from_directions(v0, v1)
        ctx.call("append", new.append_from_base_and_angle, rot.base, rot.rotation_angle)
        check_chain(ctx, new, [v0, v1])
        # The same rotations with a turn of the other sign
        for nn in (1, 2):
            turn = mod.VectorRotationSequence.create_empty(dim)
            for rr, sign in ((rot, -1), (mod.VectorRotationXd.from_directions(v1, v0), nn - 2))[:nn]:
                base = rr.base * np.array([1, -1 if sign < 0 else 1])
                ctx.call("append", turn.append_from_base_and_angle, base,
                         rr.rotation_angle * (-1 if sign < 0 else 1))
            chain = [v0, v1, v0][:nn + 1]
            check_chain(ctx, turn, chain)
            ctx.close(ctx.call("get_end_vector", turn.get_end_vector), chain[-1], "end vector", 2e-5)
            ctx.close(ctx.call("rotate", turn.rotate, v0), chain[-1],
                      "start is rotated to the end", 5e-5)
        back = mod.VectorRotationSequence.create_empty(dim)
        inverse = ctx.call("inv", rot.inv)
        ctx.call("append", back.append_from_base_and_angle, inverse.base, inverse.rotation_angle)
        ctx.close(ctx.call("get_end_vector", back.get_end_vector), inverse.rotate(v0),
                  "end vector of an inverse rotation", 1e-6)
        ctx.close(inverse.rotate(v1), v0, "inverse rotation", 2e-5)
    ctx.require(seq.n_rotations == 0, "empty sequence stays empty")


def anti_cases(tier):
    return [{"dim": dim, "idx": ii} for dim in (2, 3, 4)
            for ii in range(len(lib.lattice_directions(dim)))]


def anti_run(ctx, case):
    """Anti-parallel neighbours are refused for every direction and scaling."""
    mod = ctx.load(MOD)
    dim = case["dim"]
    vec = lib.lattice_directions(dim)[case["idx"]]
    for scale in (0.1, 1.0, 3.0, 7.0):
        for pos in range(2):
            arr = [vec, -vec * scale] if pos == 0 else [lib.unit(np.roll(vec, 1) + 2 * vec), vec,
                                                        -vec * scale]
            ctx.visit(dim, case["idx"], scale, pos)
            ctx.raises("anti-parallel neighbours",
                       mod.VectorRotationSequence.create_from_vector_array, np.array(arr).T)


FAMILIES = [
    Family("vector sequences", seq_cases, seq_run),
    Family("stepwise construction", build_cases, build_run),
    Family("empty sequence", empty_cases, empty_run),
    Family("anti-parallel neighbours", anti_cases, anti_run),
]
