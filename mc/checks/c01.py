"""C01: rotations between directions (VectorRotationXd and helpers)."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family

MOD = "nonlinear_avoidance.vector_rotation"
FACTORS = (-1.0, 0.0, 0.25, 0.5, 0.75, 1.0, 2.0)


def directions(dim, tier):
    if dim == 2:
        return lib.circle(16 if tier == "quick" else 48)
    if dim == 3:
        vals = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2)
        out = []
        for vv in lib.lattice_directions(3, vals):
            if not any(np.allclose(vv, oo) for oo in out):
                out.append(vv)
        return out
    return [lib.unit(vv) for vv in itertools.product((-1, 0, 1), repeat=dim)
            if any(vv) and sum(abs(xx) for xx in vv) <= (2 if tier == "quick" else 4)]


def matrix(base, angle):
    """Reference: rotation in the plane spanned by the two columns of base."""
    aa, bb = base[:, 0], base[:, 1]
    return (np.eye(base.shape[0]) + math.sin(angle) * (np.outer(bb, aa) - np.outer(aa, bb))
            + (math.cos(angle) - 1) * (np.outer(aa, aa) + np.outer(bb, bb)))


def check_rotation(ctx, rot, v0, v1, ang, exact=True):
    """rot has to be the rotation from v0 to v1 (unit vectors)."""
    dim = v0.shape[0]
    base = ctx.finite(rot.base, "base of rotation")
    ctx.close(base.T @ base, np.eye(2), "orthonormal base", 1e-6)
    ctx.close(base[:, 0], v0, "first base vector is the initial direction", 1e-9)
    tol = 1e-6 if exact else 2e-7
    ctx.require(abs(rot.rotation_angle - ang) < tol, "rotation angle",
                lambda: f"{rot.rotation_angle} vs {ang}")
    ctx.close(ctx.call("rotate", rot.rotate, np.copy(v0)), v1, "rotates initial into final", tol)
    ctx.close(rot.get_first_vector(), v0, "get_first_vector", 1e-9)
    ctx.close(rot.get_second_vector(), v1, "get_second_vector", tol)
    ctx.close(rot.base0, v0, "base0", 1e-9)
    ctx.require(rot.dimension == dim, "dimension")


def pair_cases(tier):
    out = []
    for dim in (2, 3, 4):
        dirs = directions(dim, tier)
        for ii in range(len(dirs)):
            out.append({"dim": dim, "init": ii, "tier": tier})
    return out


def pair_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = directions(dim, case["tier"])
    v0 = dirs[case["init"]]
    tests = dirs if case["tier"] == "thorough" else dirs[::3]
    for jj, v1 in enumerate(dirs):
        for s0, s1 in ((1.0, 1.0), (0.1, 30.0)):
            in0, in1 = v0 * s0, v1 * s1
            keep = (in0.copy(), in1.copy())
            rot = ctx.call("from_directions", mod.VectorRotationXd.from_directions, in0, in1)
            ctx.close(in0, keep[0], "input unchanged", 0)
            ctx.close(in1, keep[1], "input unchanged", 0)
            ang = lib.angle_between(v0, v1)
            check_rotation(ctx, rot, v0, v1, ang)
            ctx.outcome(dim, round(ang, 4))
        ctx.visit(dim, case["init"], jj)
        base, theta = np.array(rot.base), float(rot.rotation_angle)
        for factor in FACTORS:
            mat = matrix(base, theta * factor)
            for vec in tests:
                got = ctx.call("rotate", rot.rotate, vec * 2.5, factor)
                ctx.close(got, mat @ vec * 2.5, "rotation is the plane rotation", 1e-6)
            arr = np.array(tests).T
            got = ctx.call("rotate_array", mod.rotate_array, arr * 3.0, base, theta * factor)
            ctx.close(got, mat @ arr, "rotate_array agrees with the rotation of each column",
                      1e-6)
        for vec in tests:
            once = rot.rotate(vec)
            ctx.close(ctx.call("inverse_rotate", rot.inverse_rotate, once), vec,
                      "inverse_rotate undoes rotate", 1e-6)
            ctx.close(ctx.call("inv", rot.inv).rotate(once), vec, "inv undoes rotate", 1e-6)
            ctx.close(rot.rotate(rot.rotate(vec, 0.25), 0.75), once, "partial rotations add up",
                      1e-6)
        ctx.close(rot.rotate(np.zeros(dim)), np.zeros(dim), "zero vector stays zero", 0)
        ctx.close(rot.base, base, "queries leave the rotation unchanged", 0)
        ctx.require(rot.rotation_angle == theta, "queries leave the rotation unchanged")


# ------------------------------------------------------------------- nearly (anti-)parallel
EPS = [0.0] + [10.0 ** -kk for kk in range(15, 0, -1)]


def near_cases(tier):
    return [{"dim": dim, "init": ii, "tier": tier, "anti": anti} for dim in (2, 3, 4)
            for ii in range(len(directions(dim, tier))) for anti in (False, True)]


def near_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = directions(dim, case["tier"])
    v0 = dirs[case["init"]]
    for other in dirs:
        perp = other - v0 * (v0 @ other)
        if np.linalg.norm(perp) < 1e-6:
            continue
        perp = lib.unit(perp)
        for eps in EPS:
            ang = math.pi - eps if case["anti"] else eps
            v1 = math.cos(ang) * v0 + math.sin(ang) * perp
            ctx.visit(dim, case["init"], tuple(np.round(perp, 6)), ang)
            rot = ctx.call("from_directions", mod.VectorRotationXd.from_directions, v0, v1)
            check_rotation(ctx, rot, v0, v1, ang, exact=False)
            for factor in (-1, 0.5, 1):
                got = ctx.finite(rot.rotate(other * 2, factor), "rotated vector")
                ctx.close(np.linalg.norm(got), 2.0, "norm preserved", 1e-6)


# ------------------------------------------------------------------- rotation of a rotation
def conj_cases(tier):
    return [{"dim": dim, "a": ii, "b": jj, "tier": tier} for dim in (2, 3)
            for ii, jj in itertools.product(range(len(directions(dim, "quick"))), repeat=2)]


def conj_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = directions(dim, "quick")
    v0, v1 = dirs[case["a"]], dirs[case["b"]]
    if v0 @ v1 < -1 + 1e-9:
        return
    rot = mod.VectorRotationXd.from_directions(v0, v1)
    mat = matrix(np.array(rot.base), rot.rotation_angle)
    inner_dirs = dirs if case["tier"] == "thorough" else dirs[1::3][:5]
    for w0, w1 in itertools.product(inner_dirs, repeat=2):
        if w0 @ w1 < -1 + 1e-9:
            continue
        inner = mod.VectorRotationXd.from_directions(w0, w1)
        keep = np.array(inner.base)
        for factor in (1.0, 0.5):
            fmat = matrix(np.array(rot.base), rot.rotation_angle * factor)
            moved = ctx.call("rotate_vector_rotation", rot.rotate_vector_rotation, inner, factor)
            ctx.close(moved.base, fmat @ keep, "rotated rotation acts in the rotated plane", 1e-6)
            ctx.require(abs(moved.rotation_angle - inner.rotation_angle) < 1e-9,
                        "rotated rotation keeps its angle")
            seq = mod.VectorRotationSequence.create_from_vector_array(
                np.array([w0, lib.unit(w0 + w1), w1]).T)
            skeep = np.array(seq.basis_array)
            smoved = ctx.call("rotate_sequence", rot.rotate_sequence, seq, factor)
            exp = np.stack([fmat @ skeep[:, :, kk] for kk in range(2)], axis=2)
            ctx.close(smoved.basis_array, exp, "rotated sequence acts in the rotated planes", 1e-6)
            ctx.close(smoved.get_end_vector(), fmat @ w1, "rotated sequence ends rotated", 1e-6)
            ctx.close(seq.basis_array, skeep, "argument unchanged", 0)
        ctx.close(inner.base, keep, "argument unchanged", 0)
        ctx.visit(dim, case["a"], case["b"], tuple(w0), tuple(w1))
    ctx.close(mat @ v0, v1, "reference", 1e-6)


# ------------------------------------------------------------------- directional addition
def add_cases(tier):
    return [{"dim": dim, "a": ii, "tier": tier} for dim in (2, 3, 4)
            for ii in range(-1, len(directions(dim, tier)))]


def add_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    dirs = directions(dim, case["tier"])
    v0 = np.zeros(dim) if case["a"] < 0 else dirs[case["a"]]
    weights = np.linspace(0, 1, 5 if case["tier"] == "quick" else 9)
    for jj in range(-1, len(dirs)):
        v1 = np.zeros(dim) if jj < 0 else dirs[jj]
        anti = v0 @ v1 < -1 + 1e-9
        for n0, n1, ww in itertools.product((1.0, 0.3), (1.0, 4.0), weights):
            in0, in1 = v0 * n0, v1 * n1
            got = ctx.call("directional_vector_addition", mod.directional_vector_addition,
                           in0, in1, ww)
            got = ctx.finite(got, "directional sum")
            ctx.close(in0, v0 * n0, "input unchanged", 0)
            m0, m1 = np.linalg.norm(in0), np.linalg.norm(in1)
            ctx.close(np.linalg.norm(got), (1 - ww) * m0 + ww * m1,
                      "magnitude is the weighted mean of the magnitudes", 1e-6)
            if m0 and m1 and not anti:
                exp = lib.slerp(v0, v1, ww) * ((1 - ww) * m0 + ww * m1)
                ctx.close(got, exp, "direction is on the arc between both", 1e-6)
            elif not m0 or not m1:
                ctx.close(got, (1 - ww) * in0 + ww * in1, "sum with a zero vector", 1e-6)
            ctx.visit(dim, case["a"], jj, n0, n1, ww)


# ------------------------------------------------------------------------ rotation by nothing
def zero_cases(tier):
    return [{"dim": dim, "tier": tier} for dim in (2, 3, 4, 5)]


def zero_run(ctx, case):
    """The zero rotation leaves every vector as it is."""
    mod = ctx.load("nonlinear_avoidance.vector_rotation")
    if not hasattr(mod, "create_zero_vector_rotation"):
        return
    rot = ctx.call("create_zero_vector_rotation", mod.create_zero_vector_rotation, case["dim"])
    for vec in directions(case["dim"], case["tier"]):
        ctx.visit(case["dim"], *np.round(vec, 6))
        ctx.close(ctx.call("rotate", rot.rotate, vec), vec, "turned by nothing", 1e-9)
        ctx.close(ctx.call("inverse_rotate", rot.inverse_rotate, vec), vec, "turned back", 1e-9)
    ctx.outcome(case["dim"])


FAMILIES = [
    Family("direction pairs", pair_cases, pair_run),
    Family("nearly parallel and anti-parallel", near_cases, near_run),
    Family("rotated rotations", conj_cases, conj_run),
    Family("directional addition", add_cases, add_run),
    Family("rotation by nothing", zero_cases, zero_run),
]
