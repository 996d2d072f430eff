"""C16: projection of the space around an obstacle, and the convergence around it."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c05 import make_obstacle
from mc.checks.c10 import scene_key

MOD = "nonlinear_avoidance.dynamics.projected_rotation_dynamics"
POSES = {2: (((3.0, 1.0), 0.0), ((0.0, -2.5), 0.7), ((-4.0, 0.5), -2.2), ((1.3, 0.0), 1.5)),
         3: (((3.0, 1.0, 0.5), (0, 0, 0)), ((0.0, -2.5, 1.0), (0.7, 0.2, -0.4)),
             ((-2.0, 0.5, -2.0), (-1.2, 2.0, 0.3)))}
ATTRACTORS = {2: ((0.0, 0.0), (1.0, -7.0)), 3: ((0.0, 0.0, 0.0), (1.0, -5.0, 3.0))}
DISTANCES = (0.0, 1e-9, 1e-3, 0.2, 1.0, 3.0, 20.0)


def spaces(tier):
    return [{"kind": kind, "pose": pp, "attractor": aa, "dim": dim, "tier": tier}
            for dim in (2, 3) for kind in "ECS" for pp in range(len(POSES[dim]))
            for aa in range(len(ATTRACTORS[dim]))]


FRAME = {2: (0.9, (1.5, -2.0)), 3: ((0.5, -0.7, 0.3), (1.0, 2.0, -0.5))}


class Swirl:
    """Motion to the attractor, turned depending on the distance."""

    def __init__(self, attractor, mat, limit=None):
        self.attractor_position, self.mat, self.limit = attractor, mat, limit

    def evaluate(self, position):
        rel = self.mat.T @ (self.attractor_position - position)
        ang = 0.9 * math.sin(np.linalg.norm(rel))
        rel[:2] = lib.rot2(ang) @ rel[:2]
        return self.mat @ rel


def build(ctx, case, motion="linear", moved=False):
    mod = ctx.load(MOD)
    dim = case["dim"]
    att = np.array(ATTRACTORS[dim][case["attractor"]])
    pos, ori = POSES[dim][case["pose"]]
    mat, shift = np.eye(dim), np.zeros(dim)
    if moved:
        mat, shift = lib.matrix_of(dim, FRAME[dim][0]), np.array(FRAME[dim][1])
        obs_mat = mat @ lib.matrix_of(dim, ori)
        from scipy.spatial.transform import Rotation
        ori = (math.atan2(obs_mat[1, 0], obs_mat[0, 0]) if dim == 2 else
               Rotation.from_matrix(obs_mat).as_rotvec())
        pos, att = mat @ np.array(pos) + shift, mat @ att + shift
    if case["kind"] == "S":
        obs = make_obstacle("E", [1.4] * dim, (pos, ori))
    else:
        obs = make_obstacle(case["kind"], [1.2, 2.0, 0.8][:dim], (pos, ori))
    kwargs = {}
    if motion == "swirl":
        kwargs["initial_dynamics"] = Swirl(att.copy(), mat)
    dyn = ctx.call("ProjectedRotationDynamics", mod.ProjectedRotationDynamics,
                   attractor_position=att.copy(), obstacle=obs, **kwargs)
    return dyn, obs, att, mat, shift


def points(case, obs, att):
    """Around the obstacle, inside of it, around the attractor, and behind both."""
    dim = case["dim"]
    n_dir = 16 if case["tier"] == "quick" else 48
    dirs = lib.circle(n_dir, 0.01) if dim == 2 else lib.sphere26()
    if dim == 3 and case["tier"] != "quick":
        dirs = lib.lattice_directions(3, (-2, -1, 0, 1, 2))
    axis = lib.unit(att - obs.center_position)
    for dd in dirs + [axis, -axis]:
        surf = obs.pose.transform_position_from_relative(
            obs.pose.transform_direction_to_relative(dd)
            * obs.get_local_radius(obs.pose.transform_direction_to_relative(dd),
                                   in_global_frame=False))
        for dist in DISTANCES:
            yield "around", surf + dd * dist
        yield "inside", obs.center_position + dd * 0.2
        for dist in (1e-6, 0.3, 5.0):
            yield "attractor", att + dd * dist
    yield "inside", np.copy(obs.center_position)
    for dist in (0.5, 2.0, 100.0):
        yield "behind", att + axis * dist


# ---------------------------------------------------------------------------- shrunk and unfolded
def fold_cases(tier):
    return [dict(cc, weight=ww, frame=ff, power=pp) for cc in spaces(tier) for ww in (1.0, 0.6)
            for ff in ("global", "obstacle") for pp in (2, 1, 3)
            if pp == 2 or tier != "quick" or (ww == 1.0 and cc["pose"] < 2)]


def fold_run(ctx, case):
    dyn, obs, att, _, _ = build(ctx, case)
    dyn.dotprod_projection_power = case["power"]
    tol = 1e-5 if case["power"] == 2 else 1e-4
    local = case["frame"] == "obstacle"
    kwargs = {"in_obstacle_frame": local}
    rel = obs.pose.transform_position_to_relative
    center = np.zeros(case["dim"]) if local else np.copy(obs.center_position)

    def step(name, *args, **kws):
        args = [np.copy(aa) for aa in args]
        keep = [np.copy(aa) for aa in args]
        out = ctx.call(name, getattr(dyn, name), *args, **kws)
        for aa, kk in zip(args, keep):
            ctx.close(aa, kk, f"{name} leaves its input as it is", 0)
        return ctx.finite(out, name)

    deflate = "_get_position_after_deflating_obstacle"
    inflate = "_get_position_after_inflating_obstacle"
    fold = "_get_folded_position_opposite_kernel_point"
    unfold = "_get_unfolded_position_opposite_kernel_point"
    target = rel(att) if local else att
    small_att = step(deflate, target, deflation_weight=case["weight"], **kwargs)
    for where, pos in points(case, obs, att):
        pos = rel(pos) if local else pos
        dist = np.linalg.norm(pos - center)
        ctx.visit(scene_key(case), *np.round(pos, 9))
        radius = obs.get_local_radius(pos, in_global_frame=not local)
        small = step(deflate, pos, deflation_weight=case["weight"], **kwargs)
        if abs(dist - radius) < 1e-8 and case["weight"] < 1:
            continue
        if dist < radius * (1 - 1e-9):
            ctx.close(small, center, "inside of the obstacle: at its center", 1e-9)
            continue
        ctx.close(np.linalg.norm(small - center), dist - radius * case["weight"],
                  "pulled in by the radius of the obstacle", 1e-6)
        if np.linalg.norm(small - center) > 1e-4:
            ctx.close(lib.unit(small - center), lib.unit(pos - center), "in the same direction",
                      1e-6)
            back = step(inflate, small, deflation_weight=case["weight"], **kwargs)
            ctx.close(back, pos, "inflating undoes deflating", 1e-6, 1e-9)
        if where == "behind" or np.linalg.norm(small - small_att) < 1e-9:
            continue
        # Unfolding undoes folding
        axis = lib.unit(center - small_att)
        angle = lib.angle_between(small - small_att, axis)
        if angle > math.pi - 1e-3:
            continue
        if case["power"] != 2 and not 0.05 < angle < math.pi - 0.05:
            continue  # badly conditioned
        far = step(fold, small, small_att, **kwargs)
        back = step(unfold, far, small_att, **kwargs)
        ctx.close(back, small, "unfolding undoes folding", tol, tol)
    got = step(fold, center, small_att, **kwargs)
    ctx.close(got, center, "the center of the obstacle stays", tol)
    got = step(unfold, center, small_att, **kwargs)
    ctx.close(got, center, "the center of the obstacle stays", tol)


# --------------------------------------------------------------------------------- weight
def weight_run(ctx, case):
    dyn, obs, att, _, _ = build(ctx, case)
    moved, obs1, _, mat, shift = build(ctx, case, moved=True)
    axis = lib.unit(att - obs.center_position)
    for where, pos in points(case, obs, att):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        keep = pos.copy()
        projected = ctx.call("get_projected_position", dyn.get_projected_position, pos)
        weight = ctx.finite(ctx.call("evaluate_projected_weight", dyn.evaluate_projected_weight,
                                     pos, obs), "weight")
        ctx.close(pos, keep, "position unchanged", 0)
        gamma = obs.get_gamma(pos, in_global_frame=True)
        behind = lib.angle_between(pos - att, axis) < 1e-6
        ctx.require(-1e-12 <= weight <= 1 + 1e-12, "weight between 0 and 1", lambda: f"{weight}")
        if gamma < 1 - 1e-9:
            ctx.close(projected, pos, "stays within the obstacle", 1e-12)
            ctx.close(weight, 1.0, "full weight within the obstacle", 1e-9)
        elif gamma < 1 + 1e-7:
            ctx.close(weight, 1.0, "full weight on the surface", 1e-3)
        elif not behind and gamma > 1 + 1e-4:
            ctx.finite(projected, "projected position")
            ctx.require(obs.get_gamma(projected, in_global_frame=True) >= 1 - 1e-6,
                        "projected outside of the obstacle", lambda: f"{pos} {projected}")
        if behind:
            ctx.require(weight < 0.01, "no weight opposite of the obstacle",
                        lambda: f"{pos} {weight}")
        elif lib.angle_between(pos - att, axis) > 1e-3 or np.linalg.norm(pos - att) < 1e-9:
            got = ctx.call("evaluate_projected_weight", moved.evaluate_projected_weight,
                           mat @ pos + shift, obs1)
            ctx.close(got, weight, "does not depend on the frame of reference", 1e-5)
            for kk in range(case["dim"]):
                near = pos.copy()
                near[kk] += 1e-8 * min(1.0, np.linalg.norm(pos - att))
                got = ctx.call("evaluate_projected_weight", dyn.evaluate_projected_weight,
                               near, obs)
                # (square root like at the surface)
                ctx.close(got, weight, "changes continuously", 2e-3)
        ctx.outcome(round(float(weight), 2))
    weight = ctx.call("evaluate_projected_weight", dyn.evaluate_projected_weight, att.copy(), obs)
    ctx.require(0 <= weight < 0.01, "no weight at the attractor", lambda: f"{weight}")
    # Fades along the axis
    start = obs.get_intersection_with_surface(direction=axis, in_global_frame=True)
    gap = np.linalg.norm(att - start)
    last = 1.0
    for tt in np.linspace(0.001, 0.999, 40):
        weight = dyn.evaluate_projected_weight(start + axis * tt * gap, obs)
        ctx.require(weight <= last + 1e-9, "fades towards the attractor",
                    lambda: f"{tt} {weight} {last}")
        last = weight
    last = 1.0
    start = obs.get_intersection_with_surface(direction=-axis, in_global_frame=True)
    for dist in np.linspace(0.01, 40, 40):
        weight = dyn.evaluate_projected_weight(start - axis * dist, obs)
        ctx.require(weight <= last + 1e-9, "fades with the distance", lambda: f"{dist} {weight}")
        last = weight


def covered_cases(tier):
    return [dict(cc, distance=dd) for cc in spaces(tier) if not cc["attractor"]
            for dd in (0.0, 0.5, 0.999)]


def covered_run(ctx, case):
    """Attractor within the obstacle."""
    mod = ctx.load(MOD)
    _, obs, _, _, _ = build(ctx, case)
    dim = case["dim"]
    dd = lib.unit([0.3, -0.8, 0.5][:dim])
    att = obs.pose.transform_position_from_relative(
        dd * obs.get_local_radius(dd) * case["distance"])
    dyn = mod.ProjectedRotationDynamics(attractor_position=att.copy(), obstacle=obs)
    for where, pos in points(case, obs, att + 0.1):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        got = ctx.call("get_projected_position", dyn.get_projected_position, pos)
        ctx.close(got, pos, "not projected with the attractor within the obstacle", 1e-12)
        weight = ctx.call("evaluate_projected_weight", dyn.evaluate_projected_weight, pos, obs)
        ctx.require(0 < weight <= 1, "weight between 0 and 1", lambda: f"{weight}")
        if obs.get_gamma(pos, in_global_frame=True) <= 1:
            ctx.close(weight, 1.0, "full weight within the obstacle", 1e-9)


# ------------------------------------------------------------------------------- convergence
def conv_cases(tier):
    return [dict(cc, motion=mm) for cc in spaces(tier) for mm in ("linear", "swirl")]


def conv_run(ctx, case):
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence
    dyn, obs, att, _, _ = build(ctx, case, case["motion"])
    moved, obs1, _, mat, shift = build(ctx, case, case["motion"], moved=True)
    axis = lib.unit(att - obs.center_position)
    at_obs = dyn.initial_dynamics.evaluate(obs.center_position)
    for where, pos in points(case, obs, att):
        ctx.visit(scene_key(case), case["motion"], *np.round(pos, 9))
        keep = pos.copy()
        gamma = obs.get_gamma(pos, in_global_frame=True)
        init = dyn.initial_dynamics.evaluate(pos)
        back = lib.unit(att - pos)
        behind = lib.angle_between(pos - att, axis) < 1e-6
        rot = ctx.call("evaluate_rotation_position_to_transform",
                       dyn.evaluate_rotation_position_to_transform, pos, obs)
        if rot is not None and not behind:
            ctx.close(rot.rotate(back), axis, "turns to the direction at the obstacle", 1e-6)
        ctx.require(rot is not None or lib.angle_between(back, axis) > math.pi - 1e-3,
                    "rotation only missing opposite of the obstacle")
        other = ctx.call("evaluate_rotation_start_to_end", dyn.evaluate_rotation_start_to_end,
                         pos, obs.center_position, att)
        if not behind:
            ctx.close(other.rotate(back), axis, "turns from start to end", 1e-6)
        shrunk = ctx.call("evaluate_rotation_shrunkposition_to_transform",
                          dyn.evaluate_rotation_shrunkposition_to_transform, pos, obs)
        if gamma < 1 - 1e-9:
            ctx.close(shrunk.rotate(axis), axis, "no turn within the obstacle", 1e-9)
        elif where != "behind" and shrunk is not None:
            ctx.finite(shrunk.base, "rotation of the shrunk position")
            ctx.close(shrunk.get_second_vector() if abs(shrunk.rotation_angle) > 1e-3 else axis,
                      axis, "ends at the direction of the obstacle", 1e-5)
        vel = ctx.finite(ctx.call("evaluate_convergence_around_obstacle",
                                  dyn.evaluate_convergence_around_obstacle, pos, obs),
                         "convergence")
        ctx.close(np.linalg.norm(vel), np.linalg.norm(init), "speed of the initial motion", 1e-6,
                  1e-6)
        weight = dyn.evaluate_projected_weight(pos, obs)
        opposite = lib.angle_between(init, at_obs) > math.pi - 1e-3
        if gamma <= 1 - 1e-9:
            ctx.close(lib.unit(vel), lib.unit(at_obs), "as at the obstacle within of it", 1e-6)
        if where == "behind" and weight < 1e-6:
            ctx.close(vel, init, "initial motion opposite of the obstacle", 1e-3)
        if not behind and not opposite:
            got = ctx.call("evaluate_convergence_around_obstacle",
                           moved.evaluate_convergence_around_obstacle, mat @ pos + shift, obs1)
            ctx.close(got, mat @ vel, "does not depend on the frame of reference", 1e-4, 1e-4)
        if not np.linalg.norm(init):
            continue
        seq = evaluate_dynamics_sequence(pos, dyn.initial_dynamics)
        copy_ = (np.copy(seq.basis_array), np.copy(seq.rotation_angles))
        got = ctx.call("evaluate_convergence_sequence_around_obstacle",
                       dyn.evaluate_convergence_sequence_around_obstacle, pos, obs, seq)
        ctx.require(isinstance(got, VectorRotationSequence), "sequence")
        if not behind:
            ctx.close(got.basis_array[:, 0, 0], back, "starts at the direction to the attractor",
                      1e-6)
            ctx.close(got.get_end_vector(), lib.unit(at_obs), "ends at the motion of the obstacle",
                      1e-5)
        if not behind:
            mean = ctx.call("compute_obstacle_convergence_sequence",
                            dyn.compute_obstacle_convergence_sequence, pos, obs, seq)
            end = mean.get_end_vector()
            ctx.finite(end, "mean of both")
            ctx.close(np.linalg.norm(end), 1, "direction", 1e-6)
            if gamma <= 1 - 1e-9:
                ctx.close(end, lib.unit(at_obs), "as at the obstacle within of it", 1e-4)
        ctx.close(seq.basis_array, copy_[0], "initial sequence unchanged", 0)
        ctx.close(seq.rotation_angles, copy_[1], "initial sequence unchanged", 0)
        ctx.close(pos, keep, "position unchanged", 0)
    ctx.require(dyn.evaluate_rotation_position_to_transform(att.copy(), obs) is None,
                "no rotation at the attractor")
    ctx.require(dyn.evaluate_rotation_start_to_end(att.copy(), obs.center_position, att) is None,
                "no rotation at the attractor")
    got = ctx.call("evaluate_convergence_around_obstacle",
                   dyn.evaluate_convergence_around_obstacle, att.copy(), obs)
    ctx.close(got, np.zeros(case["dim"]), "at rest at the attractor", 1e-12)
    ctx.close(dyn.get_base_convergence(att.copy()), np.zeros(case["dim"]), "attractor", 1e-12)
    ctx.close(dyn.get_base_convergence(obs.center_position), axis, "direction to the attractor",
              1e-9)


FAMILIES = [Family("shrunk and folded", fold_cases, fold_run),
            Family("weight", spaces, weight_run),
            Family("attractor within", covered_cases, covered_run),
            Family("convergence", conv_cases, conv_run)]
