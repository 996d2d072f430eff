"""C21: avoidance with the convergence taken from the motion at the obstacles."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks import c10, c11
from mc.checks.c10 import directions, grid, outside, scene_key, surface

MOD = "nonlinear_avoidance.nonlinear_rotation_avoider"
SETS = {"one": ["E"], "box": ["B"], "two": ["E", "S"], "three": ["E", "B", "S"]}
MOTIONS = ("limited", "linear", "turned", "spiral")
FREE = ("constant", "weave")


def motion(name, dim):
    if name in FREE:
        return c11.dynamics(name, dim)
    dyn, _ = c11.dynamics(name, dim)
    return dyn, None


def make(ctx, mod, obstacles, dyn, ref, convergence=None):
    if ref is not None:
        convergence = mod.ConvergenceDynamicsWithoutSingularity(convergence_dynamics=ref,
                                                                initial_dynamics=dyn)
    return ctx.call("SingularityConvergenceDynamics", mod.SingularityConvergenceDynamics,
                    initial_dynamics=dyn, obstacle_environment=c10.container("plain", obstacles),
                    obstacle_convergence=convergence)


def build(case, rot=None, shift=None):
    return [c10.obstacle(kind, case["dim"], idx, case["frame"], rot, shift)
            for idx, kind in enumerate(SETS[case["set"]])]


def field_cases(tier):
    return [{"dim": dim, "set": name, "frame": kk, "dyn": dyn, "method": mm, "tier": tier}
            for dim in (2, 3) for name in SETS for kk in range(3) for dyn in MOTIONS + FREE
            for mm in ("evaluate", "evaluate_sequence")
            if tier != "quick" or dim == 2 or (kk + len(dyn)) % 3 == 0]


def field_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    obstacles = build(case)
    dyn, ref = motion(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref)
    rot = lib.matrix_of(dim, 0.9 if dim == 2 else (0.5, -0.7, 0.3))
    shift = np.array([1.5, -2.0, 0.7][:dim])
    other = make(ctx, mod, build(case, rot, shift), c11.moved(dyn, rot, shift),
                 c11.moved(ref, rot, shift))
    orders = [make(ctx, mod, list(oo), dyn, ref)
              for oo in list(itertools.permutations(obstacles))[1:]]
    history = []

    def evaluate(one, pos):
        return ctx.call(case["method"], getattr(one, case["method"]), pos)
    for pos in grid(dim, case["tier"]):
        if not outside(obstacles, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        keep = pos.copy()
        init = dyn.evaluate(pos)
        vel = ctx.finite(evaluate(avoider, pos), "velocity")
        ctx.close(pos, keep, "position unchanged", 0)
        ctx.require(np.linalg.norm(vel) <= np.linalg.norm(init) * (1 + 1e-9) + 1e-12,
                    "never faster than the initial motion", lambda: f"{pos} {vel} {init}")
        ctx.close(evaluate(other, rot @ pos + shift), rot @ vel,
                  "does not depend on the frame of reference", 2e-5)
        for one in orders:
            ctx.close(evaluate(one, pos), vel, "order of the obstacles does not matter", 1e-6)
        if case["method"] == "evaluate":
            got = ctx.call("avoid", avoider.avoid, pos, init)
            ctx.close(got, vel, "avoids the given velocity", 1e-9)
        history.append((pos, vel))
        ctx.outcome(*np.round(vel, 2))
    for pos, vel in history[::-1]:
        ctx.close(evaluate(avoider, pos), vel, "does not depend on the history", 1e-12)
    attractor = getattr(dyn, "attractor_position", None)
    if attractor is not None:
        ctx.close(evaluate(avoider, attractor.copy()), np.zeros(dim), "at rest at the attractor",
                  1e-9)
    for dd in directions(dim, "quick"):
        pos = dd * 1e5
        vel = ctx.finite(evaluate(avoider, pos), "velocity far away")
        gap = lib.angle_between(vel, dyn.evaluate(pos))
        ctx.require(gap < 0.05, "influence fades with the distance", lambda: f"{pos} {gap}")


def surface_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    obstacles = build(case)
    dyn, ref = motion(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref)
    for jj, obs in enumerate(obstacles):
        for distance in (0.0, 1e-9, 1e-6):
            for point, normal in surface(obs, directions(dim, case["tier"]), distance):
                if not outside(obstacles[:jj] + obstacles[jj + 1:], point, 1.02):
                    continue
                ctx.visit(scene_key(case), jj, distance, *point)
                speed = np.linalg.norm(dyn.evaluate(point))
                vel = ctx.call(case["method"], getattr(avoider, case["method"]), point)
                vel = ctx.finite(vel, "velocity on the surface")
                ctx.require(vel @ normal >= -2e-3 * speed - 1e-9, "never into the obstacle",
                            lambda: f"{point} {vel} {normal} {vel @ normal}")
                ctx.require(np.linalg.norm(vel) <= speed * (1 + 1e-9), "bounded speed")


def free_cases(tier):
    return [{"dim": dim, "dyn": dyn, "tier": tier} for dim in (2, 3) for dyn in MOTIONS + FREE]


def free_run(ctx, case):
    """No obstacles: the initial motion."""
    mod = ctx.load(MOD)
    dim = case["dim"]
    dyn, ref = motion(case["dyn"], dim)
    avoider = make(ctx, mod, [], dyn, ref)
    for pos in grid(dim, case["tier"]):
        ctx.visit(scene_key(case), *pos)
        for name in ("evaluate", "evaluate_sequence"):
            got = ctx.call(name, getattr(avoider, name), pos)
            ctx.close(got, dyn.evaluate(pos), "no obstacles: initial motion", 1e-7)


# ------------------------------------------------------------------ convergence without singularity
def plain_cases(tier):
    return [{"dim": dim, "kind": kind, "frame": kk, "dyn": dyn, "tier": tier} for dim in (2, 3)
            for kind in "EBS" for kk in range(3) for dyn in FREE]


def plain_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    obs = c10.obstacle(case["kind"], dim, 1, case["frame"])
    dyn, ref = motion(case["dyn"], dim)
    conv = ctx.call("ConvergenceDynamicsWithoutSingularity",
                    mod.ConvergenceDynamicsWithoutSingularity,
                    convergence_dynamics=ref, initial_dynamics=dyn)
    at_obs = dyn.evaluate(obs.center_position)
    center = np.copy(obs.center_position)
    for pos in grid(dim, case["tier"]) + [center] + [
            center + dd * rr for dd in directions(dim, "quick") for rr in (0.1, 0.6, 1.5, 40.0)]:
        ctx.visit(scene_key(case), *np.round(pos, 9))
        gamma = obs.get_gamma(pos, in_global_frame=True)
        weight = ctx.call("evaluate_projected_weight", conv.evaluate_projected_weight, pos, obs)
        ctx.close(weight, 1.0 if gamma <= 1 else 1.0 / gamma, "weight of the obstacle", 1e-9)
        got = ctx.call("evaluate_convergence_around_obstacle",
                       conv.evaluate_convergence_around_obstacle, pos, obs)
        ctx.close(got, at_obs, "motion at the obstacle", 1e-12)
        seq = ctx.call("evaluate_convergence_sequence_around_obstacle",
                       conv.evaluate_convergence_sequence_around_obstacle, pos, obs, None)
        ctx.close(seq.get_end_vector(), lib.unit(at_obs), "sequence of the obstacle", 1e-7)
        for name, args in (("evaluate_rotation_position_to_transform", (pos, obs)),
                           ("evaluate_rotation_start_to_end", (pos, center, pos))):
            rotation = ctx.call(name, getattr(conv, name), *args)
            for dd in directions(dim, "quick")[:5]:
                ctx.close(rotation.rotate(dd), dd, "no rotation without singularity", 1e-9)
        ctx.close(conv.get_base_convergence(pos), ref.evaluate(pos), "base convergence", 1e-12)


# ------------------------------------------------------------------ exactly opposite of obstacles
def axes(dim):
    return [sign * np.eye(dim)[kk] for kk in range(dim) for sign in (1.0, -1.0)]


def line_cases(tier):
    return [{"dim": dim, "places": list(places), "dyn": dyn, "tier": tier} for dim in (2, 3)
            for nn in (1, 2, 3) for places in itertools.combinations(range(2 * dim), nn)
            for dyn in ("limited", "turned", "spiral")
            if tier != "quick" or dim == 2 or nn == 1 or (
                nn == 2 and (dyn == "turned" or places[0] // 2 == places[1] // 2))]


def lines(dim):
    """Positions exactly on the axes and diagonals through the attractor."""
    dirs = [dd for dd in itertools.product((-1.0, 0.0, 1.0), repeat=dim) if np.any(dd)]
    return [np.array(dd) * rr for dd in dirs for rr in (0.25, 1.0, 1.5, 3.0, 4.5, 16.0)]


def line_scene(case):
    """Obstacles on the axes through the attractor at the origin."""
    from dynamic_obstacle_avoidance.obstacles import Ellipse
    dim = case["dim"]
    obstacles = [Ellipse(center_position=3.0 * axes(dim)[kk],
                         axes_length=np.array([[0.5, 0.8, 0.6], [0.9, 0.4, 0.7]][nn % 2][:dim]))
                 for nn, kk in enumerate(case["places"])]
    speed, turn = {"limited": (1.0, 0.0), "turned": (0.7, 0.6), "spiral": (1.0, -1.2)}[case["dyn"]]
    dyn = c10.Turned(np.zeros(dim), turn, maximum=speed)
    dyn.attractor = dyn.attractor_position
    return obstacles, dyn


def line_check(ctx, case, obstacles, dyn, avoiders, method):
    for pos in lines(case["dim"]):
        if not outside(obstacles, pos, 1.001):
            continue
        ctx.visit(scene_key(case), method, *pos)
        first = None
        for one in avoiders:
            vel = ctx.finite(ctx.call(method, getattr(one, method), pos.copy()), "velocity")
            ctx.require(np.linalg.norm(vel) <= np.linalg.norm(dyn.evaluate(pos)) * (1 + 1e-9),
                        "never faster than the initial motion")
            first = vel if first is None else first
            ctx.close(vel, first, "order of the obstacles does not matter", 1e-6)
        # Where the motion all around is the same, it is not different at the position itself
        around = [ctx.call(method, getattr(avoiders[0], method), pos + step)
                  for step in 1e-6 * np.array(axes(case["dim"]))]
        if np.max(np.abs(np.array(around) - around[0])) < 1e-3:
            ctx.close(first, around[0], "no jump at single positions", 2e-3)
            ctx.outcome("smooth")
        ctx.outcome(*np.round(first, 2))


def line_run(ctx, case):
    mod = ctx.load(MOD)
    obstacles, dyn = line_scene(case)
    proj = ctx.load("nonlinear_avoidance.dynamics.projected_rotation_dynamics")
    avoiders = []
    for oo in itertools.permutations(obstacles):
        conv = ctx.call("ProjectedRotationDynamics", proj.ProjectedRotationDynamics,
                        attractor_position=np.zeros(case["dim"]), initial_dynamics=dyn)
        avoiders.append(make(ctx, mod, list(oo), dyn, None, conv))
    for method in ("evaluate", "evaluate_sequence"):
        line_check(ctx, case, obstacles, dyn, avoiders, method)


FAMILIES = [Family("field", field_cases, field_run),
            Family("surface", field_cases, surface_run),
            Family("no obstacles", free_cases, free_run),
            Family("without singularity", plain_cases, plain_run),
            Family("opposite of obstacles", line_cases, line_run)]
