"""C12: complete trajectories (the robot follows the avoiding velocity)."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks import c10, c11
from mc.checks.c10 import outside, scene_key

SCENES = {2: ("single", "box", "angle", "triple", "chain", "arch", "two", "three"),
          3: ("single", "box", "angle", "two")}


def starts(dim, tier):
    if dim == 2:
        xs = np.linspace(-5.03, 5.07, 5 if tier == "quick" else 9)
        return [np.array(pp) for pp in itertools.product(xs, repeat=2)]
    xs = np.linspace(-4.03, 4.07, 2 if tier == "quick" else 4)
    return [np.array(pp) for pp in itertools.product(xs, repeat=3)]


def radii(tier):
    return (math.pi / 2,) if tier == "quick" else (math.pi / 2, 0.75 * math.pi)


def cases_of(motions):
    def cases(tier):
        return [{"dim": dim, "scene": name, "frame": kk, "dyn": dyn, "radius": radius,
                 "start": ss, "tier": tier}
                for dim in (2, 3) for name in SCENES[dim] for kk in range(2) for dyn in motions
                for radius in radii(tier) for ss in range(len(starts(dim, tier)))
                if tier != "quick" or kk == 0 or (ss + len(dyn)) % 2]
    return cases


def clear(ctx, comps, pos, limit, path):
    for obs in comps:
        gamma = obs.get_gamma(pos, in_global_frame=True)
        ctx.require(gamma >= limit, "never enters an obstacle",
                    lambda: f"{np.round(pos, 4)} gamma {gamma} after {len(path)} steps")


def follow(ctx, case, avoider, comps, step, n_steps, goal):
    pos = starts(case["dim"], case["tier"])[case["start"]]
    if not outside(comps, pos, 1.02):
        return None
    path = []
    for _ in range(n_steps):
        ctx.visit(scene_key(case), *np.round(pos, 6))
        vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos),
                         "velocity")
        path.append(pos)
        pos = pos + step * vel
        clear(ctx, comps, pos, 0.97, path)
        if goal is not None and np.linalg.norm(pos - goal) < 0.15:
            break
    ctx.outcome(*np.round(pos, 1))
    return pos


def straight_run(ctx, case):
    mod = ctx.load(c11.AVOID)
    obstacles = c11.trees(case["scene"], case["dim"], case["frame"])
    dyn, ref = c11.dynamics(case["dyn"], case["dim"])
    avoider = c11.make(ctx, mod, obstacles, dyn, ref, case["radius"])
    quick = case["tier"] == "quick"
    goal = dyn.attractor_position
    pos = follow(ctx, case, avoider, c11.parts(obstacles), 0.1 if quick else 0.05,
                 400 if quick else 800, goal)
    ctx.require(pos is None or np.linalg.norm(pos - goal) < 0.15, "reaches the attractor",
                lambda: f"stops at {pos}")


def deviating_run(ctx, case):
    mod = ctx.load(c11.AVOID)
    obstacles = c11.trees(case["scene"], case["dim"], case["frame"])
    dyn, ref = c11.dynamics(case["dyn"], case["dim"])
    avoider = c11.make(ctx, mod, obstacles, dyn, ref, case["radius"])
    quick = case["tier"] == "quick"
    follow(ctx, case, avoider, c11.parts(obstacles), 0.1 if quick else 0.05,
           90 if quick else 300, None)


# ------------------------------------------------------------------------------ rotational avoider
def rotational_cases(tier):
    return [{"dim": dim, "set": name, "frame": kk, "dyn": dyn, "conv": conv, "start": ss,
             "tier": tier}
            for dim in (2, 3) for name in ("one", "box", "two", "room") for kk in range(2)
            for dyn, conv in (("limited", None), ("turned", "limited"), ("spiral", "limited"))
            for ss in range(len(starts(dim, tier)))]


def rotational_run(ctx, case):
    mod = ctx.load(c10.ROT)
    dim = case["dim"]
    obstacles = [c10.obstacle(kind, dim, idx, case["frame"])
                 for idx, kind in enumerate(c10.SETS[case["set"]])]
    dyn = c10.dynamics(case["dyn"], dim)
    conv = case["conv"] and c10.dynamics(case["conv"], dim)
    avoider = c10.make(ctx, mod, obstacles, dyn, conv)
    quick = case["tier"] == "quick"
    pos = starts(dim, case["tier"])[case["start"]] * 0.6
    if not outside(obstacles, pos, 1.02):
        return
    path = []
    step = 0.1 if quick else 0.05
    for _ in range(int(12 / step) if case["dyn"] != "limited" else int(40 / step)):
        ctx.visit(scene_key(case), *np.round(pos, 6))
        vel = ctx.finite(ctx.call("evaluate", avoider.evaluate, pos), "velocity")
        path.append(pos)
        pos = pos + step * vel
        clear(ctx, obstacles, pos, 0.97, path)
        if np.linalg.norm(pos - dyn.attractor_position) < 0.15:
            break
    ctx.require(case["dyn"] != "limited" or np.linalg.norm(pos - dyn.attractor_position) < 0.15,
                "reaches the attractor", lambda: f"stops at {pos}")
    ctx.outcome(*np.round(pos, 1))


# ------------------------------------------------------------------------------ moving obstacles
MOVES = [((0.0, 0.0, 0.0), 0.0), ((-0.8, 0.3, 0.1), 0.0), ((0.5, -0.6, 0.2), 0.6),
         ((0.0, 1.2, -0.3), -0.9)]


def moving_cases(tier):
    depth = 3 if tier == "quick" else 4
    return [{"dim": dim, "scene": name, "moves": list(mm), "start": ss, "dyn": dyn, "tier": tier}
            for dim in (2, 3) for name in ("single", "box", "angle")
            for dyn in ("limited", "constant") for ss in range(2)
            for mm in itertools.product(range(len(MOVES)), repeat=depth)
            if dim == 2 or tier != "quick" or mm[-1] == mm[0]]


def moving_run(ctx, case):
    """All histories of the velocity of the obstacle, which changes every few steps."""
    from scipy.spatial.transform import Rotation
    from vartools.states import Pose, Twist
    mod = ctx.load(c11.AVOID)
    dim = case["dim"]
    tree, = c11.trees(case["scene"], dim, 1)
    dyn, ref = c11.dynamics(case["dyn"], dim)
    avoider = c11.make(ctx, mod, [tree], dyn, ref)
    pos = np.array([(-2.4, -1.1, 0.2), (0.9, 2.6, -0.4)][case["start"]][:dim])
    comps = list(tree)
    if not outside(comps, pos, 1.02):
        return
    step = 0.05
    center = tree.pose.position.copy()
    mat = lib.pose_matrix(tree.pose)
    path = []
    for kk, move in enumerate(case["moves"]):
        lin = np.array(MOVES[move][0][:dim])
        ang = MOVES[move][1]
        axis = lib.unit([0.3, -0.5, 1.0])
        tree.twist = Twist(lin, ang if dim == 2 else ang * axis)
        for _ in range(8):
            ctx.visit(dim, case["scene"], case["dyn"], case["start"],
                      tuple(case["moves"][:kk + 1]), len(path))
            vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos),
                             "velocity")
            path.append(pos)
            pos = pos + step * vel
            turn = lib.rot2(ang * step) if dim == 2 else \
                Rotation.from_rotvec(axis * ang * step).as_matrix()
            center, mat = center + lin * step, turn @ mat
            ctx.call("update_pose", tree.update_pose, Pose(
                center.copy(), math.atan2(mat[1, 0], mat[0, 0]) if dim == 2
                else Rotation.from_matrix(mat)))
            clear(ctx, comps, pos, 0.96, path)
    ctx.outcome(*np.round(pos, 1))


# ------------------------------------------------------------------------------ turning obstacles
def turning_cases(tier):
    n_dir = {2: 8 if tier == "quick" else 24, 3: 10 if tier == "quick" else 26}
    return [{"dim": dim, "scene": name, "dyn": dyn, "ang": ang, "axis": axis, "start": ss,
             "tier": tier}
            for dim in (2, 3) for name in ("single", "box", "angle") for dyn in ("limited", "constant")
            for ang in (-1.5, 0.8, 1.5) for axis in range(1 if dim == 2 else 2)
            for ss in range(n_dir[dim])
            if dim == 2 or tier != "quick" or dyn == "limited" or ang == 1.5]


def turning_run(ctx, case):
    """An obstacle that turns in place sweeps the robot, which starts next to it, along."""
    from scipy.spatial.transform import Rotation
    from vartools.states import Pose, Twist
    mod = ctx.load(c11.AVOID)
    dim = case["dim"]
    tree, = c11.trees(case["scene"], dim, 1)
    dyn, ref = c11.dynamics(case["dyn"], dim)
    avoider = c11.make(ctx, mod, [tree], dyn, ref)
    comps = list(tree)
    dirs = c10.directions(dim, "quick")
    direction = dirs[case["start"] * (3 if dim == 2 else 1) % len(dirs)]
    center = tree.pose.position.copy()
    pos = center.copy()
    while not outside(comps, pos, 1.1):
        pos = pos + 0.05 * direction
    ang = case["ang"]
    axis = lib.unit([[0.3, -0.5, 1.0], [1.0, 0.2, -0.1]][case["axis"]])
    tree.twist = Twist(np.zeros(dim), ang if dim == 2 else ang * axis)
    mat = lib.pose_matrix(tree.pose)
    step = 0.04 / abs(ang)
    turn = lib.rot2(ang * step) if dim == 2 else \
        Rotation.from_rotvec(axis * ang * step).as_matrix()
    path = []
    for _ in range(40 if case["tier"] == "quick" else 80):
        ctx.visit(scene_key(case), *np.round(pos, 6))
        vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos),
                         "velocity")
        path.append(pos)
        pos = pos + step * vel
        mat = turn @ mat
        ctx.call("update_pose", tree.update_pose, Pose(
            center.copy(), math.atan2(mat[1, 0], mat[0, 0]) if dim == 2
            else Rotation.from_matrix(mat)))
        clear(ctx, comps, pos, 0.96, path)
    ctx.outcome(*np.round(pos, 1))


FAMILIES = [Family("straight", cases_of(("limited",)), straight_run),
            Family("deviating", cases_of(("turned", "spiral", "weave")), deviating_run),
            Family("rotational", rotational_cases, rotational_run),
            Family("moving obstacle", moving_cases, moving_run),
            Family("turning obstacle", turning_cases, turning_run)]
