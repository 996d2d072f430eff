"""C28: the direction to which the avoidance of trees of obstacles converges."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import Turned, directions, grid, outside, scene_key, surface
from mc.checks.c11 import (AVOID, FRAMES, dynamics, ell, make, moved, parts, snapshot, trees)

SCENES = {2: ("single", "box", "angle", "triple", "chain", "person", "arch", "two", "three"),
          3: ("single", "box", "angle", "two")}
MOTIONS = ("limited", "turned", "spiral", "constant", "weave")


def scenes(tier):
    out = []
    for dim in (2, 3):
        for name, kk, dyn in itertools.product(SCENES[dim], range(len(FRAMES[dim])), MOTIONS):
            if tier == "quick" and name in ("arch", "person", "triple") and (kk + len(dyn)) % 2:
                continue
            out.append({"dim": dim, "scene": name, "frame": kk, "dyn": dyn, "tier": tier})
    return out


def direction(ctx, avoider, pos):
    keep = pos.copy()
    out = ctx.call("compute_convergence_direction", avoider.compute_convergence_direction, pos)
    ctx.finite(out, "direction")
    ctx.close(pos, keep, "position unchanged", 0)
    ctx.close(np.linalg.norm(out), 1.0, "unit length", 1e-9)
    return out


def root_of(tree):
    return tree.get_root().get_reference_point(in_global_frame=True)


def reach(obstacles, dyn):
    """Distance value of each tree at the attractor (none: far away)."""
    att = getattr(dyn, "attractor_position", None)
    return [math.inf if att is None else
            min(comp.get_gamma(att, in_global_frame=True) for comp in tree) for tree in obstacles]


# ---------------------------------------------------------------------- on and in the obstacles
def touch_cases(tier):
    out = [dict(case, fallback=None) for case in scenes(tier)]
    for case in scenes(tier):
        if case["dyn"] in ("limited", "turned"):
            out.append(dict(case, fallback={"limited": "turned", "turned": "limited"}[case["dyn"]]))
    return out


def touch_run(ctx, case):
    """On and within a tree: the motion at its root."""
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    dyn, ref = dynamics(case["dyn"], dim)
    extra = case["fallback"] and dynamics(case["fallback"], dim)[0]
    avoider = make(ctx, mod, obstacles, dyn, ref, default_dynamics=extra)
    for tree, gamma in zip(obstacles, reach(obstacles, dyn)):
        if gamma < 2:
            continue
        exp = lib.unit((extra or dyn).evaluate(root_of(tree)))
        others = [comp for other in obstacles if other is not tree for comp in other]
        for jj, obs in enumerate(tree):
            center = obs.center_position
            for point, _ in surface(obs, directions(dim, case["tier"]), 0.0):
                for part in (1.0, 0.5, 0.05):
                    pos = center + part * (point - center)
                    if not outside(others, pos, 1.02):
                        continue
                    ctx.visit(scene_key(case), jj, *np.round(pos, 9))
                    got = direction(ctx, avoider, pos)
                    # Several parts at once: mean over several ways to get there
                    within = sum(comp.get_gamma(pos, in_global_frame=True) < 1.001
                                 for comp in tree)
                    ctx.require(lib.angle_between(got, exp)
                                < (1e-5 if dim == 2 or within < 2 else 0.05),
                                "motion at the root", lambda: f"{pos} {got} {exp}")
                    ctx.outcome(*np.round(got, 3))


# ---------------------------------------------------------------------- all over the space
def wrap(angle):
    return (angle + math.pi) % (2 * math.pi) - math.pi


def angle_of(vec):
    return math.atan2(vec[1], vec[0])


def lines(obstacles, dyn):
    """Positions on the lines through the attractor and the roots."""
    att = getattr(dyn, "attractor_position", None)
    if att is None:
        return []
    out = []
    for tree in obstacles:
        delta = root_of(tree) - att
        out += [att + kk * delta for kk in (-3.0, -1.0, -0.2, 0.1, 0.5, 1.5, 3.0)]
    return out


def field_run(ctx, case):
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    dyn, ref = dynamics(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref)
    rot = lib.matrix_of(dim, 0.9 if dim == 2 else (0.5, -0.7, 0.3))
    shift = np.array([1.5, -2.0, 0.7][:dim])
    other = make(ctx, mod, trees(case["scene"], dim, case["frame"], rot, shift),
                 moved(dyn, rot, shift), moved(ref, rot, shift))
    orders = [make(ctx, mod, list(perm), dyn, ref)
              for perm in itertools.permutations(obstacles)][1:]
    empty = make(ctx, mod, [], dyn, ref)
    before = snapshot(obstacles)
    roots = [lib.unit(dyn.evaluate(root_of(tree))) for tree in obstacles]
    single = lines(obstacles, dyn)
    history = []
    for kk, pos in enumerate(single + grid(dim, case["tier"])):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        init = dyn.evaluate(pos)
        got = direction(ctx, avoider, pos)
        ctx.close(ctx.call("compute_convergence_direction", other.compute_convergence_direction,
                           rot @ pos + shift), rot @ got,
                  # Straight behind the attractor, rounding decides on which side to turn
                  "does not depend on the frame of reference", 5e-3 if kk < len(single) else 2e-5)
        for perm in orders:
            ctx.close(ctx.call("compute_convergence_direction",
                               perm.compute_convergence_direction, pos), got,
                      "does not depend on the order of the trees",
                      5e-3 if kk < len(single) else 1e-6)
        ctx.close(ctx.call("compute_convergence_direction", empty.compute_convergence_direction,
                           pos), lib.unit(init), "without obstacles: the initial motion", 1e-6)
        if case["dyn"] == "constant":
            ctx.close(got, lib.unit(init), "same direction everywhere", 1e-6)
        if dim == 2:
            # Between the initial motion and the ones at the roots
            turns = [wrap(angle_of(vec) - angle_of(init)) for vec in roots]
            if all(abs(tt) < math.pi - 0.1 for tt in turns):
                turn = wrap(angle_of(got) - angle_of(init))
                ctx.require(min(turns + [0]) - 1e-6 <= turn <= max(turns + [0]) + 1e-6,
                            "between the initial motion and the ones at the roots",
                            lambda: f"{pos} {turn} {turns}")
        if kk < len(single) or kk % 4 == 0:
            around = [ctx.call("compute_convergence_direction",
                               avoider.compute_convergence_direction, pos + ss * 1e-6 * ee)
                      for ee in np.eye(dim) for ss in (-1, 1)]
            if all(np.linalg.norm(vec - around[0]) < 1e-3 for vec in around):
                ctx.close(got, around[0], "no jump at single positions", 2e-3)
        history.append((pos, got))
        ctx.outcome(*np.round(got, 2))
    for pos, got in history[::-1]:
        ctx.close(ctx.call("compute_convergence_direction",
                           avoider.compute_convergence_direction, pos), got,
                  "does not depend on the history", 1e-9)
    for dd, dist in itertools.product(directions(dim, "quick")[::2], (1e3, 1e5, 1e7)):
        pos = dd * dist
        ctx.require(lib.angle_between(direction(ctx, avoider, pos), dyn.evaluate(pos))
                    < 6.0 / math.sqrt(dist), "initial motion far away", lambda: f"{pos}")
    for old, new in zip(before, snapshot(obstacles)):
        for aa, bb in zip(old, new):
            ctx.close(bb, aa, "obstacles are not changed", 0)


# ---------------------------------------------------------------------- attractors near to a tree
def near_cases(tier):
    return [{"dim": dim, "scene": name, "frame": kk, "turn": turn, "side": side, "tier": tier}
            for dim in (2, 3) for name in SCENES[dim] if name != "person"
            for kk in range(len(FRAMES[dim])) for turn in (0.0, 0.6)
            for side in range(3 if tier == "quick" else 8)]


def near_run(ctx, case):
    """The closer the attractor, the less does the tree count; not at all around of it."""
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    # Only one tree, such that no other one counts
    tree = obstacles[0]
    comps = list(tree)
    dirs = directions(dim, "quick")
    heading = dirs[case["side"] * 7 % len(dirs)]
    root = root_of(tree)
    start = tree.get_root().center_position

    def at_gamma(value):
        low, high = 0.0, 50.0
        for _ in range(60):
            mid = 0.5 * (low + high)
            gam = min(comp.get_gamma(start + mid * heading, in_global_frame=True)
                      for comp in comps)
            low, high = (mid, high) if gam < value else (low, mid)
        return start + 0.5 * (low + high) * heading
    points = [point for obs in comps for point, _ in surface(obs, dirs, 0.0)]
    for point in points[::5]:
        last = -1e-6
        for value in (0.5, 0.9, 1.05, 1.3, 1.7, 1.95, 2.05, 4.0):
            attractor = at_gamma(value)
            if np.linalg.norm(attractor - root) < 1e-3:
                continue
            dyn = Turned(attractor, case["turn"], maximum=1.0)
            dyn.attractor = dyn.attractor_position
            ctx.visit(scene_key(case), value, *np.round(point, 9))
            avoider = make(ctx, mod, [tree], dyn, None)
            got = direction(ctx, avoider, point)
            init, goal = dyn.evaluate(point), dyn.evaluate(root)
            full = lib.angle_between(init, goal)
            if value < 1:
                ctx.require(lib.angle_between(got, init) < 1e-5, "attractor within the tree",
                            lambda: f"{point} {got} {init}")
            elif value > 2:
                ctx.require(lib.angle_between(got, goal) < (1e-5 if dim == 2 else 0.05),
                            "attractor away from the tree", lambda: f"{point} {got} {goal}")
            if dim == 2 and 0.2 < full < math.pi - 0.2 and value > 1:
                share = lib.angle_between(got, init) / full
                ctx.require(last - 1e-6 <= share <= 1 + 1e-6,
                            "counts more with an attractor further away",
                            lambda: f"{point} {value} {share} {last}")
                last = share
            ctx.outcome(*np.round(got, 3))


# ---------------------------------------------------------------------- order of the parts
def part_cases(tier):
    return [{"dim": dim, "frame": kk, "dyn": dyn, "order": list(order), "tier": tier}
            for dim in (2, 3) for kk in range(len(FRAMES[dim])) for dyn in MOTIONS
            for order in itertools.permutations(range(3))]


def part_run(ctx, case):
    """Branches of a tree: in whichever order they are added."""
    mod = ctx.load(AVOID)
    dim = case["dim"]
    ori, pos = FRAMES[dim][case["frame"]]
    dyn, ref = dynamics(case["dyn"], dim)

    def build(order):
        from nonlinear_avoidance.multi_obstacle import MultiObstacle
        tree = MultiObstacle(lib.make_pose(pos, ori))
        axes = [3.4, 0.8, 0.9][:dim]
        tree.set_root(ell([0.0] * dim, axes))
        branches = [([-1.2, 0.8, 0.1], [-1.2, 0.0, 0.0]), ([0.2, -0.9, 0.0], [0.2, 0.0, 0.0]),
                    ([1.2, 0.7, -0.1], [1.2, 0.0, 0.0])]
        for ii in order:
            center, point = (np.array(vv[:dim]) for vv in branches[ii])
            tree.add_component(ell(center, [0.7, 2.2, 0.8][:dim]), parent_ind=0,
                               reference_position=point - center)
        return tree
    one = make(ctx, mod, [build((0, 1, 2))], dyn, ref)
    tree = build(case["order"])
    two = make(ctx, mod, [tree], dyn, ref)
    for pos in grid(dim, "quick"):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        ctx.close(direction(ctx, two, pos), direction(ctx, one, pos),
                  "does not depend on the order of the parts", 1e-6)


FAMILIES = [Family("on and in the obstacles", touch_cases, touch_run),
            Family("field", scenes, field_run),
            Family("attractor near to a tree", near_cases, near_run),
            Family("order of the parts", part_cases, part_run)]
