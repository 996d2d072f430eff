"""C27: obstacles which can be entered (a body with pockets and tunnels in it)."""
import functools
import itertools
import math
import types

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

HULL = "nonlinear_avoidance.multi_hull_and_obstacle"

# kind, center, full axes, turn: the body, and the free regions in it
SCENES = {
    "solid": (("box", (0, 0), (2.0, 2.0), 0.0), []),
    "round": (("ellipse", (0, 0), (3.0, 2.0), 0.4), []),
    "pocket": (("box", (0, 0), (2.0, 2.0), 0.0), [("ellipse", (0.8, 0), (1.5, 1.0), 0.0)]),
    "small": (("box", (0, 0), (2.0, 2.0), 0.0), [("ellipse", (0.9, 0.2), (0.8, 0.7), 0.0)]),
    "bent": (("box", (0, 0), (2.0, 2.0), 0.0), [("ellipse", (0.5, -0.4), (1.5, 0.5), 0.0),
                                               ("ellipse", (-0.2, 0.1), (1.0, 1.2), 0.0)]),
    "bowl": (("ellipse", (0, 0), (4.0, 3.0), 0.0), [("ellipse", (0, 0.9), (2.2, 1.8), 0.0)]),
    "trough": (("box", (0, 0), (4.0, 2.0), 0.0), [("box", (0, 0.4), (3.2, 2.0), 0.0)]),
    "tunnel": (("box", (0, 0), (3.0, 2.0), 0.0), [("ellipse", (-1.0, 0.1), (1.9, 0.8), 0.0),
                                                 ("ellipse", (0.9, -0.1), (2.2, 0.8), 0.0)]),
    "deep": (("box", (0, 0), (4.0, 3.0), 0.0), [("ellipse", (1.5, 0.5), (1.9, 0.7), 0.2),
                                               ("ellipse", (0.3, 0.1), (1.9, 0.8), 0.4),
                                               ("ellipse", (-0.9, -0.3), (1.6, 1.4), 0.0)]),
    "branch": (("box", (0, 0), (4.0, 4.0), 0.0), [("ellipse", (0, 0), (1.6, 1.6), 0.0),
                                                 ("ellipse", (1.3, 0.2), (2.0, 0.7), 0.0),
                                                 ("ellipse", (-0.2, 1.3), (0.7, 2.0), 0.0),
                                                 ("ellipse", (-1.0, -0.6), (1.4, 0.6), 0.5)]),
}
SCENES["hall"] = (("box", (0, 0), (5.0, 3.0), 0.0), [("ellipse", (-1.9, 0.4), (2.0, 0.8), 0.0),
                                                    ("ellipse", (-0.7, 0.2), (1.4, 1.0), 0.0),
                                                    ("ellipse", (0.4, 0.9), (2.4, 0.9), 0.0),
                                                    ("ellipse", (0.4, -0.7), (2.4, 1.2), 0.0),
                                                    ("ellipse", (1.9, 0.3), (2.2, 1.6), 0.2)])
SCENES["ring"] = (("box", (0, 0), (6.0, 6.0), 0.0), [("ellipse", (-1.5, 0), (1.2, 2.6), 0.0),
                                                    ("ellipse", (-0.5, -0.8), (1.6, 0.8), 0.0),
                                                    ("ellipse", (0.5, -0.8), (1.2, 0.8), 0.0),
                                                    ("ellipse", (0, 1.4), (4.2, 2.0), 0.0),
                                                    ("ellipse", (1.5, 0), (1.4, 2.6), 0.0),
                                                    ("ellipse", (2.6, 0), (1.8, 0.6), 0.0)])
SCENES["pockets"] = (("box", (0, 0), (4.0, 2.0), 0.0), [("ellipse", (-1.5, 0.1), (1.8, 1.2), 0.0),
                                                       ("ellipse", (1.6, -0.1), (1.6, 1.0), 0.0)])
# Positions in several regions
COMMON = {"tunnel": [[-0.1, 0.0]], "branch": [[0.5, 0.1], [-0.1, 0.6]],
          "hall": [[0.75, 1.0], [-1.2, 0.3], [0.95, -0.4], [-0.3, 0.5]]}
ORDERS = {"hall": 13, "branch": 5, "ring": 103}
OUTSIDE = ((3.1, 0.2), (-3.2, 0.3), (0.3, 3.2), (0.2, -3.2))
FRAMES = (((0.0, 0.0), 0.0), ((4.0, -3.0), 0.0), ((0.0, 0.0), 1.1), ((-1.5, 2.0), -2.3))
# Straight motion towards an attractor behind the opening gets stuck in it
TRAPS = ("trough", "bowl")


def shape(part, boundary):
    from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes
    kind, center, axes, turn = part
    return {"box": CuboidXd, "ellipse": EllipseWithAxes}[kind](
        center_position=np.array(center, dtype=float), axes_length=np.array(axes),
        orientation=turn, is_boundary=boundary)


def build(ctx, scene, frame=0, order=None):
    mod = ctx.load(HULL)
    outer, inner = SCENES[scene]
    shift, turn = FRAMES[frame]
    order = range(len(inner)) if order is None else order
    obs = ctx.call("MultiHullAndObstacle", mod.MultiHullAndObstacle,
                   outer_obstacle=shape(outer, False),
                   inner_obstacles=[shape(inner[kk], True) for kk in order],
                   center_position=np.array(shift), orientation=turn)
    ctx.call("evaluate_hirarchy_and_reference_points", obs.evaluate_hirarchy_and_reference_points)
    return obs


def level(part, position):
    """Below one inside of the shape, independent of the obstacles."""
    kind, center, axes, turn = part
    local = lib.rot2(turn).T @ (np.array(position) - center) / (0.5 * np.array(axes))
    return float(np.max(np.abs(local)) if kind == "box" else np.linalg.norm(local))


def free(scene, position, margin=0.0):
    """In free space by a margin (True), in the wall by a margin (False), too close (None)."""
    outer, inner = SCENES[scene]
    best = max([level(outer, position) - 1] + [1 - level(pp, position) for pp in inner])
    return None if abs(best) <= margin else best > 0


def depths(obs, position):
    """How far in the free regions (in the frame of the obstacle), the outside last."""
    return np.array([max(0.0, part.get_gamma(position, in_global_frame=True) - 1)
                     for part in list(obs.inner_obstacles) + [obs.outer_obstacle]])


def grid(num, size=3.2):
    return [np.array([xx + 0.013, yy + 0.007]) for xx in np.linspace(-size, size, num)
            for yy in np.linspace(-size, size, num)]


def goals(scene):
    """(Not exactly at the centers, where the way around the wall is not defined.)"""
    return [list(pp) for pp in OUTSIDE] + [[pp[1][0] + 0.07, pp[1][1] + 0.05]
                                           for pp in SCENES[scene][1]]


def evaluate(ctx, obs, position):
    return ctx.finite(ctx.call("evaluate", obs.evaluate, position.copy()), "velocity")


# --- Free space
def space_cases(tier):
    return [{"scene": ss, "frame": ff, "tier": tier} for ss in SCENES for ff in range(len(FRAMES))]


def space_run(ctx, case):
    scene = case["scene"]
    obs = build(ctx, scene, case["frame"])
    shift, turn = FRAMES[case["frame"]]
    mat = lib.rot2(turn)
    ctx.require(obs.dimension == 2 and obs.n_elements == 1 + len(SCENES[scene][1]), "parts", "")
    ctx.call("set_attractor", obs.set_attractor, np.array([3.1, 0.2]))
    for pos in grid(25 if case["tier"] == "quick" else 61):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        state = free(scene, pos, 1e-6)
        if state is None:
            continue
        there = mat @ pos + shift
        ctx.require(ctx.call("is_inside", obs.is_inside, there, in_global_frame=True) == (not state),
                    "collision", lambda: f"{pos} {state}")
        ctx.require(ctx.call("is_inside", obs.is_inside, pos, in_global_frame=False) == (not state),
                    "collision in the frame of the obstacle", lambda: f"{pos} {state}")
        depth = depths(obs, pos)
        ctx.require(bool(np.any(depth > 0)) == state, "depth in free space", lambda: f"{pos} {depth}")
        if not state:
            ctx.close(evaluate(ctx, obs, there), np.zeros(2), "at rest within the wall", 0)
        ctx.outcome(state, *np.round(depth, 0))


def connections(obs):
    """The connections which were found (if they are stored as expected)."""
    graph = getattr(obs, "_graph", None)
    if graph is None or not hasattr(graph, "edges"):
        return None
    found = list(graph.edges(data=True))
    return found if all("intersection" in dd and "distance" in dd for _, _, dd in found) else None


# --- Ways through the obstacle
def graph_cases(tier):
    return [{"scene": ss, "order": list(oo), "tier": tier} for ss in SCENES
            for oo in list(itertools.permutations(range(len(SCENES[ss][1]))))[::
                ORDERS.get(ss, 1) if tier == "quick" else 1]]


@functools.lru_cache(maxsize=None)
def overlap(scene, aa, bb):
    """Deepest common position of two free regions on a grid."""
    outer, inner = SCENES[scene]
    pos = np.array(grid(141, 3.7))

    def depth(name):
        kind, center, axes, turn = outer if name == "outside" else inner[name]
        local = (pos - center) @ lib.rot2(turn) / (0.5 * np.array(axes))
        value = np.max(np.abs(local), axis=1) if kind == "box" else np.linalg.norm(local, axis=1)
        return value - 1 if name == "outside" else 1 - value
    return float(np.max(np.minimum(depth(aa), depth(bb))))


def graph_run(ctx, case):
    scene = case["scene"]
    outer, inner = SCENES[scene]
    obs = build(ctx, scene, 0, case["order"])
    parts = list(obs.inner_obstacles)
    graph = connections(obs)
    if graph is None:
        return
    found = {}
    for aa, bb, data in graph:
        key = frozenset("outside" if isinstance(nn, (int, np.integer)) else case["order"][parts.index(nn)]
                        for nn in (aa, bb))
        ctx.require(len(key) == 2 and key not in found, "one connection", f"{key}")
        found[key] = (np.array(data["intersection"]), data["distance"])
    for aa, bb in itertools.combinations(list(range(len(inner))) + ["outside"], 2):
        ctx.visit(scene_key(case), aa, bb)
        depth = [(lambda pp: level(outer, pp) - 1) if kk == "outside" else
                 (lambda pp, part=inner[kk]: 1 - level(part, pp)) for kk in (aa, bb)]
        common = overlap(scene, aa, bb)
        key = frozenset((aa, bb))
        if common < 0:
            ctx.require(key not in found, "no connection of what does not meet", f"{aa} {bb}")
        elif common > 0.08:
            ctx.require(key in found, "connection of what overlaps", f"{aa} {bb} {common}")
        if key in found:
            point, dist = found[key]
            ctx.require(min(dd(point) for dd in depth) > 0, "connecting position in both regions",
                        f"{aa} {bb} {point}")
            length = sum(np.linalg.norm(point - inner[kk][1]) for kk in (aa, bb) if kk != "outside")
            ctx.close(dist, length, "length of the connection", 1e-9)


# --- Motion
def field_cases(tier):
    return [{"scene": ss, "goal": gg, "tier": tier} for ss in SCENES for gg in goals(ss)]


def field_run(ctx, case):
    scene, goal = case["scene"], np.array(case["goal"], dtype=float)
    outer, inner = SCENES[scene]
    obs = build(ctx, scene)
    keep = goal.copy()
    ctx.call("set_attractor", obs.set_attractor, goal)
    ctx.close(obs.get_attractor(), keep, "attractor", 1e-12)
    frames = []
    for kk in range(1, len(FRAMES)):
        other = build(ctx, scene, kk)
        shift, turn = FRAMES[kk]
        ctx.call("set_attractor", other.set_attractor, lib.rot2(turn) @ goal + shift,
                 in_global_frame=True)
        frames.append((other, lib.rot2(turn), np.array(shift)))
    # Another attractor before
    again = build(ctx, scene)
    for past in ((2.5, -2.5), goals(scene)[-1]):
        ctx.call("set_attractor", again.set_attractor, np.array(past, dtype=float))
        again.evaluate(np.array([-2.4, 2.6]))
    ctx.call("set_attractor", again.set_attractor, goal.copy())
    spots = [pp for pp in grid(9 if case["tier"] == "quick" else 25) if free(scene, pp, 1e-3)]
    spots += [goal + dd * dist for dd in lib.circle(4, 0.3) for dist in (1e-6, 0.05, 0.3)
              if free(scene, goal + dd * dist, 1e-3)]
    outline = []
    for part, sign in [(outer, 1)] + [(pp, -1) for pp in inner]:
        kind, center, axes, turn = part
        for dd in lib.circle(24 if case["tier"] == "quick" else 96, 0.07):
            if kind == "box" and np.ptp(np.abs(dd) / np.max(np.abs(dd))) < 0.05:
                continue
            pos = np.array(center) + lib.rot2(turn) @ (dd * np.array(axes))
            pos = np.array(center) + (pos - center) / level(part, pos) * (1 + sign * 1e-6)
            others = [level(outer, pos) - 1] + [1 - level(pp, pos) for pp in inner]
            del others[0 if part is outer else 1 + inner.index(part)]
            if not others or max(others) < -1e-3:
                step = 1e-4
                slope = np.array([level(part, pos + ee) - level(part, pos - ee)
                                  for ee in step * np.eye(2)])
                outline.append((pos, sign * lib.unit(slope)))
    for pos, normal in [(pp, None) for pp in spots] + outline:
        ctx.visit(scene_key(case), *np.round(pos, 9))
        start = pos.copy()
        vel = evaluate(ctx, obs, pos)
        ctx.close(pos, start, "position unchanged", 0)
        ctx.require(np.linalg.norm(vel) <= 1 + 1e-9, "bounded speed", lambda: f"{pos} {vel}")
        if normal is not None:
            # (the distances within a region are much larger for positions close to its center)
            ctx.require(vel @ normal > -1e-3, "never into the wall", lambda: f"{pos} {vel} {normal}")
        for other, mat, shift in frames:
            ctx.close(evaluate(ctx, other, mat @ pos + shift), mat @ vel, "same in another frame", 1e-6)
        if scene not in ("tunnel", "branch", "bent", "hall", "ring") or level(outer, pos) < 1:
            # With several entrances: the one which is closest to the first position outside
            ctx.close(evaluate(ctx, again, pos), vel, "same as without previous attractor", 1e-9)
        depth = depths(obs, pos)
        if depth[-1] > 0 and np.count_nonzero(depth) == 1 and level(outer, goal) > 1:
            dist = np.linalg.norm(goal - pos)
            ctx.close(np.linalg.norm(vel), min(1.0, dist), "slows down at the attractor", 1e-6)
            if depth[-1] > 50:
                ctx.close(vel, (goal - pos) / max(1, dist), "straight far away", 0.1)
        ctx.outcome(*np.round(vel, 1))
    ctx.close(evaluate(ctx, obs, goal), np.zeros(2), "at rest at the attractor", 1e-9)
    ctx.close(goal, keep, "attractor unchanged", 0)


def follow_run(ctx, case):
    scene, goal = case["scene"], np.array(case["goal"], dtype=float)
    inside = level(SCENES[scene][0], goal) < 1
    step = 0.04
    for start in grid(6 if case["tier"] == "quick" else 13, 2.9):
        if not free(scene, start, 1e-3):
            continue
        obs = build(ctx, scene)
        obs.set_attractor(goal)
        pos = start.copy()
        for _ in range(750):
            vel = evaluate(ctx, obs, pos)
            pos = pos + step * vel
            ctx.require(free(scene, pos, 0.03) is not False, "stays in free space",
                        lambda: f"{start} {pos} {vel}")
            if np.linalg.norm(pos - goal) < 0.1:
                break
        ctx.visit(scene_key(case), *start)
        if inside or scene not in TRAPS:
            ctx.require(np.linalg.norm(pos - goal) < 0.1, "arrival", lambda: f"{start} {pos}")


# --- Attractors within the wall, and sets of obstacles
def set_cases(tier):
    return [{"goal": gg, "frame": ff, "num": nn, "tier": tier} for gg in goals("pocket")
            for ff in range(len(FRAMES)) for nn in (1, 2, 3)]


def set_run(ctx, case):
    mod = ctx.load(HULL)
    goal = np.array(case["goal"], dtype=float)
    parts, alone = [], []
    for kk in range(case["num"]):
        name = ("pocket", "solid", "bowl")[kk]
        parts.append(build(ctx, name, (case["frame"] + kk) % len(FRAMES)))
        alone.append(build(ctx, name, (case["frame"] + kk) % len(FRAMES)))
    cont = ctx.call("MultiRotationalContainer", mod.MultiRotationalContainer)
    for part in parts:
        ctx.call("append", cont.append, part)
    for shift in (0.0, 0.6, 0.6, -0.3):
        place = lib.rot2(FRAMES[case["frame"]][1]) @ goal + FRAMES[case["frame"]][0] + shift
        ctx.call("set_dynamics", cont.set_dynamics, types.SimpleNamespace(attractor_position=place))
        for part in alone:
            part.set_attractor(place.copy(), in_global_frame=True)
        for pos in grid(5, 6.0):
            ctx.visit(scene_key(case), shift, *pos)
            vel = ctx.call("evaluate", cont.evaluate, pos)
            ctx.close(vel, np.mean([part.evaluate(pos) for part in alone], axis=0),
                      "mean of all obstacles", 1e-9)


def trough_cases(tier):
    return [{"length": ll, "height": hh, "wall": ww, "tier": tier} for ll in (2.0, 4.0)
            for hh in (1.5, 2.0) for ww in (0.2, 0.4)]


def trough_run(ctx, case):
    mod = ctx.load(HULL)
    length, height, wall = case["length"], case["height"], case["wall"]
    obs = ctx.call("create_u_shape_obstacle", mod.create_u_shape_obstacle, length, height, wall)
    ctx.call("hierarchy", obs.evaluate_hirarchy_and_reference_points)
    for pos in grid(25 if case["tier"] == "quick" else 61, 2.5):
        ctx.visit(scene_key(case), *np.round(pos, 9))
        xx, yy = abs(pos[0]) - 0.5 * length, pos[1]
        body = xx < 0 and abs(yy) < 0.5 * height
        pocket = xx < -wall and yy > wall - 0.5 * height
        ctx.require(obs.is_inside(pos) == (body and not pocket), "U-shape", lambda: f"{pos}")


def weight_cases(tier):
    return [{"scene": ss, "power": pp, "tier": tier} for ss in SCENES if SCENES[ss][1]
            for pp in (0.5, 1.5, 3.0)]


def weight_run(ctx, case):
    """How much an opening counts in the wall."""
    mod = ctx.load(HULL)
    outer, inner = SCENES[case["scene"]]
    obs = build(ctx, case["scene"])
    body = obs.outer_obstacle
    for part in obs.inner_obstacles:
        for pos in grid(17 if case["tier"] == "quick" else 41, 2.2):
            ctx.visit(scene_key(case), *np.round(pos, 9))
            value = ctx.call("get_boundary_intersection_weight", mod.get_boundary_intersection_weight,
                             pos, part, body, power_factor=case["power"])
            within = part.get_gamma(pos, in_global_frame=True)
            around = body.get_gamma(pos, in_global_frame=True)
            if within <= 1 or around >= 1:
                ctx.close(value, 0, "no weight out of the opening", 0)
                continue
            edge = part.get_gamma(body.get_point_on_surface(pos, in_global_frame=True),
                                  in_global_frame=True)
            expected = 1.0 if edge <= 1 else (1 / edge) ** (around * case["power"])
            ctx.close(value, expected, "weight of the opening", 1e-9)
            ctx.require(0 <= value <= 1, "weight between 0 and 1", f"{value}")


def wall_cases(tier):
    return [{"scene": ss, "tier": tier} for ss in SCENES]


def wall_run(ctx, case):
    """Attractors in the wall: the motion leads to the region whose outline is closest."""
    scene = case["scene"]
    for goal in grid(13 if case["tier"] == "quick" else 25, 1.9):
        if free(scene, goal, 1e-3) is not False:
            continue
        obs = build(ctx, scene)
        ctx.call("set_attractor", obs.set_attractor, goal.copy())
        values = [part.get_gamma(goal, in_global_frame=True)
                  for part in list(obs.inner_obstacles) + [obs.outer_obstacle]]
        order = np.argsort(values)[::-1]
        ctx.visit(scene_key(case), *goal)
        ctx.close(obs.get_attractor(), goal, "attractor", 1e-12)
        if len(values) > 1 and values[order[0]] - values[order[1]] < 1e-6:
            continue
        # Where the walls of this region are far away
        part = (list(obs.inner_obstacles) + [None])[order[0]]
        for dd in lib.circle(6, 0.2):
            pos = 500 * dd if part is None else np.array(part.center_position) + 0.002 * dd
            vel = evaluate(ctx, obs, pos)
            ctx.close(lib.unit(vel), lib.unit(goal - pos), "towards the attractor in the wall", 0.1)


def shortest(edges, source):
    """Lengths of the shortest ways (and the first steps) from one of the regions."""
    found = {source: (0.0, ())}
    for _ in edges:
        for (aa, bb), (_, length) in edges.items():
            for one, two in ((aa, bb), (bb, aa)):
                if one in found and (two not in found
                                     or found[one][0] + length < found[two][0] - 1e-12):
                    found[two] = (found[one][0] + length, found[one][1] + (two,))
    return found


def route_cases(tier):
    return [{"scene": ss, "goal": gg, "order": list(oo)} 
            for ss in ("tunnel", "branch", "bent", "hall", "pockets", "ring")
            for gg in goals(ss) + COMMON.get(ss, [])
            for oo in list(itertools.permutations(range(len(SCENES[ss][1]))))[::
                ORDERS.get(ss, 1) if tier == "quick" else 1]]


def route_run(ctx, case):
    """The shortest way leads through the connections of the regions."""
    scene, goal, order = case["scene"], np.array(case["goal"], dtype=float), case["order"]
    outer, inner = SCENES[scene]
    obs = build(ctx, scene, 0, order)
    graph = connections(obs)
    if graph is None:
        return
    parts = list(obs.inner_obstacles)
    edges = {}
    for aa, bb, data in graph:
        names = tuple(f"entrance {nn}" if isinstance(nn, (int, np.integer)) else parts.index(nn)
                      for nn in (aa, bb))
        edges[names] = (np.array(data["intersection"]), data["distance"])

    def connection(aa, bb):
        return edges[(aa, bb) if (aa, bb) in edges else (bb, aa)][0]

    entrances = {nn: point for names, (point, _) in edges.items() for nn in names
                 if isinstance(nn, str)}
    outside = level(outer, goal) > 1
    targets = [kk for kk in range(len(parts)) if level(inner[order[kk]], goal) < 1]
    for pos in grid(11, 2.9):
        if not free(scene, pos, 1e-3):
            continue
        depth = depths(obs, pos)
        here = np.flatnonzero(depth > 0)
        if len(here) > 1 or here[0] in targets or (outside and here[0] == len(parts)):
            continue
        ctx.visit(scene_key(case), *pos)
        ways = []
        if here[0] == len(parts):
            for name, point in entrances.items():
                found = shortest(edges, name)
                ways += [(np.linalg.norm(pos - point) + found[tt][0], (name,) + found[tt][1])
                         for tt in targets if tt in found]
        else:
            found = shortest(edges, int(here[0]))
            ways = [(found[tt][0], (int(here[0]),) + found[tt][1]) for tt in targets if tt in found]
            if outside:
                ways += [(found[nn][0] + np.linalg.norm(goal - point), (int(here[0]),) + found[nn][1])
                         for nn, point in entrances.items() if nn in found]
            elif not ways:
                # First leave the obstacle
                ways = [(found[nn][0], (int(here[0]),) + found[nn][1])
                        for nn in entrances if nn in found]
        ways.sort(key=lambda ww: ww[0])
        if len(ways) > 1 and ways[1][0] - ways[0][0] < 1e-6:
            continue
        fresh = build(ctx, scene, 0, order)
        ctx.call("set_attractor", fresh.set_attractor, goal.copy())
        evaluate(ctx, fresh, pos)
        local = list(ctx.call("local_attractor_iterator", lambda: list(fresh.local_attractor_iterator())))
        for one, two in zip(ways[0][1][:-1], ways[0][1][1:]):
            kk = len(parts) if isinstance(one, str) else one
            point = connection(one, two)
            body = outer if isinstance(one, str) else inner[order[one]]
            ctx.require(local[kk] is not None, "attractor on the way", lambda: f"{pos} {ways[0]}")
            ctx.close(level(body, local[kk]), 1, "attractor on the outline", 1e-6)
            center = np.array(body[1])
            ctx.close(lib.unit(local[kk] - center), lib.unit(point - center),
                      "attractor towards the connection", 1e-6)
        ctx.outcome(ways[0][1])


FAMILIES = [Family("routes", route_cases, route_run), Family("free space", space_cases, space_run), Family("ways", graph_cases, graph_run),
            Family("U-shapes", trough_cases, trough_run),
            Family("openings", weight_cases, weight_run),
            Family("field", field_cases, field_run),
            Family("attractor in the wall", wall_cases, wall_run),
            Family("sets", set_cases, set_run),
            Family("trajectories", field_cases, follow_run)]
