"""C19: motions which are attracted into chains of overlapping regions (walls seen from inside)."""
import itertools
import math
import types

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks import c10, c23
from mc.checks.c10 import scene_key

MOD = "nonlinear_avoidance.multihull_convergence"
BOUNDARY = "nonlinear_avoidance.multiboundary_container"
GRAPH = "nonlinear_avoidance.gmm_learner.graph"

# center, half axes, angle; and the parent of each region (the first one is the root)
CHAINS = {
    "single": ([((0, 0), (2.0, 1.0), 0.3)], [-1]),
    "round": ([((0, 0), (1.5, 1.5), 0.0)], [-1]),
    "two": ([((0, 0), (2.0, 1.0), 0.0), ((2.5, 0.5), (2.0, 1.0), 0.4)], [-1, 0]),
    "corner": ([((0, 0), (2.0, 0.8), 0.0), ((1.6, 1.6), (0.7, 2.0), 0.0)], [-1, 0]),
    "three": ([((0, 0), (1.8, 1.0), 0.0), ((2.4, 0.8), (1.6, 0.9), 0.7),
               ((3.0, 2.8), (0.9, 1.7), 0.0)], [-1, 0, 1]),
    "branch": ([((0, 0), (1.6, 1.0), 0.0), ((2.2, 0.3), (1.5, 0.8), 0.2),
                ((-2.1, 0.6), (1.4, 0.8), -0.4)], [-1, 0, 0]),
}
GOALS = {"center": (0.0, 0.0), "side": (-0.8, 0.25), "entry": (0.9, 0.1)}
MOTIONS = ["straight", "up", "right", "turned", "spiral"]
FRAMES = [None, ((4.0, -3.0), 1.1)]


def chain(ctx, case):
    """The regions in their frame, and the attractor."""
    from dynamic_obstacle_avoidance.obstacles import Ellipse
    mod = ctx.load(BOUNDARY)
    regions, parents = CHAINS[case["chain"]]
    shift, turn = case.get("frame") or ((0.0, 0.0), 0.0)
    place = lambda pp: np.array(shift) + lib.rot2(turn) @ np.array(pp, dtype=float)

    class Chain(mod.MultiBoundaryContainer):
        """Each region converges to its opening to the parent, and the root to the attractor."""

        def get_convergence_direction(self, position, it_obs):
            return self.goals[it_obs] - position

    order = case.get("order") or list(range(len(regions)))
    cont = ctx.call("MultiBoundaryContainer", Chain)
    for ii in order:
        center, axes, angle = regions[ii]
        ctx.call("append", cont.append, Ellipse(
            center_position=place(center), axes_length=np.array(axes), orientation=angle + turn,
            is_boundary=True))
    for ii, parent in enumerate(parents):
        if parent >= 0:
            ctx.call("extend_graph", cont.extend_graph, child=order.index(ii),
                     parent=order.index(parent))
    ctx.call("update_intersection_graph", cont.update_intersection_graph)
    goal = place(GOALS[case["goal"]])
    cont.goals = []
    for ii, obs in enumerate(cont):
        inter = cont.get_parent_intersection(ii)
        cont.goals.append(goal if inter is None else obs.get_intersection_with_surface(
            direction=inter - obs.center_position, in_global_frame=True))
    return cont, goal, place


def motion(case, goal, turn=0.0):
    name = case["motion"]
    if name in ("straight", "turned", "spiral"):
        angle = {"straight": 0.0, "turned": 0.7, "spiral": -1.3}[name]
        return c10.Turned(goal, angle, maximum=1.0).evaluate
    vec = lib.rot2(turn) @ np.array({"up": (0.0, 0.8), "right": (1.0, 0.0)}[name])
    return lambda position: vec


def gammas(cont, pos):
    return [obs.get_gamma(pos, in_global_frame=True) for obs in cont]


def cases(tier):
    out = []
    for name in CHAINS:
        for goal in GOALS:
            for mot in MOTIONS:
                out.append({"chain": name, "goal": goal, "motion": mot, "tier": tier})
    return out


def local_points(case):
    """Positions around the regions, in the frame of the chain."""
    nn = 13 if case["tier"] == "quick" else 29
    return [np.array([xx, yy]) for xx in np.linspace(-3.7, 5.1, nn)
            for yy in np.linspace(-2.15, 4.75, nn)]


def attract(ctx, cont, pos, vel):
    mod = ctx.load(MOD)
    out = ctx.call("multihull_attraction", mod.multihull_attraction, pos.copy(), vel.copy(), cont)
    return ctx.finite(out, "velocity")


def run_field(ctx, case):
    cont, goal, _ = chain(ctx, case)
    vel = motion(case, goal)
    turned = dict(case, frame=((4.0, -3.0), 1.1))
    cont2, goal2, place = chain(ctx, turned)
    vel2 = motion(case, goal2, 1.1)
    others = []
    for order in list(itertools.permutations(range(len(cont))))[1:]:
        others.append(chain(ctx, dict(case, order=list(order)))[0])
    places = local_points(case)
    places += [obs.center_position + 1e-9 for obs in cont]
    places += [obs.center_position.copy() for obs in cont] + [np.array(gg) for gg in cont.goals]
    places += [cont.get_parent_intersection(ii) for ii in range(1, len(cont))]
    mat = lib.rot2(1.1)
    for pos in places:
        ctx.visit("field", scene_key(case), *np.round(pos, 6))
        init = vel(pos)
        out = attract(ctx, cont, pos, init)
        ctx.close(np.linalg.norm(out), np.linalg.norm(init), "magnitude of the motion is kept",
                  atol=1e-9)
        gam = gammas(cont, pos)
        if max(gam) <= 1:
            ctx.close(out, init, "motion is not changed outside of all regions", atol=1e-9)
            continue
        if min(np.linalg.norm(pos - obs.center_position) for obs in cont) < 1e-6:
            continue
        for other in others:
            ctx.close(attract(ctx, other, pos, init), out, "order of the regions", atol=1e-6)
        steps = [pos + dd for dd in 1e-6 * np.vstack((np.eye(2), -np.eye(2)))]
        around = np.array([attract(ctx, cont, pp, vel(pp)) for pp in steps])
        if np.max(np.abs(around - around[0])) < 1e-3:
            ctx.close(out, around[0], "no jump at single positions", atol=2e-3)
            far = place(pos)
            ctx.close(attract(ctx, cont2, far, vel2(far)), mat @ out, "frame of the scene", atol=1e-5)
            ctx.outcome("smooth", len(cont))
    zero = attract(ctx, cont, np.array(cont[0].center_position) + 0.2, np.zeros(2))
    ctx.close(zero, np.zeros(2), "a motion at rest stays at rest", atol=1e-12)


def bound(cont, ii, parents, pos, gamma):
    """How far a motion may deviate: less in the depth of a region, and where the outline around it
    is covered by another region, down to not at all in the direction of an opening."""
    center = np.array(cont[ii].center_position)
    openings = [cont.get_parent_intersection(kk) for kk, pp in enumerate(parents)
                if (kk == ii and pp >= 0) or pp == ii]
    edge = cont[ii].get_intersection_with_surface(direction=pos - center, in_global_frame=True)
    share = 1.0
    for opening in openings:
        for kk, other in enumerate(cont):
            depth = other.get_gamma(edge, in_global_frame=True) - 1
            if kk != ii and depth > 0:
                away = 1 - lib.unit(pos - center) @ lib.unit(opening - center)
                share = min(share, away / (away + depth))
    return math.pi * 2.0 ** (-gamma) * share


def run_bound(ctx, case):
    mod = ctx.load(MOD)
    cont, _, _ = chain(ctx, case)
    parents = CHAINS[case["chain"]][1]
    for pos in local_points(case):
        gam = gammas(cont, pos)
        for ii in range(len(cont)):
            if gam[ii] <= 1 or np.linalg.norm(pos - cont[ii].center_position) < 1e-6:
                continue
            ctx.visit("bound", scene_key(case), ii, *np.round(pos, 6))
            value = ctx.call("get_desired_radius", mod.get_desired_radius, pos.copy(), gam[ii],
                             it_obs=ii, obstacle_list=cont)
            ctx.close(value, bound(cont, ii, parents, pos, gam[ii]), "bound of the deviation",
                      atol=1e-6)
            ctx.outcome("bound", round(float(value), 1))


def run_wall(ctx, case):
    """On the outline of the union of the regions, no motion points outwards."""
    cont, goal, _ = chain(ctx, case)
    directions = lib.circle(60 if case["tier"] == "quick" else 180, 0.01)
    for ii, obs in enumerate(cont):
        for dd in directions:
            surf = obs.get_intersection_with_surface(direction=dd, in_global_frame=True)
            for depth in (1e-7, 1e-4):
                pos = obs.center_position + (surf - obs.center_position) * (1 - depth)
                rest = [gg for jj, gg in enumerate(gammas(cont, pos)) if jj != ii]
                if rest and max(rest) > 1 - 1e-3:
                    continue
                ctx.visit("wall", scene_key(case), ii, *dd, depth)
                normal = obs.get_normal_direction(pos, in_global_frame=True)
                vels = [motion(case, goal)(pos)] + list(lib.circle(8, 0.1))
                for vel in vels if depth < 1e-5 else vels[:1]:
                    out = attract(ctx, cont, pos, vel)
                    ctx.require(np.dot(out, normal) < 10 * depth + 1e-5, "no motion out of the regions",
                                f"velocity {out} at {pos} leaves region {ii} along {normal}")
                    ctx.outcome("wall", len(cont), round(float(np.dot(out, normal)), 1))


def cases_follow(tier):
    return [cc for cc in cases(tier) if cc["motion"] == "straight"]


def run_follow(ctx, case):
    """Straight motions stay within the regions, and arrive at the attractor."""
    cont, goal, _ = chain(ctx, case)
    vel = motion(case, goal)
    step = 0.04
    nn = 7 if case["tier"] == "quick" else 13
    for xx, yy in itertools.product(np.linspace(-3.3, 4.9, nn), np.linspace(-1.9, 4.3, nn)):
        pos = np.array([xx, yy])
        if max(gammas(cont, pos)) < 1.03:
            continue
        ctx.visit("follow", scene_key(case), xx, yy)
        limit = 500
        for _ in range(limit):
            if np.linalg.norm(pos - goal) < 0.1:
                break
            pos = pos + step * attract(ctx, cont, pos, vel(pos))
            ctx.require(max(gammas(cont, pos)) > 0.97, "trajectory stays within the regions",
                        f"trajectory from ({xx}, {yy}) leaves the regions at {pos}")
        ctx.require(np.linalg.norm(pos - goal) < 0.1, "arrival",
                    f"trajectory from ({xx}, {yy}) is at {pos} after {limit} steps")
        ctx.outcome("follow", case["chain"])


FAMILIES = [
    Family("field", cases, run_field),
    Family("bound", lambda tier: [cc for cc in cases_follow(tier) if cc["goal"] == "center"], run_bound),
    Family("wall", cases, run_wall),
    Family("trajectories", cases_follow, run_follow),
]
