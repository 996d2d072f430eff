"""C14: motions that circle around a center (limit cycles and spirals)."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

CIRC = "nonlinear_avoidance.dynamics.circular_dynamics"
SPIRAL = "nonlinear_avoidance.dynamics.spiral_dynamics"
POSES = {2: ((None, None), (0.0, (0.0, 0.0)), (0.8, (1.5, -2.0)), (-2.5, (-0.3, 4.0))),
         3: (((0, 0, 0), (0, 0, 0)), ((0.4, -0.7, 0.3), (1.0, 2.0, -0.5)),
             ((0, 2.2, 0), (-3.0, 0.4, 1.1))),
         4: ((None, (0, 0, 0, 0)), (None, (1.0, -2.0, 0.3, 4.0)))}  # as is, no turned frames
HEIGHTS = {2: [()], 3: [(0.0,), (0.01,), (-0.3,), (1.0,), (-5.0,)],
           4: [(0.0, 0.0), (0.4, 0.0), (0.0, -0.3), (1.0, 1.0), (-0.01, 5.0)]}
RADII = (0.1, 1.0, 2.5)
RHOS = (1e-6, 0.02, 0.2, 0.333, 0.34, 0.6, 0.95, 1.0, 1.05, 1.5, 3.0, 20.0, 1e3)


def frame(dim, kk):
    ori, pos = POSES[dim][kk]
    if ori is None:
        return np.eye(dim), np.zeros(dim) if pos is None else np.array(pos, dtype=float)
    return lib.matrix_of(dim, ori), np.array(pos, dtype=float)


def circular(ctx, case):
    mod = ctx.load(CIRC)
    dim = case["dim"]
    ori, pos = POSES[dim][case["pose"]]
    kwargs = {"radius": case["radius"]}
    if case["vmax"] is not None:
        kwargs["maximum_velocity"] = case["vmax"]
    if dim == 4:
        from vartools.states import ObjectPose
        kwargs.update(dimension=4, pose=ObjectPose(position=np.array(pos, dtype=float)))
    elif ori is not None:
        kwargs["pose"] = lib.make_pose(pos, ori)
    return ctx.call("SimpleCircularDynamics", mod.SimpleCircularDynamics, **kwargs)


def circle_cases(tier):
    return [{"dim": dim, "pose": kk, "radius": rr, "vmax": vv, "tier": tier}
            for dim in (2, 3, 4) for kk in range(len(POSES[dim])) for rr in RADII
            for vv in (None, 0.4, 3.0)]


def split(rel, vel):
    """Outward, circling and axial parts of a velocity in the frame of the circle."""
    radial = lib.unit(rel[:2])
    return radial @ vel[:2], np.array([-radial[1], radial[0]]) @ vel[:2], vel[2:]


def circle_run(ctx, case):
    dim, radius, vmax = case["dim"], case["radius"], case["vmax"] or 1.0
    dyn = circular(ctx, case)
    unit_case = dict(case, pose=0, radius=1.0)
    base = circular(ctx, unit_case)
    mat, center = frame(dim, case["pose"])
    heights = HEIGHTS[dim]
    turned = None
    if dim == 3:
        # The matrix prevails over the orientation of the pose
        poses = ({"pose": lib.make_pose(center, (0.2, 1.0, -0.4))}, {})
        if not np.any(center) or case["radius"] == 1.0:
            turned = ctx.call("SimpleCircularDynamics", ctx.load(CIRC).SimpleCircularDynamics,
                              base_matrix=mat.copy(), radius=radius, maximum_velocity=vmax,
                              **poses[0 if np.any(center) else 1])
    n_dir = 8 if case["tier"] == "quick" else 32
    for rho, height, dd in itertools.product(RHOS, heights, lib.circle(n_dir, 0.1)):
        local = np.append(dd * rho, height)
        pos = center + mat @ (local * radius)
        ctx.visit(scene_key(case), *np.round(local, 9))
        keep = pos.copy()
        vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
        ctx.close(pos, keep, "position unchanged", 0)
        out, around, axial = split(local, mat.T @ vel)
        speed = np.linalg.norm(vel)
        dist = np.linalg.norm(local)
        exp = vmax * min(1.0, 3 * dist)
        ctx.close(speed, exp, "full speed, except close to the center", 1e-6 * vmax)
        ctx.require(around > 0, "circles counter-clockwise", lambda: f"{local} {vel}")
        if rho < 1:
            ctx.require(out > 0, "outwards within the circle", lambda: f"{local} {vel}")
        elif rho > 1:
            ctx.require(out < 0, "inwards out of the circle", lambda: f"{local} {vel}")
        else:
            ctx.require(abs(out) < 1e-5 * vmax, "no radial motion on the circle",
                        lambda: f"{local} {vel}")
        for hh, aa in zip(height, axial):
            ctx.require(hh == 0 and abs(aa) < 1e-9 or aa * hh < 0,
                        "towards the plane of the circle", lambda: f"{local} {vel}")
        # Same field in the frame of the circle, scaled by its radius
        got = ctx.call("evaluate", base.evaluate, local)
        ctx.close(mat.T @ vel, got, "moves and scales with the circle", 1e-5 * vmax)
        if turned is not None:
            ctx.close(ctx.call("evaluate", turned.evaluate, pos), vel,
                      "frame given by a matrix", 1e-6 * vmax)
        ctx.outcome(round(out, 2), round(around, 2))
    got = ctx.call("evaluate", dyn.evaluate, center.copy())
    ctx.close(got, np.zeros(dim), "at rest in the center", 1e-12)
    for height in heights[1:]:
        vel = ctx.call("evaluate", dyn.evaluate, center + mat @ np.append([0, 0], height))
        vel = mat.T @ ctx.finite(vel, "velocity on the axis")
        ctx.require(vel[2:] @ height < 0 and np.linalg.norm(vel) <= vmax * (1 + 1e-9),
                    "along the axis", lambda: f"{height} {vel}")


# ----------------------------------------------------------------- trajectories of limit cycles
def loop_cases(tier):
    return [cc for cc in circle_cases(tier) if cc["radius"] < 2 or tier != "quick"]


def loop_run(ctx, case):
    dim, radius, vmax = case["dim"], case["radius"], case["vmax"] or 1.0
    dyn = circular(ctx, case)
    mat, center = frame(dim, case["pose"])
    starts = [np.append(dd * rho, hh) for dd in lib.circle(4, 0.1)
              for rho in (0.05, 0.5, 1.0, 2.0, 4.0)
              for hh in {2: [()], 3: [(-1.0,), (0.3,)], 4: [(-1.0, 0.4), (0.0, 0.3)]}[dim]]
    step = 0.03 * radius / vmax
    for start in starts:
        pos = center + mat @ (start * radius)
        local = start
        swept = 0.0
        for _ in range(500):
            ctx.visit(scene_key(case), *np.round(local, 9))
            pos = pos + ctx.call("evaluate", dyn.evaluate, pos) * step
            new = mat.T @ (pos - center) / radius
            turn = math.atan2(local[0] * new[1] - local[1] * new[0], local[:2] @ new[:2])
            ctx.require(turn > -1e-9, "always counter-clockwise", lambda: f"{local} {new}")
            swept += turn
            local = new
        ctx.require(abs(np.linalg.norm(local[:2]) - 1) < 0.05, "reaches the circle",
                    lambda: f"{start} {local}")
        ctx.require(np.linalg.norm(local[2:]) < 0.02, "reaches the plane", lambda: f"{local}")
        ctx.require(swept > 2 * math.pi, "keeps on circling", lambda: f"{swept}")


# ------------------------------------------------------------------------ rotation-based circle
def rotation_cases(tier):
    return [{"pose": kk, "radius": rr, "speed": vv, "direction": dd, "outer": oo, "inner": ii,
             "turn": tt, "tier": tier}
            for kk in range(len(POSES[2])) for rr in (0.5, 1.0, 3.0) for vv in (1.0, 0.3)
            for dd in (1, -1) for oo in (1.0, 12.0) for ii in (1.0, 6.0) for tt in (None, 0.7)]


def rotation_run(ctx, case):
    mod = ctx.load(CIRC)
    ori, pos = POSES[2][case["pose"]]
    mat, center = frame(2, case["pose"])
    kwargs = {}
    if ori is not None:
        kwargs["pose"] = lib.make_pose(pos, ori)
    if case["turn"] is not None:
        kwargs["base_matrix"] = lib.rot2(case["turn"])
    dyn = ctx.call("CircularRotationDynamics", mod.CircularRotationDynamics,
                   radius=case["radius"], constant_velocity=case["speed"],
                   outside_approaching_factor=case["outer"],
                   inside_approaching_factor=case["inner"], direction=case["direction"], **kwargs)
    changed = {}
    for key, outer, inner in (("outside", 2, 1), ("inside", 1, 2)):
        changed[key] = mod.CircularRotationDynamics(
            radius=case["radius"], constant_velocity=case["speed"],
            outside_approaching_factor=case["outer"] * outer,
            inside_approaching_factor=case["inner"] * inner, direction=case["direction"], **kwargs)
    rhos = [0.001, 0.1, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 1.5, 3.0, 30.0, 1e4]
    for dd in lib.circle(8 if case["tier"] == "quick" else 24, 0.05):
        last = -1.0
        for rho in rhos:
            point = center + dd * rho * case["radius"]
            ctx.visit(scene_key(case), *np.round(dd * rho, 9))
            vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, point), "velocity")
            ctx.close(np.linalg.norm(vel), case["speed"], "constant speed", 1e-6)
            angle = case["direction"] * math.atan2(dd[0] * vel[1] - dd[1] * vel[0], dd @ vel)
            angle %= 2 * math.pi
            if angle > 1.5 * math.pi:
                angle = 0.0
            ctx.require(angle <= math.pi + 1e-6 and angle >= last - 1e-6,
                        "turned further inwards with the distance", lambda: f"{rho} {angle}")
            last = angle
            if rho == 1:
                ctx.close(angle, math.pi / 2, "along the circle on the circle", 1e-6)
            elif rho < 0.95:
                ctx.require(angle < math.pi / 2 - 1e-3, "outwards within the circle")
            elif rho > 1.05:
                ctx.require(angle > math.pi / 2 + 1e-3, "inwards out of the circle")
            weight = ctx.call("get_rotation_weight", dyn.get_rotation_weight,
                              dd * rho * case["radius"])
            ctx.require(0 < weight < 2, "weight between 0 and 2", lambda: f"{weight}")
            ctx.close(angle, weight * math.pi / 2, "turned by the weight", 1e-5)
            if 0.2 < rho < 10 and rho != 1:
                # The factor of a side: approaches the circle faster, on this side only
                side = "inside" if rho < 1 else "outside"
                rest = "outside" if rho < 1 else "inside"
                values = [ctx.call("get_rotation_weight", changed[key].get_rotation_weight,
                                   dd * rho * case["radius"]) for key in (side, rest)]
                ctx.close(values[1], weight, "does not depend on the factor of the other side", 1e-9)
                ctx.require(abs(values[0] - 1) > abs(weight - 1) + 1e-4 or
                            abs(weight - 1) > 1 - 1e-3, "approaches faster with a larger factor",
                            lambda: f"{rho} {values} {weight}")
            ctx.outcome(round(angle, 2))
    got = ctx.call("evaluate", dyn.evaluate, center.copy())
    ctx.close(got, np.zeros(2), "at rest in the center", 1e-12)
    step = 0.02 * case["radius"] / case["speed"]
    for dd, rho in itertools.product(lib.circle(3, 0.05), (0.2, 1.0, 3.0)):
        point = center + dd * rho * case["radius"]
        for _ in range(500):
            point = point + step * ctx.call("evaluate", dyn.evaluate, point)
            ctx.visit(scene_key(case), "loop", *np.round(point, 6))
        ctx.require(abs(np.linalg.norm(point - center) / case["radius"] - 1) < 0.06,
                    "reaches the circle", lambda: f"{dd} {rho} {point}")


# --------------------------------------------------------------------------------- moving center
MOVES = (0.0, 0.5, 0.9, 1.1, 1.5, 1.9, 2.1, 10.0)


def base_cases(tier):
    depth = 3 if tier == "quick" else 4
    return [{"dim": dim, "reach": rr, "freq": ff, "moves": list(mm), "fade": fade}
            for dim in (2, 3) for rr in (2.0, 0.7) for ff in (100.0, 2.0)
            for nn in range(1, depth + 1) for mm in itertools.product(range(len(MOVES)), repeat=nn)
            for fade in (2.0, 1.3, 6.0) if (rr == 2.0 and fade == 2.0) or nn < 3]


class Drift:
    def __init__(self, dim):
        self.dimension = dim

    def evaluate(self, position):
        return np.array([0.4, -0.7, 0.3][:self.dimension]) - 0.1 * position


def base_run(ctx, case):
    """All histories of robot positions, relative to the moving center."""
    mod = ctx.load(CIRC)
    dim = case["dim"]
    start = np.array([1.0, -0.5, 0.3][:dim])
    main = mod.SimpleCircularDynamics(pose=lib.make_pose(start, 0 if dim == 2 else (0, 0, 0)))
    drift = Drift(dim)
    dyn = ctx.call("DynamicDynamics", mod.DynamicDynamics, main, drift,
                   influence_radius=case["reach"], frequency=case["freq"])
    fade = case.get("fade", 2.0)
    dyn.decent_factor = fade
    center = start.copy()
    for kk, move in enumerate(case["moves"]):
        dist = MOVES[move]
        dd = np.roll(lib.unit([3.0, 1.0, -2.0][:dim]), kk)
        pos = center + dd * dist * case["reach"]
        ctx.visit(dim, case["reach"], case["freq"], fade,
                  tuple(case["moves"][:kk + 1]))
        vel = ctx.call("evaluate", dyn.evaluate, pos)
        ctx.close(vel, main.evaluate(pos), "main motion", 1e-12)
        ctx.close(dyn.position, center, "evaluation does not move the center", 1e-9)
        ctx.call("update_base", dyn.update_base, pos)
        weight = min(1.0, max(0.0, (fade - dist) / (fade - 1)))
        center = center + drift.evaluate(center) * weight / case["freq"]
        ctx.close(dyn.position, center, "center moves while the robot is close", 1e-9)


# --------------------------------------------------------------------------------- spirals
DIRECTIONS = ((1, 0, 0), (0, 0, 1), (0, -2, 0), (0.5, 0.5, 0.5), (-0.2, 0.7, 0.1))
CENTERS = ((0, 0, 0), (1.0, -2.0, 0.5), (-30.0, 5.0, 8.0))


def spiral_cases(tier):
    return [{"direction": dd, "center": cc, "radius": rr, "speed": ss, "tier": tier}
            for dd in range(len(DIRECTIONS)) for cc in range(len(CENTERS))
            for rr in (0.5, 1.0, 2.0) for ss in (1.0, 0.3)]


def spiral_run(ctx, case):
    mod = ctx.load(SPIRAL)
    direction = np.array(DIRECTIONS[case["direction"]], dtype=float)
    center = np.array(CENTERS[case["center"]], dtype=float)
    radius = case["radius"]
    dyn = ctx.call("create_from_direction", mod.SpiralingDynamics3D.create_from_direction,
                   center.copy(), direction.copy(), radius=radius, speed=case["speed"])
    axis = lib.unit(direction)
    perp = lib.unit(np.cross(axis, [0.3, 0.5, -0.8]))
    perp2 = np.cross(axis, perp)
    grid = itertools.product((0.0, 0.05, 0.5, 0.9, 1.0, 1.1, 2.0, 10.0), (-3.0, 0.0, 1.0),
                             lib.circle(6 if case["tier"] == "quick" else 16, 0.2))
    for rho, along, dd in grid:
        radial = dd[0] * perp + dd[1] * perp2
        around = np.cross(axis, radial)
        pos = center + radius * rho * radial + along * axis
        ctx.visit(scene_key(case), rho, along, *dd)
        vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
        ctx.close(np.linalg.norm(vel), case["speed"], "constant speed", 1e-6)
        ctx.require(vel @ axis > 0, "advances along the direction", lambda: f"{pos} {vel}")
        if rho:
            ctx.require(vel @ around > 0, "circles around the axis", lambda: f"{pos} {vel}")
        out = vel @ radial
        if 0 < rho < 1:
            ctx.require(out > 0, "outwards within the circle", lambda: f"{pos} {vel}")
        elif rho > 1:
            ctx.require(out < 0, "inwards out of the circle", lambda: f"{pos} {vel}")
        else:
            ctx.require(abs(out) < 1e-5, "keeps the radius", lambda: f"{pos} {vel}")
            # Ratio of both motions: unit speed around the circle, and the given one along it
            ratio = np.linalg.norm(direction) / (1.0 if rho else math.inf)
            if rho:
                ctx.close((vel @ axis) / (vel @ around), ratio, "slope of the spiral", 1e-5)
        ctx.close(dyn.evaluate_convergence_around_obstacle(pos, None), direction,
                  "convergence along the direction", 1e-12)
    step = 0.02 * radius / case["speed"]
    for rho in (0.3, 1.0, 2.0):
        pos = center + radius * rho * perp
        for _ in range(700):
            pos = pos + step * ctx.call("evaluate", dyn.evaluate, pos)
        rel = pos - center
        out = np.linalg.norm(rel - axis * (rel @ axis))
        ctx.require(abs(out / radius - 1) < 0.06 and rel @ axis > 0, "spirals on the cylinder",
                    lambda: f"{rho} {out} {rel}")


FAMILIES = [Family("circular field", circle_cases, circle_run),
            Family("circular trajectories", loop_cases, loop_run),
            Family("rotation-based circle", rotation_cases, rotation_run),
            Family("moving center", base_cases, base_run),
            Family("spirals", spiral_cases, spiral_run)]
