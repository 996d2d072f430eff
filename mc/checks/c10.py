"""C10: avoidance of obstacles by local rotation."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family

ROT = "nonlinear_avoidance.avoidance.rotational_avoider"


class Turned:
    """Towards the attractor, turned by a constant rotation (about the last axis in 3D)."""

    def __init__(self, attractor, angle, speed=1.0, maximum=None):
        self.attractor_position = np.array(attractor, dtype=float)
        self.dimension = self.attractor_position.shape[0]
        self.angle, self.speed, self.maximum = angle, speed, maximum

    def evaluate(self, position):
        delta = self.attractor_position - position
        delta = delta * self.speed
        delta[:2] = lib.rot2(self.angle) @ delta[:2]
        norm = np.linalg.norm(delta)
        if self.maximum and norm > self.maximum:
            delta = delta / norm * self.maximum
        return delta


class Moved:
    """A dynamical system in a rotated and shifted world: x = R y + t."""

    def __init__(self, base, rot, shift):
        self.base, self.rot, self.shift = base, rot, shift
        self.dimension = base.dimension

    def evaluate(self, position):
        return self.rot @ self.base.evaluate(self.rot.T @ (position - self.shift))


class Constant:
    def __init__(self, velocity):
        self.velocity = np.array(velocity, dtype=float)
        self.dimension = self.velocity.shape[0]

    def evaluate(self, position):
        return self.velocity.copy()


def dynamics(name, dim):
    far = np.array([3.1, 0.4, -0.3][:dim])
    if name == "linear":
        return Turned(far, 0.0)
    if name == "slow":
        return Turned(far, 0.0, speed=0.3)
    if name == "limited":
        return Turned(far, 0.0, maximum=1.0)
    if name == "turned":
        return Turned(far, 0.6, maximum=2.0)
    if name == "spiral":
        return Turned(far, -1.2, maximum=1.0)
    if name == "constant":
        return Constant([0.9, 0.35, 0.2][:dim])
    raise KeyError(name)


FRAMES = {2: (0.0, 0.7, 2.5), 3: ((0, 0, 0), (0.3, -0.4, 0.8), (1.1, 0.9, -0.2))}
PLACES = {2: [(0.0, 0.0), (0.2, 2.9), (-2.7, -1.4)],
          3: [(0.0, 0.0, 0.0), (0.2, 2.9, 0.4), (-2.7, -1.4, 0.9)]}


def obstacle(kind, dim, idx=0, ori=0, rot=None, shift=None, **kwargs):
    from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse
    from scipy.spatial.transform import Rotation
    axes = {"E": [1.1, 0.7, 0.9], "S": [0.8, 0.8, 0.8], "B": [1.3, 1.0, 1.7],
            "W": [9.0, 7.0, 8.0]}[kind][:dim]
    pos = np.array(PLACES[dim][idx])
    mat = lib.matrix_of(dim, FRAMES[dim][ori])
    if rot is not None:
        pos, mat = rot @ pos + shift, rot @ mat
    if dim == 2:
        ori = math.atan2(mat[1, 0], mat[0, 0])
    else:
        ori = Rotation.from_matrix(mat)
    cls = CuboidXd if kind == "B" else Ellipse
    return cls(center_position=pos, orientation=ori, axes_length=np.array(axes),
               is_boundary=kind == "W", **kwargs)


def scene_key(case):
    return tuple(vv for kk, vv in sorted(case.items()) if kk != "tier")


def grid(dim, tier, off=0.0):
    if dim == 2:
        n = 9 if tier == "quick" else 21
        xs = np.linspace(-4.03, 4.07, n)
        return [np.array([xx + off, yy]) for xx in xs for yy in xs]
    n = 4 if tier == "quick" else 9
    xs = np.linspace(-2.03, 3.07, n)
    return [np.array(pp) + off for pp in itertools.product(xs, repeat=3)]


def surface(obs, directions, distance=0.0):
    """Points on the surface (or a bit outside of it; inside for walls)."""
    out = []
    for dd in directions:
        local = dd * obs.get_local_radius(dd)
        point = obs.pose.transform_position_from_relative(local)
        normal = obs.get_normal_direction(point, in_global_frame=True)
        sign = -1 if obs.is_boundary else 1
        out.append((point + sign * normal * distance, normal * sign))
    return out


def directions(dim, tier):
    if dim == 2:
        return lib.circle(24 if tier == "quick" else 96, 0.011)
    fix = lib.matrix_of(3, (0.02, 0.03, -0.01))
    return [fix @ dd for dd in (lib.sphere26() if tier == "quick" else
                                lib.lattice_directions(3, (-2, -1, 0, 1, 2)))]


def container(kind, obstacles):
    if kind == "rotation":
        from nonlinear_avoidance.rotation_container import RotationContainer
        cont = RotationContainer()
    else:
        from dynamic_obstacle_avoidance.containers import ObstacleContainer
        cont = ObstacleContainer()
    for obs in obstacles:
        cont.append(obs)
    return cont


def make(ctx, mod, obstacles, dyn, conv, radius=math.pi / 2, kind="plain", **kwargs):
    return ctx.call("RotationalAvoider", mod.RotationalAvoider, initial_dynamics=dyn,
                    obstacle_environment=container(kind, obstacles), convergence_system=conv,
                    convergence_radius=radius, **kwargs)


def outside(obstacles, pos, limit=1.0):
    return all(oo.get_gamma(pos, in_global_frame=True) > limit for oo in obstacles)


# --------------------------------------------------------------------------- one obstacle
SETS = {"one": ["E"], "box": ["B"], "wall": ["W"], "two": ["E", "S"], "three": ["E", "B", "S"],
        "room": ["W", "E", "S"]}


def field_cases(tier):
    out = []
    for dim in (2, 3):
        for name in ("one", "wall", "box", "two", "room", "three"):
            for ori in range(len(FRAMES[dim])):
                for dyn in ("linear", "slow", "turned", "spiral", "constant"):
                    for conv in (None, "linear"):
                        for radius in (math.pi / 2, 0.75 * math.pi):
                            if tier == "quick" and (ori + len(dyn)) % 3 and name != "one":
                                continue
                            if tier == "quick" and dim == 3 and (
                                    ori or name in ("three", "box") or dyn == "slow"):
                                continue
                            out.append({"dim": dim, "set": name, "ori": ori, "dyn": dyn,
                                        "conv": conv, "radius": radius, "tier": tier})
    return out


def scene(case, **kwargs):
    return [obstacle(kind, case["dim"], ii if kind != "W" else 0, case["ori"], **kwargs)
            for ii, kind in enumerate(SETS[case["set"]])]


def field_run(ctx, case):
    mod = ctx.load(ROT)
    dim = case["dim"]
    obstacles = scene(case)
    dyn = dynamics(case["dyn"], dim)
    conv = case["conv"] and dynamics(case["conv"], dim)
    avoider = make(ctx, mod, obstacles, dyn, conv, case["radius"])
    free = make(ctx, mod, obstacles, dyn, conv, case["radius"])
    ctx.require(ctx.call("dimension", lambda: avoider.dimension) == dim, "dimension")
    poses = [(oo.center_position.copy(), lib.pose_matrix(oo.pose)) for oo in obstacles]
    rot = lib.matrix_of(dim, 0.9 if dim == 2 else (0.5, -0.7, 0.3))
    shift = np.array([1.5, -2.0, 0.7][:dim])
    moved = make(ctx, mod, scene(case, rot=rot, shift=shift), Moved(dyn, rot, shift),
                 conv and Moved(conv, rot, shift), case["radius"])
    points = [pp for pp in grid(dim, case["tier"]) if outside(obstacles, pp, 1.001)]
    for pos in points:
        ctx.visit(scene_key(case), *np.round(pos, 9))
        keep = pos.copy()
        init = dyn.evaluate(pos)
        speed = np.linalg.norm(init)
        vel = ctx.finite(ctx.call("avoid", avoider.avoid, pos), "velocity")
        ctx.require(vel.shape == (dim,), "shape of the velocity")
        ctx.close(pos, keep, "position unchanged", 0)
        ctx.require(np.linalg.norm(vel) <= speed * (1 + 1e-9) + 1e-12,
                    "never faster than the initial motion", lambda: f"{pos} {vel} {init}")
        again = ctx.call("evaluate", avoider.evaluate, pos)
        ctx.close(again, vel, "evaluate is the avoided velocity", 1e-12)
        given = init.copy()
        got = ctx.call("avoid", free.avoid, pos, initial_velocity=given)
        ctx.close(got, vel, "the initial velocity may be given", 1e-9)
        ctx.close(given, init, "initial velocity unchanged", 0)
        # a velocity at a different scale
        got = ctx.call("avoid", free.avoid, pos, initial_velocity=init * 3)
        ctx.close(got, 3 * vel, "scales with the initial speed", 1e-7)
        slip = ctx.finite(ctx.call("avoid", free.avoid, pos, sticky_surface=False), "slip")
        slip_norm = np.linalg.norm(slip)
        ctx.require(slip_norm < 1e-12 or abs(slip_norm - speed) < 1e-7,
                    "full speed without sticky surface", lambda: f"{slip} {speed}")
        # the whole world turned and shifted
        got = ctx.call("avoid", moved.avoid, rot @ pos + shift)
        ctx.close(got, rot @ vel, "does not depend on the frame of reference", 1e-6)
        ctx.outcome(*np.round(vel, 2))
    for obs, (pos, mat) in zip(obstacles, poses):
        ctx.close(obs.center_position, pos, "obstacles stay where they are", 0)
        ctx.close(lib.pose_matrix(obs.pose), mat, "obstacles keep their orientation", 0)


# --------------------------------------------------------------------------- on the surface
def surface_run(ctx, case):
    mod = ctx.load(ROT)
    dim = case["dim"]
    obstacles = scene(case)
    dyn = dynamics(case["dyn"], dim)
    conv = case["conv"] and dynamics(case["conv"], dim)
    avoider = make(ctx, mod, obstacles, dyn, conv, case["radius"])
    for jj, obs in enumerate(obstacles):
        others = obstacles[:jj] + obstacles[jj + 1:]
        for distance in (0.0, 1e-9, 1e-6):
            for point, normal in surface(obs, directions(dim, case["tier"]), distance):
                if not outside(others, point, 1.001):
                    continue
                if obs.is_boundary and obs.get_gamma(point, in_global_frame=True) < 1:
                    continue
                ctx.visit(scene_key(case), jj, distance, *point)
                vel = ctx.call("avoid", avoider.avoid, point)
                vel = ctx.finite(vel, "velocity on the surface")
                speed = np.linalg.norm(dyn.evaluate(point))
                # a rounding of a sharp edge leaves no unique normal
                ctx.require(vel @ normal >= -2e-2 * math.sqrt(distance / 1e-6) * speed
                            - 1e-4 * speed - 1e-9, "never into the obstacle",
                            lambda: f"{point} {vel} {normal} {vel @ normal}")
                slip = ctx.call("avoid", avoider.avoid, point, sticky_surface=False)
                slip = ctx.finite(slip, "velocity on the surface")
                ctx.require(slip @ normal >= -2e-2 * math.sqrt(distance / 1e-6) * speed
                            - 3e-3 * speed - 1e-9, "never into the obstacle, not sticky",
                            lambda: f"{point} {slip} {normal} {slip @ normal}")


def far_run(ctx, case):
    """Obstacles which are far away, and lists of obstacles which are empty."""
    mod = ctx.load(ROT)
    dim = case["dim"]
    obstacles = [oo for oo in scene(case) if not oo.is_boundary]
    dyn = dynamics(case["dyn"], dim)
    conv = case["conv"] and dynamics(case["conv"], dim)
    avoider = make(ctx, mod, obstacles, dyn, conv, case["radius"])
    blind = make(ctx, mod, obstacles, dyn, conv, case["radius"], cut_off_gamma=5.0)
    empty = make(ctx, mod, [], dyn, conv, case["radius"])
    for dd in directions(dim, "quick"):
        last = None
        for dist in (8.0, 80.0, 8e3, 8e5):
            pos = dd * dist
            init = dyn.evaluate(pos)
            ctx.visit(scene_key(case), *np.round(pos, 9))
            vel = ctx.finite(ctx.call("avoid", avoider.avoid, pos), "velocity far away")
            gap = lib.angle_between(vel, init)
            ctx.require(gap <= 8.0 / dist + 1e-6, "the influence fades with the distance",
                        lambda: f"{pos} {vel} {init} {gap}")
            ctx.require(np.linalg.norm(vel) >= np.linalg.norm(init) * (1 - 8.0 / dist) - 1e-9,
                        "full speed far away", lambda: f"{pos} {vel} {init}")
            last = gap
            for one in (blind, empty):
                got = ctx.call("avoid", one.avoid, pos)
                ctx.close(got, init, "no obstacle around: initial motion", 0)
        for scale in (0.2, 1.0, 4.0):
            got = ctx.call("avoid", empty.avoid, dd * scale)
            ctx.close(got, dyn.evaluate(dd * scale), "no obstacles: initial motion", 0)


# --------------------------------------------------------------------------- order of obstacles
def order_cases(tier):
    return [{"dim": dim, "set": name, "ori": ori, "dyn": dyn, "conv": conv, "tier": tier}
            for dim in (2, 3) for name in ("two", "three", "room") for ori in (0, 1)
            for dyn in ("limited", "turned", "constant") for conv in (None, "linear")
            if tier != "quick" or dim == 2 or (dyn != "limited" and name != "three")]


def order_run(ctx, case):
    """The obstacles are a set; those out of reach do not matter."""
    mod = ctx.load(ROT)
    dim = case["dim"]
    dyn = dynamics(case["dyn"], dim)
    conv = case["conv"] and dynamics(case["conv"], dim)
    obstacles = scene(case)
    orders = list(itertools.permutations(obstacles))
    avoiders = [make(ctx, mod, list(oo), dyn, conv) for oo in orders]
    limit = 2.5
    cut = make(ctx, mod, obstacles, dyn, conv, cut_off_gamma=limit)
    for pos in grid(dim, case["tier"], 0.03):
        if not outside(obstacles, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        exp = ctx.call("avoid", avoiders[0].avoid, pos)
        for one in avoiders[1:]:
            ctx.close(ctx.call("avoid", one.avoid, pos), exp,
                      "order of the obstacles does not matter", 1e-7)
        near = [oo for oo in obstacles if oo.get_gamma(pos, in_global_frame=True) < limit]
        got = ctx.call("avoid", cut.avoid, pos)
        exp = ctx.call("avoid", make(ctx, mod, near, dyn, conv).avoid, pos)
        ctx.close(got, exp, "obstacles out of reach do not matter", 1e-9)
        got = ctx.call("avoid", make(ctx, mod, [], dyn, conv).avoid, pos,
                       obstacle_list=container("plain", near))
        ctx.close(got, exp, "obstacles may be given", 1e-9)


# --------------------------------------------------------------------------- moving obstacles
LINEAR = [(0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (-0.5, 0.3, 0.2), (0.0, -1.5, 0.4)]
ANGULAR = [0.0, 0.7, -1.3]


def moving_cases(tier):
    return [{"dim": dim, "kind": kind, "ori": ori, "dyn": dyn, "lin": ll, "ang": aa,
             "tier": tier}
            for dim in (2, 3) for kind in "ESB" for ori in (0, 1)
            for dyn in ("limited", "turned", "constant")
            for ll in range(len(LINEAR)) for aa in range(len(ANGULAR))]


def moving_run(ctx, case):
    mod = ctx.load(ROT)
    dim = case["dim"]
    dyn = dynamics(case["dyn"], dim)
    lin = np.array(LINEAR[case["lin"]][:dim])
    ang = ANGULAR[case["ang"]]
    if dim == 3:
        ang = ang * lib.unit([0.3, -0.5, 1.0])
    obs = obstacle(case["kind"], dim, 0, case["ori"], linear_velocity=lin, angular_velocity=ang)
    avoider = make(ctx, mod, [obs], dyn, None)
    still = make(ctx, mod, [obstacle(case["kind"], dim, 0, case["ori"])], dyn, None)
    for point, normal in surface(obs, directions(dim, case["tier"]), 1e-9):
        ctx.visit(scene_key(case), *point)
        arm = point - obs.center_position
        ground = lin + (ang * np.array([-arm[1], arm[0]]) if dim == 2 else np.cross(ang, arm))
        vel = ctx.finite(ctx.call("avoid", avoider.avoid, point), "velocity")
        init = dyn.evaluate(point)
        rel = np.linalg.norm(init - ground)
        ctx.require((vel - ground) @ normal >= -2e-3 * rel - 1e-6,
                    "never into the moving obstacle",
                    lambda: f"{point} {vel} {ground} {(vel - ground) @ normal}")
        ctx.require(np.linalg.norm(vel - ground) <= rel + 1e-6,
                    "never faster relative to the obstacle than initially")
        exp = ctx.call("avoid", still.avoid, point, initial_velocity=init - ground,
                       convergence_velocity=init)
        got = ctx.call("avoid", avoider.avoid, point, convergence_velocity=init)
        ctx.close(got, exp + ground, "avoids in the frame of the obstacle", 1e-6)
        slip = ctx.call("avoid", avoider.avoid, point, sticky_surface=False)
        ctx.finite(slip, "velocity")


# ------------------------------------------------------- convergence of each obstacle on its own
def local_cases(tier):
    return [{"dim": 2, "set": name, "ori": ori, "dyn": dyn, "radii": radii, "tier": tier}
            for name in ("one", "two", "three") for ori in (0, 1, 2)
            for dyn in ("limited", "turned", "spiral") for radii in (False, True)]


def local_run(ctx, case):
    mod = ctx.load(ROT)
    dyn = dynamics(case["dyn"], 2)
    obstacles = scene(case)
    cont = container("rotation", obstacles)
    ctx.call("set_convergence_directions", cont.set_convergence_directions, dyn)
    radii = [math.pi / 2, 0.75 * math.pi, 0.6 * math.pi][:len(obstacles)]
    if case["radii"]:
        cont.convergence_radiuses = radii
    avoider = ctx.call("RotationalAvoider", mod.RotationalAvoider,
                       obstacle_environment=cont)
    # Obstacles out of reach, listed in front of the others, have no influence
    more = container("rotation", [obstacle("E", 2, 1, 0, np.eye(2), np.array([300.0, 40.0])),
                                  obstacle("S", 2, 0, 0, np.eye(2), np.array([-200.0, 90.0]))]
                     + obstacles)
    ctx.call("set_convergence_directions", more.set_convergence_directions, dyn)
    if case["radii"]:
        more.convergence_radiuses = [0.9 * math.pi, math.pi / 2] + radii
    wider = ctx.call("RotationalAvoider", mod.RotationalAvoider, obstacle_environment=more,
                     cut_off_gamma=50.0)
    narrow = ctx.call("RotationalAvoider", mod.RotationalAvoider, obstacle_environment=cont,
                      cut_off_gamma=50.0)
    for pos in grid(2, case["tier"], 0.01):
        if not outside(obstacles, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        init = dyn.evaluate(pos)
        vel = ctx.finite(ctx.call("avoid", avoider.avoid, pos, initial_velocity=init),
                         "velocity")
        ctx.require(np.linalg.norm(vel) <= np.linalg.norm(init) + 1e-9,
                    "never faster than the initial motion")
        ctx.close(ctx.call("avoid", wider.avoid, pos, initial_velocity=init),
                  ctx.call("avoid", narrow.avoid, pos, initial_velocity=init),
                  "obstacles out of reach do not matter", 1e-9)
        if len(obstacles) == 1:
            exp = ctx.call("avoid", avoider.avoid, pos, initial_velocity=init,
                           convergence_velocity=cont.get_convergence_direction(pos, 0))
            ctx.close(vel, exp, "convergence direction of the obstacle", 1e-9)
    # close to one of them, only its own convergence counts
    for jj, obs in enumerate(obstacles):
        for point, normal in surface(obs, directions(2, "quick"), 1e-7):
            if not outside(obstacles[:jj] + obstacles[jj + 1:], point, 1.05):
                continue
            ctx.visit(scene_key(case), jj, *point)
            init = dyn.evaluate(point)
            vel = ctx.call("avoid", avoider.avoid, point, initial_velocity=init)
            ctx.require(vel @ normal > -3e-3 * np.linalg.norm(init),
                        "never into the obstacle", lambda: f"{point} {vel @ normal}")
            alone = mod.RotationalAvoider(obstacle_environment=container("plain", [obs]))
            kw = {"convergence_radius": radii[jj]} if case["radii"] else {}
            exp = ctx.call("avoid", alone.avoid, point, initial_velocity=init,
                           convergence_velocity=cont.get_convergence_direction(point, jj), **kw)
            # (other obstacles may slow the robot down)
            if min(np.linalg.norm(vel), np.linalg.norm(exp)) > 1e-3:
                ctx.require(lib.angle_between(vel, exp) < 1e-3,
                            "obstacles have their own convergence", lambda: f"{vel} {exp}")


# --------------------------------------------------------------------------- in a row
def row_cases(tier):
    from mc.checks import c21
    return [dict(cc, radius=radius) for cc in c21.line_cases(tier)
            for radius in (math.pi / 2, 0.75 * math.pi)]


def row_run(ctx, case):
    """Obstacles in line with the attractor, and positions exactly on these lines."""
    from mc.checks import c21
    mod = ctx.load(ROT)
    obstacles, dyn = c21.line_scene(case)
    avoiders = [make(ctx, mod, list(oo), dyn, None, case["radius"])
                for oo in itertools.permutations(obstacles)]
    c21.line_check(ctx, case, obstacles, dyn, avoiders, "evaluate")


# --------------------------------------------------------------------------- sequences
def sequence_run(ctx, case):
    mod = ctx.load(ROT)
    seqs = ctx.load("nonlinear_avoidance.vector_rotation")
    dim = case["dim"]
    obstacles = scene(case)
    dyn, conv = dynamics(case["dyn"], dim), dynamics("linear", dim)
    avoider = make(ctx, mod, obstacles, dyn, conv, case["radius"])
    empty = make(ctx, mod, [], dyn, conv, case["radius"])

    def sequences(pos):
        cc = lib.unit(conv.evaluate(pos))
        ii = lib.unit(dyn.evaluate(pos))
        start = lib.unit(obstacles[0].center_position - pos + 0.01)
        mid = lib.unit(start + 0.3 * ii)
        return (seqs.VectorRotationSequence.create_from_vector_array(
            np.vstack((start, mid, ii)).T),
            seqs.VectorRotationSequence.create_from_vector_array(np.vstack((start, cc)).T))
    for pos in grid(dim, case["tier"]):
        if not outside(obstacles, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        first, second = sequences(pos)
        got = ctx.call("avoid_sequence", avoider.avoid_sequence, pos, first, second)
        end = ctx.finite(got.get_end_vector(), "sequence")
        ctx.close(np.linalg.norm(end), 1.0, "unit direction", 1e-6)
        got = ctx.call("avoid_sequence", empty.avoid_sequence, pos, first, second)
        ctx.close(got.get_end_vector(), lib.unit(dyn.evaluate(pos)), "no obstacles", 1e-7)
    for dd in directions(dim, "quick"):
        pos = dd * 4e7
        if any(oo.is_boundary for oo in obstacles):
            continue
        first, second = sequences(pos)
        got = ctx.call("avoid_sequence", avoider.avoid_sequence, pos, first, second)
        ctx.close(got.get_end_vector(), lib.unit(conv.evaluate(pos)),
                  "convergence far away", 1e-4)
        got = ctx.call("avoid_sequence", avoider.avoid_sequence, pos, first, second,
                       convergence_default=False)
        ctx.close(got.get_end_vector(), lib.unit(dyn.evaluate(pos)), "initial far away", 1e-4)
    for jj, obs in enumerate(obstacles):
        for point, normal in surface(obs, directions(dim, "quick"), 0.0):
            if not outside(obstacles[:jj] + obstacles[jj + 1:], point, 1.001):
                continue
            for default in (True, False):
                first, second = sequences(point)
                got = ctx.call("avoid_sequence", avoider.avoid_sequence, point, first, second,
                               convergence_default=default)
                ctx.require(got.get_end_vector() @ normal > -1e-3, "never into the obstacle",
                            lambda: f"{point} {got.get_end_vector()} {normal}")


def sequence_cases(tier):
    return [cc for cc in field_cases(tier) if cc["conv"] and cc["dyn"] in ("turned", "spiral")]


FAMILIES = [Family("field", field_cases, field_run),
            Family("surface", field_cases, surface_run),
            Family("far away", lambda tier: [cc for cc in field_cases(tier)
                                             if cc["set"] != "wall"], far_run),
            Family("order", order_cases, order_run),
            Family("moving obstacle", moving_cases, moving_run),
            Family("local convergence", local_cases, local_run),
            Family("sequence", sequence_cases, sequence_run),
            Family("in a row", row_cases, row_run)]
