"""C11: avoidance of trees of obstacles."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import Constant, Moved, Turned, directions, grid, outside, scene_key, surface

AVOID = "nonlinear_avoidance.multi_obstacle_avoider"


class Weave:
    """Deviates to both sides of a constant direction; no attractor."""

    def __init__(self, base, angle):
        self.base = lib.unit(base)
        self.dimension = len(base)
        self.angle = angle

    def evaluate(self, position):
        ang = self.angle * math.sin(0.8 * position[0] + 0.5 * position[1])
        out = self.base.copy()
        out[0] = math.cos(ang) * self.base[0] - math.sin(ang) * self.base[1]
        out[1] = math.sin(ang) * self.base[0] + math.cos(ang) * self.base[1]
        return 0.7 * out

    def evaluate_dynamics_sequence(self, position):
        return sequence(self.base, self.evaluate(position))


class MovedWeave(Moved):
    def evaluate_dynamics_sequence(self, position):
        return sequence(self.rot @ self.base.base, self.evaluate(position))


def sequence(base, final):
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence
    return VectorRotationSequence.create_from_vector_array(np.vstack((base, final)).T)


class MovedAttractor(Moved):
    def __init__(self, base, rot, shift):
        super().__init__(base, rot, shift)
        self.attractor_position = rot @ base.attractor_position + shift
        self.attractor = self.attractor_position


def moved(dyn, rot, shift):
    if dyn is None:
        return None
    if isinstance(dyn, Weave):
        return MovedWeave(dyn, rot, shift)
    return (MovedAttractor if hasattr(dyn, "attractor_position") else Moved)(dyn, rot, shift)


def dynamics(name, dim):
    """Initial motion, and the reference motion where there is no attractor."""
    att = np.array([4.3, 0.4, -0.3][:dim])
    if name == "constant":
        dyn = Constant([0.9, 0.35, 0.2][:dim])
        return dyn, dyn
    if name == "weave":
        base = [1.0, 0.2, 0.1][:dim]
        return Weave(base, 1.3), Constant(base)
    dyn = {"linear": lambda: Turned(att, 0.0), "fast": lambda: Turned(att, 0.0, speed=4.0),
           "limited": lambda: Turned(att, 0.0, maximum=1.0),
           "turned": lambda: Turned(att, 0.6, maximum=0.7),
           "spiral": lambda: Turned(att, -1.2, maximum=1.0)}[name]()
    dyn.attractor = dyn.attractor_position
    return dyn, None


FRAMES = {2: ((0.0, (0.0, 0.0)), (0.7, (0.3, -0.2)), (2.6, (-0.5, 0.4))),
          3: (((0, 0, 0), (0, 0, 0)), ((0.3, -0.4, 0.8), (0.2, 0.1, -0.3)))}


def ell(pos, axes, ori=None, box=False):
    from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse
    pos = np.array(pos, dtype=float)
    if ori is None:
        ori = 0.0 if len(pos) == 2 else (0, 0, 0)
    return (CuboidXd if box else Ellipse)(
        axes_length=np.array(axes, dtype=float), center_position=pos,
        orientation=lib.make_orientation(len(pos), ori))


def trees(name, dim, kk, rot=None, shift=None):
    """List of the trees of a scene; the pose of frame kk, then moved by rot and shift."""
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    ori, pos = FRAMES[dim][kk]
    pos = np.array(pos, dtype=float)
    mat = lib.matrix_of(dim, ori)
    if rot is not None:
        pos, mat = rot @ pos + shift, rot @ mat

    def pose(offset=(0.0, 0.0, 0.0)):
        from vartools.states import Pose
        from scipy.spatial.transform import Rotation
        off = mat @ np.array(offset[:dim], dtype=float)
        return Pose(pos + off, math.atan2(mat[1, 0], mat[0, 0]) if dim == 2
                    else Rotation.from_matrix(mat))

    def tree(offset, root, *parts):
        mult = MultiObstacle(pose(offset))
        mult.set_root(root)
        for part, parent, ref in parts:
            mult.add_component(part, parent_ind=parent, reference_position=ref)
        return mult
    zero = (0.0, 0.0, 0.0)
    if dim == 2:
        if name == "single":
            return [tree(zero, ell((0, 0), (3.0, 1.6)))]
        if name == "box":
            return [tree(zero, ell((0, 0), (2.4, 1.2), box=True))]
        if name == "angle":
            return [tree(zero, ell((0, 0), (4.0, 1.0)),
                         (ell((-1.6, 1.4), (3.8, 1.0), math.pi / 2), 0, None))]
        if name == "triple":
            return [tree(zero, ell((0, 0), (4.0, 1.5)),
                         (ell((-1.7, 1.7), (4.0, 1.5), math.pi / 2), 0, None),
                         (ell((1.7, 1.7), (4.0, 1.5), -math.pi / 2), 0, None))]
        if name == "chain":
            return [tree(zero, ell((-1.2, 0), (2.6, 1.0)),
                         (ell((0, 1.0), (2.8, 0.9), math.pi / 2), 0, (-1.0, 0.0)),
                         (ell((1.0, 2.0), (2.6, 0.8)), 1, (-1.0, 0.0)))]
        if name == "arch":
            from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
            return [create_arch_obstacle(wall_width=0.4, axes_length=np.array([3.0, 4.0]),
                                         pose=pose())]
        if name == "person":
            from nonlinear_avoidance.multi_body_human import create_2d_human
            person = create_2d_human()
            person.update_pose(pose())
            return [person]
        if name == "two":
            return [tree((-1.0, 1.4), ell((0, 0), (2.0, 1.2)),
                         (ell((0.5, 0.5), (2.0, 0.6), 1.1), 0, (-0.5, 0.0))),
                    tree((0.6, -1.7), ell((0, 0), (1.4, 1.4)))]
        if name == "three":
            return [tree((-1.9, 1.7), ell((0, 0), (1.3, 0.9))),
                    tree((0.5, 0.0), ell((0, 0), (0.8, 1.2))),
                    tree((-1.1, -1.8), ell((0, 0), (1.0, 1.0), box=True))]
    if name == "single":
        return [tree(zero, ell(zero, (3.0, 1.6, 2.0)))]
    if name == "box":
        return [tree(zero, ell(zero, (2.0, 1.6, 1.2), box=True))]
    if name == "angle":
        return [tree(zero, ell(zero, (3.0, 1.2, 1.4)),
                     (ell((-1.2, 1.0, 0.2), (2.8, 1.0, 1.0), (0, 0, math.pi / 2)), 0,
                      (-1.0, 0.0, 0.0)))]
    if name == "two":
        return [tree((-1.0, 1.4, 0.2), ell(zero, (2.0, 1.2, 1.0))),
                tree((0.6, -1.4, -0.3), ell(zero, (1.4, 1.4, 1.4)))]
    raise KeyError(name)


def container(obstacles):
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
    cont = MultiObstacleContainer()
    for obs in obstacles:
        cont.append(obs)
    return cont


def make(ctx, mod, obstacles, dyn, ref, radius=math.pi / 2, **kwargs):
    return ctx.call("create_with_convergence_dynamics",
                    mod.MultiObstacleAvoider.create_with_convergence_dynamics,
                    obstacle_container=container(obstacles), initial_dynamics=dyn,
                    reference_dynamics=ref, convergence_radius=radius, **kwargs)


def parts(obstacles):
    return [comp for tree in obstacles for comp in tree]


def field_cases(tier):
    out = []
    for dim in (2, 3):
        names = (("single", "box", "angle", "triple", "chain", "arch", "two", "three")
                 if dim == 2 else ("single", "box", "angle", "two"))
        for name in names:
            for kk in range(len(FRAMES[dim])):
                for dyn in ("limited", "linear", "fast", "turned", "spiral", "constant",
                            "weave"):
                    for radius in (math.pi / 2, 0.75 * math.pi):
                        if tier == "quick" and (kk + len(dyn) + (radius > 2)) % 2 \
                                and name != "single":
                            continue
                        if tier == "quick" and dim == 3 and dyn in ("fast", "spiral", "linear"):
                            continue
                        out.append({"dim": dim, "scene": name, "frame": kk, "dyn": dyn,
                                    "radius": radius, "tier": tier})
    return out


def fallback(case, dim, dyn):
    """Motion which replaces the initial one at the obstacles."""
    kind = case.get("fallback")
    if kind is None:
        return None
    return dyn if kind == "same" else dynamics(kind, dim)[0]


def fallback_cases(tier):
    out = []
    for dim in (2, 3):
        for name in ("single", "box", "angle", "chain", "two", "three") if dim == 2 else ("angle",
                                                                                          "two"):
            for nn, (dyn, kind) in enumerate((
                    ("turned", "same"), ("turned", "limited"), ("spiral", "limited"),
                    ("limited", "turned"), ("limited", "same"), ("spiral", "turned"))):
                for kk in range(len(FRAMES[dim])):
                    if tier == "quick" and kk != nn % len(FRAMES[dim]):
                        continue
                    out.append({"dim": dim, "scene": name, "frame": kk, "dyn": dyn,
                                "fallback": kind, "radius": math.pi / 2, "tier": tier})
    return out


def snapshot(obstacles):
    return [(comp.center_position.copy(), lib.pose_matrix(comp.pose).copy(),
             np.copy(comp.axes_length), np.copy(comp.reference_point))
            for comp in parts(obstacles)]


def field_run(ctx, case):
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    comps = parts(obstacles)
    dyn, ref = dynamics(case["dyn"], dim)
    extra = fallback(case, dim, dyn)
    avoider = make(ctx, mod, obstacles, dyn, ref, case["radius"], default_dynamics=extra)
    plain = make(ctx, mod, obstacles, dyn, ref, case["radius"]) if extra is dyn else None
    rot = lib.matrix_of(dim, 0.9 if dim == 2 else (0.5, -0.7, 0.3))
    shift = np.array([1.5, -2.0, 0.7][:dim])
    other = make(ctx, mod, trees(case["scene"], dim, case["frame"], rot, shift),
                 moved(dyn, rot, shift), moved(ref, rot, shift), case["radius"],
                 default_dynamics=moved(extra, rot, shift))
    before = snapshot(obstacles)
    attractor = getattr(dyn, "attractor_position", None)
    history = []
    for pos in grid(dim, case["tier"]):
        if not outside(comps, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        keep = pos.copy()
        init = dyn.evaluate(pos)
        vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos),
                         "velocity")
        ctx.require(vel.shape == (dim,), "shape of the velocity")
        ctx.close(pos, keep, "position unchanged", 0)
        ctx.require(np.linalg.norm(vel) <= np.linalg.norm(init) * (1 + 1e-9) + 1e-12,
                    "never faster than the initial motion", lambda: f"{pos} {vel} {init}")
        got = ctx.call("evaluate_sequence", other.evaluate_sequence, rot @ pos + shift)
        ctx.close(got, rot @ vel, "does not depend on the frame of reference", 2e-5)
        if plain is not None:
            ctx.close(ctx.call("evaluate_sequence", plain.evaluate_sequence, pos), vel,
                      "the motion as its own fall-back", 1e-9)
        history.append((pos, vel))
        ctx.outcome(*np.round(vel, 2))
    for pos, vel in history[::-1]:
        got = ctx.call("evaluate", avoider.evaluate, pos)
        ctx.close(got, vel, "does not depend on the history", 1e-9)
    if attractor is not None and outside(comps, attractor, 1.001):
        got = ctx.call("evaluate_sequence", avoider.evaluate_sequence, attractor.copy())
        ctx.close(got, np.zeros(dim), "at rest at the attractor", 1e-9)
    for old, new in zip(before, snapshot(obstacles)):
        for aa, bb in zip(old, new):
            ctx.close(bb, aa, "obstacles are not changed", 0)


def surface_run(ctx, case):
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    comps = parts(obstacles)
    dyn, ref = dynamics(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref, case["radius"],
                   default_dynamics=fallback(case, dim, dyn))
    for jj, obs in enumerate(comps):
        others = comps[:jj] + comps[jj + 1:]
        for distance in (0.0, 1e-9, 1e-6):
            for point, normal in surface(obs, directions(dim, case["tier"]), distance):
                if not outside(others, point, 1.02):
                    continue
                ctx.visit(scene_key(case), jj, distance, *point)
                speed = np.linalg.norm(dyn.evaluate(point))
                vel = ctx.call("evaluate_sequence", avoider.evaluate_sequence, point)
                vel = ctx.finite(vel, "velocity on the surface")
                ctx.require(vel @ normal >= -1e-3 * speed - 1e-9, "never into the obstacle",
                            lambda: f"{point} {vel} {normal} {vel @ normal}")
                ctx.require(np.linalg.norm(vel) <= speed * (1 + 1e-9),
                            "never faster than the initial motion")


def far_run(ctx, case):
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    dyn, ref = dynamics(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref, case["radius"])
    empty = make(ctx, mod, [], dyn, ref, case["radius"])
    for dd in directions(dim, "quick"):
        for dist in (1e2, 1e4, 1e6):
            pos = dd * dist
            init = dyn.evaluate(pos)
            ctx.visit(scene_key(case), *pos)
            vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos),
                             "velocity far away")
            gap = lib.angle_between(vel, init)
            ctx.require(gap <= 6.0 / math.sqrt(dist) + 1e-6,
                        "the influence fades with the distance",
                        lambda: f"{pos} {vel} {init} {gap}")
            ctx.require(np.linalg.norm(vel) >= np.linalg.norm(init) * (1 - 6.0 / math.sqrt(dist)),
                        "full speed far away", lambda: f"{pos} {vel} {init}")
        for scale in (0.2, 1.0, 40.0):
            got = ctx.call("evaluate_sequence", empty.evaluate_sequence, dd * scale)
            ctx.close(got, dyn.evaluate(dd * scale), "no obstacles: initial motion", 1e-7)


def inside_run(ctx, case):
    """A robot within an obstacle is pushed out."""
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    dyn, ref = dynamics(case["dyn"], dim)
    for obs, limit in itertools.product(parts(obstacles), (0.8, 0.4, None)):
        if len(obstacles[0]) > 1:
            break
        if limit != 0.8 and (case["dyn"] not in ("limited", "turned") or case["radius"] > 2):
            continue
        args = {} if limit == 0.8 else {"gamma_maximum_repulsion": limit}
        avoider = make(ctx, mod, obstacles, dyn, ref, case["radius"], **args)
        for dd in directions(dim, case["tier"]):
            for fact in (0.05, 0.3, 0.6, 0.9, 0.99):
                local = dd * obs.get_local_radius(dd) * fact
                pos = obs.pose.transform_position_from_relative(local)
                normal = obs.get_normal_direction(pos, in_global_frame=True)
                ctx.visit(scene_key(case), *pos)
                vel = ctx.call("evaluate_sequence", avoider.evaluate_sequence, pos)
                vel = ctx.finite(vel, "velocity within an obstacle")
                ctx.require(vel @ normal >= -1e-6, "never deeper into the obstacle",
                            lambda: f"{pos} {vel} {normal}")
                if limit is not None and fact < limit:
                    ctx.require(vel @ normal > 0.9 * np.linalg.norm(vel) > 0,
                                "pushed out of the obstacle", lambda: f"{pos} {vel} {normal}")


# --------------------------------------------------------------------------- order
def order_run(ctx, case):
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    comps = parts(obstacles)
    dyn, ref = dynamics(case["dyn"], dim)
    avoiders = [make(ctx, mod, list(oo), dyn, ref, case["radius"])
                for oo in itertools.permutations(obstacles)]
    single = make(ctx, mod, obstacles, dyn, ref, case["radius"])
    for pos in grid(dim, case["tier"], 0.03):
        if not outside(comps, pos, 1.001):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        exp = ctx.call("evaluate_sequence", single.evaluate_sequence, pos)
        for one in avoiders:
            ctx.close(ctx.call("evaluate_sequence", one.evaluate_sequence, pos), exp,
                      "order of the obstacles does not matter", 1e-6)


def order_cases(tier):
    return [cc for cc in field_cases(tier) if cc["scene"] in ("two", "three")]


# --------------------------------------------------------------------------- moving trees
LINEAR = [(0.0, 0.0, 0.0), (0.5, 0.0, 0.1), (-0.5, 0.3, 0.2), (0.0, -1.5, 0.4)]
ANGULAR = [0.0, 0.7, -1.3]
RATES = [None, 0.3, -0.2]


def moving_cases(tier):
    return [{"dim": dim, "scene": name, "frame": 1, "dyn": dyn, "lin": ll, "ang": aa,
             "rate": rr, "tier": tier, "radius": math.pi / 2}
            for dim in (2, 3) for name in ("single", "box", "angle")
            for dyn in ("limited", "turned", "constant")
            for ll in range(len(LINEAR)) for aa in range(len(ANGULAR))
            for rr in range(len(RATES))
            if tier != "quick" or (ll + aa + rr) % 2 == 1 or dyn == "limited"]


def ground_velocity(tree, point, lin, ang, rate):
    arm = point - tree.pose.position
    dim = len(point)
    out = lin + (ang * np.array([-arm[1], arm[0]]) if dim == 2 else np.cross(ang, arm))
    return out + (rate or 0.0) * arm


def moving_run(ctx, case):
    from vartools.states import Twist
    mod = ctx.load(AVOID)
    dim = case["dim"]
    tree, = trees(case["scene"], dim, case["frame"])
    still = trees(case["scene"], dim, case["frame"])
    dyn, ref = dynamics(case["dyn"], dim)
    lin = np.array(LINEAR[case["lin"]][:dim])
    ang = ANGULAR[case["ang"]]
    if dim == 3:
        ang = ang * lib.unit([0.3, -0.5, 1.0])
    rate = RATES[case["rate"]]
    tree.twist = Twist(lin, ang)
    if rate is not None:
        tree.deformation_rate = rate
    comps = list(tree)
    avoider = make(ctx, mod, [tree], dyn, ref)
    rest = make(ctx, mod, still, dyn, ref)
    for jj, obs in enumerate(comps):
        for point, normal in surface(obs, directions(dim, "quick")[::2], 0.0):
            if not outside(comps[:jj] + comps[jj + 1:], point, 1.02):
                continue
            ctx.visit(scene_key(case), jj, *point)
            ground = ground_velocity(tree, point, lin, ang, rate)
            got = ctx.call("compute_multiobstacle_relative_velocity",
                           mod.compute_multiobstacle_relative_velocity, point,
                           container([tree]))
            ctx.close(got, ground, "velocity of the surface", 1e-7)
            vel = ctx.finite(ctx.call("evaluate_sequence", avoider.evaluate_sequence, point),
                             "velocity")
            speed = np.linalg.norm(dyn.evaluate(point))
            ctx.require((vel - ground) @ normal >= -1e-3 * speed - 1e-7,
                        "never into the moving obstacle",
                        lambda: f"{point} {vel} {ground} {(vel - ground) @ normal}")
            exp = ctx.call("evaluate_sequence", rest.evaluate_sequence, point)
            ctx.close(vel - ground, exp, "moves along with the obstacle", 1e-6)
    for dd in directions(dim, "quick"):
        pos = dd * 1e5
        ctx.visit(scene_key(case), *pos)
        got = ctx.call("compute_multiobstacle_relative_velocity",
                       mod.compute_multiobstacle_relative_velocity, pos, container([tree]))
        if rate is None:
            ctx.require(np.linalg.norm(got) < 1e-4, "moving obstacles far away do not matter",
                        lambda: f"{got}")
        else:
            ctx.finite(got, "relative velocity")


# --------------------------------------------------------------------- on the line of saddles
def saddle_cases(tier):
    return [{"dim": dim, "scene": name, "frame": kk, "dyn": dyn, "radius": radius, "tier": tier}
            for dim in (2, 3) for name in ("single", "box", "two", "three")
            if dim == 2 or name != "three" for kk in (0, 1)
            for dyn in ("limited", "linear", "fast") for radius in (math.pi / 2, 0.75 * math.pi)]


def saddle_run(ctx, case):
    """Heading exactly for the reference point of an obstacle."""
    mod = ctx.load(AVOID)
    dim = case["dim"]
    obstacles = trees(case["scene"], dim, case["frame"])
    comps = parts(obstacles)
    dyn, ref = dynamics(case["dyn"], dim)
    avoider = make(ctx, mod, obstacles, dyn, ref, case["radius"])
    for tree in obstacles:
        center = tree.get_root().global_reference_point
        for dist in (0.5, 1.0, 1.7, 2.5, 4.0, 9.0, 90.0):
            pos = center + lib.unit(center - dyn.attractor_position) * dist
            if not outside(comps, pos, 1.0):
                continue
            for off in (0.0, 1e-12, 1e-9, 1e-7, 1e-5):
                point = pos.copy()
                point[1] += off
                ctx.visit(scene_key(case), *pos, off)
                init = dyn.evaluate(point)
                vel = ctx.call("evaluate_sequence", avoider.evaluate_sequence, point)
                vel = ctx.finite(vel, "velocity on the saddle line")
                ctx.require(np.linalg.norm(vel) <= np.linalg.norm(init) * (1 + 1e-9),
                            "never faster than the initial motion",
                            lambda: f"{point} {vel} {init}")


        # Close to the surface: slows down, to pass from one side to the other gradually
        root = tree.get_root()
        axis = lib.unit(center - dyn.attractor_position)
        side = lib.unit(np.eye(dim)[1] - axis * axis[1])
        for gamma in (1.0001, 1.001, 1.01, 1.1):
            low, high = 0.0, 20.0
            for _ in range(60):
                mid = 0.5 * (low + high)
                low, high = (mid, high) if root.get_gamma(
                    center + mid * axis, in_global_frame=True) < gamma else (low, mid)
            pos = center + high * axis
            if not outside(comps, pos, 1.00009):
                continue
            ctx.visit(scene_key(case), *pos)
            one, two = (ctx.call("evaluate_sequence", avoider.evaluate_sequence,
                                 pos + sign * 1e-7 * side) for sign in (-1, 1))
            ctx.close(one, two, "slows down where the way around changes sides",
                      0.04 * np.linalg.norm(dyn.evaluate(pos)))


# ------------------------------------------------------------------ parts which are hidden
def hidden_cases(tier):
    return [{"dim": dim, "frame": kk, "dyn": dyn, "heading": heading, "size": size,
             "turn": turn, "tier": tier}
            for dim in (2, 3) for kk in range(len(FRAMES[dim])) for dyn in ("constant", "weave")
            for heading in (math.pi, 2.6, -2.4, 1.7) for size in (0.7, 1.2, 2.2)
            for turn in (0.6, 1.1)]


def hidden_run(ctx, case):
    """A part straight behind its parent does not deviate the motion."""
    mod = ctx.load(AVOID)
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    dim = case["dim"]
    ori, pos = FRAMES[dim][case["frame"]]
    mat, pos = lib.matrix_of(dim, ori), np.array(pos, dtype=float)
    base = np.zeros(dim)
    base[:2] = mat[:2, :2] @ [math.cos(case["heading"]), math.sin(case["heading"])] \
        if dim == 2 else [math.cos(case["heading"]), math.sin(case["heading"])]
    base = base if dim == 2 else mat @ base
    dyn = Constant(base) if case["dyn"] == "constant" else Weave(base, 0.7)
    avoiders = []
    for sign in (1, -1):
        tree = MultiObstacle(lib.make_pose(pos, ori))
        tree.set_root(ell([0.0] * dim, [2.0, 3.0, 2.6][:dim]))
        turn = sign * case["turn"]
        tree.add_component(ell([-0.6] + [0.0] * (dim - 1), [case["size"], 0.4, 0.5][:dim],
                               turn if dim == 2 else (0.0, 0.0, turn)), parent_ind=0,
                           reference_position=np.zeros(dim))
        avoiders.append(make(ctx, mod, [tree], dyn, Constant(base)))
    for dist in (1.1, 1.3, 1.8, 2.5, 4.0):
        point = pos + mat @ np.array([dist] + [0.0] * (dim - 1))
        ctx.visit(scene_key(case), dist)
        one, two = (ctx.finite(ctx.call("evaluate_sequence", av.evaluate_sequence, point), "velocity")
                    for av in avoiders)
        ctx.close(one, two, "hidden parts do not deviate", 1e-5)
        ctx.outcome(*np.round(one, 2))


# ------------------------------------------------------------------ exactly opposite of obstacles
def line_cases(tier):
    from mc.checks import c21
    return c21.line_cases(tier)


def line_run(ctx, case):
    from mc.checks import c21
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    mod = ctx.load(AVOID)
    obstacles, dyn = c21.line_scene(case)
    trees_ = []
    for obs in obstacles:
        tree = MultiObstacle(lib.make_pose(np.zeros(case["dim"]),
                                           0.0 if case["dim"] == 2 else (0, 0, 0)))
        tree.set_root(obs)
        trees_.append(tree)
    avoiders = [make(ctx, mod, list(oo), dyn, None) for oo in itertools.permutations(trees_)]
    c21.line_check(ctx, case, obstacles, dyn, avoiders, "evaluate_sequence")


FAMILIES = [Family("field", field_cases, field_run),
            Family("surface", field_cases, surface_run),
            Family("fall-back", fallback_cases, field_run),
            Family("fall-back surface", fallback_cases, surface_run),
            Family("far away", field_cases, far_run),
            Family("inside", lambda tier: [cc for cc in field_cases(tier)
                                           if cc["scene"] in ("single", "box", "three")],
                   inside_run),
            Family("order", order_cases, order_run),
            Family("moving obstacle", moving_cases, moving_run),
            Family("saddle line", saddle_cases, saddle_run),
            Family("hidden parts", hidden_cases, hidden_run),
            Family("opposite of obstacles", line_cases, line_run)]
