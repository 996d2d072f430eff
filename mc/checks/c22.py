"""C22: numerical building blocks give the values of their mathematical definition."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family

UTILS = "nonlinear_avoidance.utils"
MATH = "nonlinear_avoidance.gmm_learner.math_tools"
GAUSS = "nonlinear_avoidance.multivariant_gaussian"
SEQ = "nonlinear_avoidance.dynamics.sequenced_dynamics"
GEO = "nonlinear_avoidance.geometry"
HULL = "nonlinear_avoidance.multihull_convergence"


def rotation(dim, kk):
    if dim == 1:
        return np.eye(1)
    if dim == 2:
        return lib.rot2(0.8 * kk)
    from scipy.spatial.transform import Rotation
    return Rotation.from_rotvec(np.array([0.4, -0.9, 0.6]) * kk).as_matrix()


# --- Gaussian density -------------------------------------------------------------------
SCALES = (0.05, 0.7, 1.0, 4.0)


def gauss_cases(tier):
    turns = 3 if tier == "quick" else 7
    return [{"dim": dim, "scales": list(sc), "turn": kk}
            for dim in (1, 2, 3) for sc in itertools.product(SCALES, repeat=dim)
            for kk in range(turns if dim > 1 else 1)]


def run_gauss(ctx, case):
    mod = ctx.load(GAUSS)
    dim = case["dim"]
    scales = np.array(case["scales"])
    rot = rotation(dim, case["turn"])
    cov = rot @ np.diag(scales ** 2) @ rot.T
    mean = np.arange(1.0, dim + 1) * 0.3
    gauss = ctx.call("MultiVariantGaussian", mod.MultiVariantGaussian, mean, cov)
    given = ctx.call("MultiVariantGaussian", mod.MultiVariantGaussian, mean, cov,
                     np.linalg.inv(cov))
    ctx.require(gauss.dimension == dim, "dimension")
    for units in itertools.product((-2.0, -0.5, 0.0, 1.0, 4.0), repeat=dim):
        units = np.array(units)
        pos = mean + rot @ (units * scales)
        # density of the independent parts
        ref = np.prod(np.exp(-units ** 2 / 2) / (math.sqrt(2 * math.pi) * scales))
        grad = -rot @ (units / scales) * ref
        for item in (gauss, given):
            got = ctx.call("evaluate", item.evaluate, pos)
            ctx.close(got, ref, "density", 1e-9 * np.prod(1 / scales), 1e-6)
            got = ctx.call("evaluate_derivative", item.evaluate_derivative, pos)
            ctx.close(got, grad, "derivative of the density",
                      1e-8 * np.prod(1 / scales) / scales.min(), 1e-6)
        ctx.visit(dim, tuple(case["scales"]), case["turn"], tuple(units))
        ctx.outcome(dim, round(float(ref), 8))


# --- integration ------------------------------------------------------------------------
def rk_cases(tier):
    return [{"dim": dim, "turn": kk, "dt": dt, "factor": ff} for dim in (1, 2, 3)
            for kk in range(3 if dim > 1 else 1) for dt in (1e-3, 0.1, 0.5, 1.5)
            for ff in (1, 0.5, 2.0)]


def run_rk(ctx, case):
    mod = ctx.load(MATH)
    dim, dt, factor = case["dim"], case["dt"], case["factor"]
    rot = rotation(dim, case["turn"])
    for eig in itertools.product((-2.0, 0.0, 0.7), repeat=dim):
        mat = rot @ np.diag(eig)
        goal = np.arange(1.0, dim + 1)
        zz = mat * dt * factor
        flow = np.eye(dim) + zz + zz @ zz / 2 + zz @ zz @ zz / 6 + zz @ zz @ zz @ zz / 24
        for start in itertools.product((-1.0, 0.0, 2.5), repeat=dim):
            start = np.array(start)
            keep = start.copy()
            ref = goal + flow @ (start - goal)
            got = ctx.call("rk4", mod.rk4, dt, start, lambda x: mat @ (x - goal), k_f=factor)
            ctx.close(got, ref, "fourth order step", 1e-9, 1e-9)
            vel = 0.3 * np.ones(dim)

            def motion(posvel):  # the second half is a velocity which stays
                return mat @ (posvel[:dim] - goal) + 2.0 * posvel[dim:]

            got, step = ctx.call("rk4_pos_vel", mod.rk4_pos_vel, dt, start, vel, motion,
                                 k_f=factor)
            # a constant velocity c: x' = A (x-g) + 2c, i.e. one more (constant) state
            big = np.zeros((dim + 1, dim + 1))
            big[:dim, :dim] = mat * factor * dt
            big[:dim, dim] = 2.0 * vel * factor * dt
            full = sum((np.linalg.matrix_power(big, kk) / math.factorial(kk) for kk in range(5)))
            ref = (full @ np.append(start - goal, 1.0))[:dim] + goal
            ctx.close(got, ref, "fourth order step with velocity", 1e-9, 1e-9)
            ctx.close(step, ref - start, "step taken", 1e-9, 1e-9)
            ctx.close(start, keep, "start unchanged", 0)
            ctx.visit(dim, case["turn"], dt, factor, eig, tuple(start))
    # convergence to the exact solution of a nonlinear motion (fourth order)
    errors = []
    for num in (8, 16):
        pos = np.full(dim, 0.5)
        for _ in range(num):
            pos = mod.rk4(1.0 / num, pos, lambda x: x * (1 - x))
        errors.append(np.max(abs(pos - 1 / (1 + math.exp(-1.0)))))
    ctx.require(errors[1] < errors[0] / 12, "error decreases with the fourth power of the step",
                lambda: f"{errors}")
    ctx.outcome(dim, round(float(np.log10(errors[1])), 2))


# --- magnitudes -------------------------------------------------------------------------
def mag_cases(tier):
    return [{"dim": dim, "k": kk, "max": mm, "num": num} for dim in (1, 2, 3)
            for kk in (0.0, 0.5, 1, 4.0) for mm in (0.2, 1.0, 10.0) for num in (0, 1, 2, 3)]


def run_mag(ctx, case):
    mod = ctx.load(MATH)
    values = [np.array(vv) for vv in itertools.product((-1.0, 0.0, 0.5), repeat=case["dim"])]
    if not case["num"]:
        groups = [(vv,) for vv in values]
    else:
        groups = itertools.product(values[:9], repeat=case["num"])
    for group in groups:
        vec = group[0] if not case["num"] else np.array(group).T
        keep = vec.copy()
        ref = np.array([min(case["k"] * np.linalg.norm(vv), case["max"]) for vv in group])
        got = ctx.call("mag_linear_maximum", mod.mag_linear_maximum, vec, k=case["k"],
                       maxMag=case["max"])
        ctx.close(np.ravel(got), ref, "linear magnitude up to the maximum", 1e-12)
        ctx.close(vec, keep, "input unchanged", 0)
        ctx.visit(*case.values(), tuple(np.ravel(vec)))
        ctx.outcome(tuple(np.round(ref, 3)))


# --- bases ------------------------------------------------------------------------------
def basis_cases(tier):
    num = 24 if tier == "quick" else 96
    out = []
    for dim in (2, 3, 4):
        dirs = len(vectors(dim, num))
        for ii in range(dirs):
            out.append({"dim": dim, "first": ii, "num": num})
    return out


def vectors(dim, num):
    if dim == 2:
        return [np.array([math.cos(aa), math.sin(aa)])
                for aa in np.arange(num) * 2 * math.pi / num]
    out = [np.array(vv) / np.linalg.norm(vv)
           for vv in itertools.product((-1.0, 0.0, 1.0), repeat=dim) if any(vv)]
    if num > 24:
        out += [np.array(vv) / np.linalg.norm(vv)
                for vv in itertools.product((-0.9, 0.2, 0.7), repeat=dim)]
    return out


def run_basis(ctx, case):
    mod = ctx.load(UTILS)
    dim = case["dim"]
    all_vec = vectors(dim, case["num"])
    vec1 = all_vec[case["first"]]
    others = [(vv, False) for vv in all_vec]
    # (almost) the same and (almost) the opposite direction
    for eps in (1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e-16, 0.0):
        for ii in range(dim):
            for sign in (-1, 1):
                near = vec1 + eps * sign * np.eye(dim)[ii]
                near = near / np.linalg.norm(near)
                others += [(near, True), (-near, True)]
    for vec2, close_by in others:
        keep = vec1.copy(), vec2.copy()
        got = ctx.call("get_orthonormal_spanning_basis", mod.get_orthonormal_spanning_basis, vec1,
                       vec2)
        ctx.require(got.shape == (dim, 2), "two columns")
        ctx.finite(got, "basis")
        ctx.close(got.T @ got, np.eye(2), "orthonormal", 1e-6)
        ctx.close(got[:, 0], vec1, "starts with the first vector", 1e-12)
        ctx.close(got @ (got.T @ vec2), vec2, "second vector is in the plane", 1e-6)
        if abs(vec1 @ vec2) < 1 - 1e-6:
            ctx.require(got[:, 1] @ vec2 > 0, "second direction is on the side of the vector")
        ctx.close(np.append(vec1, vec2), np.append(*keep), "input unchanged", 0)
        ctx.visit(dim, case["first"], tuple(vec2))
        ctx.outcome(dim, round(float(vec1 @ vec2), 3))


# --- rays -------------------------------------------------------------------------------
def ray_cases(tier):
    return [{"dim": dim, "start": list(ss)} for dim in (2, 3)
            for ss in itertools.product((-1.0, 0.0, 0.5), repeat=dim)]


def run_ray(ctx, case):
    mod = ctx.load(UTILS)
    dim = case["dim"]
    start = np.array(case["start"])
    dirs = [np.array(vv) for vv in itertools.product((-1.0, 0.0, 2.0), repeat=dim)]
    points = [np.array(vv) for vv in itertools.product((-2.0, -0.3, 0.0, 1.0), repeat=dim)]
    for vec in dirs:
        ray = np.vstack((start, start + vec)).T
        for point in points:
            keep = ray.copy(), point.copy()
            got = ctx.call("project_point_onto_ray", mod.project_point_onto_ray, point, ray)
            ctx.visit(dim, tuple(start), tuple(vec), tuple(point))
            share = max(0.0, vec @ (point - start) / (vec @ vec)) if np.any(vec) else 0.0
            ctx.close(got, start + share * vec, "closest point of the ray", 1e-9)
            ctx.close(ray, keep[0], "ray unchanged", 0)
            ctx.close(point, keep[1], "point unchanged", 0)
            ctx.outcome(round(share, 4))


# --- motions as sequence ----------------------------------------------------------------
def seq_cases(tier):
    out = []
    for dim in (2, 3):
        for kind in ("attractor", "default", "both", "none", "own"):
            for turn in (0, 1, 2, 3):
                out.append({"dim": dim, "kind": kind, "turn": turn})
    return out


def run_seq(ctx, case):
    mod = ctx.load(SEQ)
    vec = ctx.load("nonlinear_avoidance.vector_rotation")
    dim, kind = case["dim"], case["kind"]
    rot = rotation(dim, case["turn"])
    goal = 0.25 * np.ones(dim)

    class Motion:
        def evaluate(self, position):
            if position[0] > 1.4:  # at rest behind a line
                return np.zeros(dim)
            return rot @ (goal - position)

    class Default:
        def evaluate(self, position):
            if position[1] > 1.4:
                return np.zeros(dim)
            return rotation(dim, 1) @ (goal - position) * 3

    motion = Motion()
    if kind in ("attractor", "both"):
        motion.attractor_position = goal
    default = Default() if kind in ("default", "both") else None
    marker = object()
    if kind == "own":
        motion.evaluate_dynamics_sequence = lambda position: marker
    for pos in itertools.product((-1.0, 0.25, 1.0, 2.0), repeat=dim):
        pos = np.array(pos)
        keep = pos.copy()
        args = (pos, motion) if default is None else (pos, motion, default)
        got = ctx.call("evaluate_dynamics_sequence", mod.evaluate_dynamics_sequence, *args)
        ctx.close(pos, keep, "position unchanged", 0)
        ctx.visit(dim, kind, case["turn"], tuple(pos))
        if kind == "own":
            ctx.require(got is marker, "motion which is a sequence already is used as it is")
            continue
        final = motion.evaluate(pos)
        base = final
        if kind == "attractor":
            base = goal - pos
        elif default is not None:
            base = default.evaluate(pos)
        rest = not np.linalg.norm(base) or not np.linalg.norm(final)
        ctx.require((got is None) == rest, "no sequence only at rest", lambda: f"{got}")
        if rest:
            continue
        ctx.require(isinstance(got, vec.VectorRotationSequence), "sequence of rotations")
        ctx.close(got.get_end_vector(), lib.unit(final), "ends in the direction of the motion", 1e-7)
        ctx.close(got.basis_array[:, 0, 0] if hasattr(got, "basis_array") else lib.unit(base),
                  lib.unit(base), "starts in the reference direction", 1e-7)
        angle = float(np.sum(np.abs(got.rotation_angles)))
        ctx.close(angle, lib.angle_between(base, final), "rotated by the angle between both", 1e-6)
        ctx.outcome(dim, round(angle, 4))


# --- shapes -----------------------------------------------------------------------------
def shape_cases(tier):
    out = []
    turns = (0.0, 0.5, 2.0) if tier == "quick" else (0.0, 0.5, 1.2, 2.0, 4.0)
    for kind1, kind2 in itertools.product(("half", "full"), repeat=2):
        for turn1 in turns:
            for turn2 in turns:
                for margin in (0.0, 0.3):
                    for center in itertools.product((-1.5, 0.0, 2.0), repeat=2):
                        out.append({"kinds": [kind1, kind2], "turns": [turn1, turn2],
                                    "margin": margin, "center": list(center)})
    return out


def body(kind, center, axes, turn, margin):
    import dynamic_obstacle_avoidance.obstacles as obstacles
    cls = {"half": obstacles.Ellipse, "full": obstacles.EllipseWithAxes}[kind]
    scale = 1.0 if kind == "half" else 2.0
    return cls(center_position=np.array(center), axes_length=np.array(axes) * scale,
               orientation=turn, margin_absolut=margin)


def run_shape(ctx, case):
    mod = ctx.load(GEO)
    from shapely.geometry import Point
    turn1, turn2 = case["turns"]
    kind1, kind2 = case["kinds"]
    first = body(kind1, [0.0, 0.0], [1.2, 0.6], turn1, case["margin"])
    second = body(kind2, case["center"], [0.8, 1.1], turn2, 0.0)
    for obs in (first, second):
        shape = ctx.call("create_shapely_ellipse", mod.create_shapely_ellipse, obs)
        points = np.array(shape.exterior.coords)
        for pos in points[::4]:
            ctx.close(obs.get_gamma(pos, in_global_frame=True), 1.0, "outline is on the surface",
                      1e-6)
        ctx.require(shape.contains(Point(obs.center_position)), "outline around the center")
        size = np.prod(obs.get_relative_axes() if hasattr(obs, "get_relative_axes") else
                       np.array(obs.axes_length) * (1 if isinstance(
                           obs, __import__("dynamic_obstacle_avoidance.obstacles", fromlist=["x"])
                           .Ellipse) else 0.5) + obs.margin_absolut)
        ctx.close(shape.area, math.pi * size, "area of the outline", 0, 0.01)
    got = ctx.call("get_intersection_of_obstacles", mod.get_intersection_of_obstacles, first, second)
    ctx.visit(*case["kinds"], turn1, turn2, case["margin"], tuple(case["center"]))
    # is there a common position: search on a fine grid
    best = 10.0
    for xx in np.linspace(-2.0, 2.5, 46):
        for yy in np.linspace(-2.0, 2.5, 46):
            pos = np.array([xx, yy])
            best = min(best, max(first.get_gamma(pos, in_global_frame=True),
                                 second.get_gamma(pos, in_global_frame=True)))
    ctx.outcome(got is None, round(best, 2))
    if best < 0.97:
        ctx.require(got is not None, "overlap found", lambda: f"{best}")
        for obs in (first, second):
            ctx.require(obs.get_gamma(got, in_global_frame=True) < 1 + 1e-6,
                        "common position is inside of both")
    elif best > 1.1:
        ctx.require(got is None, "no overlap", lambda: f"{got} {best}")


def touch_cases(tier):
    return [{"axes": list(ax), "gap": gap, "flip": flip} for ax in ((1.0, 1.0), (0.5, 2.0))
            for gap in (-1e-3, 0.0, 1e-3) for flip in (1, -1)]


def run_touch(ctx, case):
    mod = ctx.load(GEO)
    axes = case["axes"]
    first = body("half", [0.0, 0.0], axes, 0.0, 0.0)
    for axis in (0, 1):
        center = np.zeros(2)
        center[axis] = case["flip"] * (2 * axes[axis] + case["gap"])
        second = body("half", center, axes, 0.0, 0.0)
        got = ctx.call("get_intersection_of_obstacles", mod.get_intersection_of_obstacles, first,
                       second)
        ctx.visit(tuple(axes), case["gap"], case["flip"], axis)
        ctx.outcome(got is None)
        if case["gap"] > 0:
            ctx.require(got is None, "no overlap")
        elif case["gap"] < 0:
            ctx.require(got is not None, "overlap found")
        if got is not None:
            for obs in (first, second):
                ctx.require(obs.get_gamma(got, in_global_frame=True) < 1 + 1e-6,
                            "common position is inside of both")


# --- common position --------------------------------------------------------------------
def common_cases(tier):
    out = []
    turns = (0.0, 0.7, 2.0) if tier == "quick" else (0.0, 0.35, 0.7, 1.2, 2.0, 2.6)
    for dim in (2, 3):
        for ratio in (0.4, 1.0, 1.5):
            for slim in (0.6, 1.0):
                for turn in turns:
                    for depth in (0.3, 0.5, 0.7):
                        for boundary in (False, True):
                            out.append({"dim": dim, "ratio": ratio, "slim": slim, "turn": turn,
                                        "depth": depth, "boundary": boundary})
    return out


def run_common(ctx, case):
    mod = ctx.load(UTILS)
    import dynamic_obstacle_avoidance.obstacles as obstacles
    from scipy.spatial.transform import Rotation
    dim = case["dim"]

    def make(center, size, turn):
        axes = size * np.ones(dim)
        axes[0] *= case["slim"]
        pose = turn if dim == 2 else Rotation.from_rotvec([0.3 * turn, 0.0, turn])
        return obstacles.Ellipse(center_position=center, axes_length=axes, orientation=pose,
                                 is_boundary=case["boundary"])

    for direction in (lib.circle(8) if dim == 2 else lib.sphere26()):
        direction = lib.unit(np.array(direction))
        # a point deep within both by construction
        first = make(np.zeros(dim), 1.0, case["turn"])
        plain = obstacles.Ellipse(center_position=np.zeros(dim), axes_length=first.axes_length,
                                  orientation=first.orientation)
        reach1 = 0.01 / plain.get_gamma(0.01 * direction, in_global_frame=True)
        size = case["ratio"]
        axes = size * np.ones(dim)
        axes[0] *= case["slim"]
        turned = obstacles.Ellipse(center_position=np.zeros(dim), axes_length=axes)
        reach2 = 0.01 / turned.get_gamma(-0.01 * direction, in_global_frame=True)
        center = direction * case["depth"] * (reach1 + reach2)
        second = make(center, size, 0.0)
        shift = 0.4 * np.arange(1.0, dim + 1)
        found = []
        for offset in (np.zeros(dim), shift):
            pair = [first, second]
            for obs, start in zip(pair, (np.zeros(dim), center)):
                obs.center_position = start + offset
            ways = [{}]
            if case["boundary"]:
                ways.append({"powers": [-2, -2], "factors": [-1, -1]})
            else:
                ways.append({"powers": [2, 2], "factors": [-1, -1]})
            if case["depth"] > 0.6:  # little overlap: exact search
                ways = [{"it_max": 500, "convergence_error": 1e-3, **kwargs} for kwargs in ways]
            for kwargs in ways:
                got = ctx.call("gamma_normal_gradient_descent", mod.gamma_normal_gradient_descent,
                               pair, **kwargs)
                found.append(got - offset)
                for obs, start in zip(pair, (np.zeros(dim), center)):
                    ctx.close(obs.center_position, start + offset, "obstacles unchanged", 0)
                    gam = obs.get_gamma(got, in_global_frame=True)
                    ctx.require(gam > 1 if case["boundary"] else gam < 1,
                                "position is within both", lambda: f"{gam} {kwargs} {got}")
        for one, moved in zip(found[:2], found[2:]):
            ctx.close(one, moved, "moves along with the obstacles", 1e-6)
        ctx.visit(*case.values(), tuple(np.round(direction, 6)))
        ctx.outcome(tuple(np.round(found[0], 3)))


# --- weights of regions -----------------------------------------------------------------
def weight_cases(tier):
    return [{"n": nn} for nn in (1, 2, 3, 4)]


def run_weight(ctx, case):
    mod = ctx.load(HULL)
    for gam in itertools.product((0.0, 0.5, 1.0, 1.0 + 1e-9, 1.5, 3.0, 1e6), repeat=case["n"]):
        gam = np.array(gam)
        keep = gam.copy()
        got = ctx.call("get_weight_gamma_for_hulls", mod.get_weight_gamma_for_hulls, gam)
        ctx.visit(tuple(gam))
        ctx.close(gam, keep, "input unchanged", 0)
        inside = np.maximum(gam - 1, 0)
        total = inside.sum()
        ctx.close(got, inside / total if total else np.zeros(len(gam)),
                  "weights are the shares of the depth within the regions", 1e-9)
        ctx.outcome(tuple(np.round(got, 3)))


FAMILIES = [
    Family("gaussian", gauss_cases, run_gauss),
    Family("integration", rk_cases, run_rk),
    Family("magnitude", mag_cases, run_mag),
    Family("basis", basis_cases, run_basis),
    Family("ray", ray_cases, run_ray),
    Family("sequence", seq_cases, run_seq),
    Family("shapes", shape_cases, run_shape),
    Family("touching", touch_cases, run_touch),
    Family("common", common_cases, run_common),
    Family("weights", weight_cases, run_weight),
]
