"""C07: weights which blend obstacles, components and initial motion."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c05 import make_obstacle, LOCAL2, AXES2, POSES2, LOCAL3, AXES3, POSES3

MOD = "nonlinear_avoidance.multi_obstacle_avoider"
ROT = "nonlinear_avoidance.avoidance.rotational_avoider"


# ------------------------------------------------------------------- limited sums
SHARES = (0.0, 0.1, 0.25, 0.5, 0.9, 1 - 1e-9, 1.0, 1.5)


def limited_cases(tier):
    n_max = 4 if tier == "quick" else 5
    return [{"weights": list(ww)} for nn in range(1, n_max + 1)
            for ww in itertools.product(range(len(SHARES)), repeat=nn)]


def limited_run(ctx, case):
    mod = ctx.load(MOD)
    weights = [SHARES[ii] for ii in case["weights"]]
    given = [list(weights), np.array(weights)]
    if all(ww == int(ww) for ww in weights):
        given.append([int(ww) for ww in weights])
    ctx.visit(*weights)
    for arg in given:
        keep = np.array(arg, dtype=float)
        out, total = ctx.call("get_limited_weights_to_max_sum",
                              mod.get_limited_weights_to_max_sum, arg)
        ctx.close(arg, keep, "input unchanged", 0)
        out = ctx.finite(out, "limited weights")
        if sum(weights) < 1:
            ctx.close(out, keep, "weights below the limit are kept", 1e-12)
            ctx.close(total, sum(weights), "total below the limit", 1e-12)
            continue
        ctx.close(total, 1.0, "total at the limit", 1e-9)
        ctx.close(np.sum(out), 1.0, "limited weights sum to one", 1e-9)
        ctx.require(bool(np.all(out >= 0)), "no negative weights", lambda: f"{out}")
        full = keep >= 1
        if np.any(full):
            ctx.close(out, full / np.sum(full), "full weights share everything equally", 1e-9)
        ctx.require(bool(np.all(out[keep == 0] == 0)), "zero weights stay zero", lambda: f"{out}")
        order = np.argsort(keep)
        ctx.require(bool(np.all(np.diff(out[order]) >= -1e-9)), "order of the weights is kept",
                    lambda: f"{keep} {out}")
        ctx.outcome(*np.round(out, 6))
        twin, _ = mod.get_limited_weights_to_max_sum(list(keep[::-1]))
        ctx.close(twin[::-1], out, "weights do not depend on the order", 1e-9)


# ------------------------------------------------------------------- weights from distances
GAMMAS = (0.2, 1.0, 1 + 1e-9, 1.05, 1.6, 3.0, 40.0, 1e8)


def distance_cases(tier):
    n_max = 4 if tier == "quick" else 5
    out = [{"gammas": list(gg)} for nn in range(1, n_max + 1)
           for gg in itertools.product(range(len(GAMMAS)), repeat=nn)]
    return out


def distance_run(ctx, case):
    mod = ctx.load(MOD)
    gammas = np.array([GAMMAS[ii] for ii in case["gammas"]])
    static = mod.MultiObstacleAvoider.compute_weights_from_distances
    for power, limit, which in itertools.product((1, 2, 0.5), (1.0, 0.5), ("gamma", "dist")):
        if which == "dist" and power != 1:
            continue
        args = gammas - 1 + limit
        keep = args.copy()
        if which == "gamma":
            out = ctx.call("compute_gamma_weights", mod.compute_gamma_weights, args, limit, power)
            again = mod.compute_gamma_weights(list(args[::-1]), limit, power)[::-1]
        else:
            out = ctx.call("compute_weights_from_distances", static, args, limit)
            again = static(args[::-1], limit)[::-1]
            raw = ctx.call("compute_weights_from_distances", static, args, limit, normalize=False)
            ctx.close(raw / max(np.sum(raw), 1), out, "normalisation only scales", 1e-9)
        ctx.close(args, keep, "input unchanged", 0)
        out = ctx.finite(out, "weights")
        ctx.visit(tuple(case["gammas"]), power, limit, which)
        ctx.require(bool(np.all(out >= 0)), "no negative weights", lambda: f"{out}")
        ctx.require(np.sum(out) <= 1 + 1e-9, "weights sum to at most one", lambda: f"{out}")
        crit = keep <= limit
        if np.any(crit):
            ctx.close(out, crit / np.sum(crit), "touching obstacles share everything equally", 1e-9)
        else:
            dist = keep - limit
            total = min(1.0, np.sum(dist ** -float(power)))
            ctx.close(np.sum(out), total, "weights fade only if all are far", 1e-6)
            ref = dist ** -float(power)
            ctx.close(out, ref / np.sum(ref) * total, "closer obstacles weigh inversely more",
                      1e-6)
        ctx.close(again, out, "weights do not depend on the order", 1e-9)
        ctx.outcome(*np.round(out, 6))


# ------------------------------------------------------------------- rotation weights
def _frame(dim, kk):
    """Orthonormal frames."""
    if dim == 2:
        return lib.rot2(0.3 + kk * 2 * math.pi / 5)
    return lib.Rotation.from_rotvec([[0, 0, 0], [0.4, -1.0, 2.0], [2.0, 1.0, -0.3],
                                     [-1.0, -1.0, 0.2]][kk]).as_matrix()


def _polar(dim, theta, phi):
    """Unit vector at angle theta from the first axis."""
    if dim == 2:
        return np.array([math.cos(theta), math.sin(theta) * (1 if phi == 0 else -1)])
    return np.array([math.cos(theta), math.sin(theta) * math.cos(phi),
                     math.sin(theta) * math.sin(phi)])


def rotation_cases(tier):
    out = []
    for dim in (2, 3):
        phis = (0.0, math.pi) if dim == 2 else tuple(np.arange(6 if tier == "quick" else 12)
                                                     * math.pi / (3 if tier == "quick" else 6))
        thetas = np.linspace(0, math.pi, 13 if tier == "quick" else 37)
        for ref in (0.0, 0.3, 0.9, 1.4, 1.56):
            for theta in thetas:
                for phi in phis:
                    out.append({"dim": dim, "ref": ref, "theta": float(theta), "phi": float(phi)})
    return out


LEVELS = (0.5, 1.0, 1 + 1e-6, 1.05, 1.3, 2.0, 5.0, 50.0, 1e4)


def rotation_run(ctx, case):
    mod = ctx.load(ROT)
    dim = case["dim"]
    avoider = mod.RotationalAvoider()
    values = {}
    for kk in range(4):
        frame = _frame(dim, kk)
        inward = frame @ _polar(dim, 0.0, 0.0)
        ref = frame @ _polar(dim, case["ref"], 0.0)
        conv = frame @ _polar(dim, case["theta"], case["phi"])
        base = np.hstack((inward.reshape(-1, 1), frame[:, 1:]))
        for power, which in itertools.product((0.3, 1.0), ("rotation", "continuation")):
            last = None
            for gam in LEVELS:
                if which == "rotation":
                    ww = ctx.call("get_rotation_weight", mod.RotationalAvoider.get_rotation_weight,
                                  normal_vector=-inward, reference_vector=ref,
                                  convergence_vector=conv, gamma_value=gam,
                                  smooth_continuation_power=power)
                else:
                    avoider.smooth_continuation_power = power
                    ww = ctx.call("get_smooth_continuation_weight",
                                  avoider.get_smooth_continuation_weight, gamma=gam,
                                  vector_reference=ref, vector_convergence=conv, base=base)
                ww = float(ctx.finite(ww, "weight"))
                ctx.visit(kk, dim, case["ref"], case["theta"], case["phi"], power, which, gam)
                ctx.require(0 <= ww <= 1, "weight is between zero and one", lambda: f"{ww}")
                if gam <= 1:
                    ctx.close(ww, 1.0, "full weight on the surface", 1e-9)
                else:
                    ctx.require(ww <= 1 / gam + 1e-9, "weight fades with the distance",
                                lambda: f"{ww} {gam}")
                ctx.require(last is None or ww <= last + 1e-9, "weight decreases with the distance",
                            lambda: f"{ww} {last} {gam}")
                if case["theta"] <= math.pi / 2 and gam > 1.04:
                    # smoothness: none of the avoidance remains when heading to the reference
                    if np.allclose(ref, conv):
                        ctx.require(ww < 1e-3 if power > 0.2 and gam > 1.2 else True,
                                    "no weight when heading for the reference", lambda: f"{ww}")
                if case["theta"] > math.pi / 2 + 1e-3 and which == "continuation":
                    ctx.close(ww, min(1.0, 1 / gam), "full decay law when heading away", 1e-9)
                if abs(case["theta"] - math.pi / 2) < 1e-9:
                    ctx.require(ww > 0.9 / gam - 1e-9 if gam > 1 else True,
                                "full decay law when heading along the surface",
                                lambda: f"{ww} {gam}")
                key = (which, power, gam)
                # (ill-conditioned where reference and convergence are (anti-)parallel)
                ctx.require(abs(abs(ref @ conv) - 1) < 1e-9
                            or abs(values.setdefault(key, ww) - ww) < 1e-6,
                            "weight does not depend on the orientation of the scene",
                            lambda: f"{values[key]} {ww} {key}")
                last = ww
                ctx.outcome(round(ww, 4))


# ------------------------------------------------------------------- weights of components
def tree_cases(tier):
    out = []
    parents = [[], [0], [0, 0], [0, 1], [0, 1, 1], [0, 1, 2]]
    for dim in (2, 3):
        for par in parents:
            if dim == 3 and len(par) > 2:
                continue
            for pp in range(3):
                for kinds in ("E", "C", "EC"):
                    out.append({"dim": dim, "parents": par, "pose": pp, "kinds": kinds,
                                "fine": tier == "thorough"})
    return out


def build(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_obstacle")
    dim = case["dim"]
    poses, locs, axes = (POSES2, LOCAL2, AXES2) if dim == 2 else (POSES3, LOCAL3, AXES3)
    multi = mod.MultiObstacle(lib.make_pose(*poses[case["pose"]]))
    refs = [np.zeros(dim), np.array([-0.3, -0.25, -0.1][:dim]), np.array([0.3, -0.3, 0.1][:dim]),
            np.array([-0.2, 0.5][:dim])]
    for ii in range(len(case["parents"]) + 1):
        obs = make_obstacle(case["kinds"][ii % len(case["kinds"])], axes[ii], locs[ii])
        if ii == 0:
            multi.set_root(obs)
        else:
            multi.add_component(obs, parent_ind=case["parents"][ii - 1],
                                reference_position=refs[ii])
    return multi, lib.matrix_of(dim, poses[case["pose"]][1]), np.array(poses[case["pose"]][0])


def tree_run(ctx, case):
    mod = ctx.load(MOD)
    dim = case["dim"]
    multi, mat, shift = build(ctx, case)
    avoider = mod.MultiObstacleAvoider(obstacle=multi)
    steps = np.linspace(-4, 4, (9 if dim == 2 else 5) * (2 if case["fine"] else 1)) + 0.0173
    for loc in itertools.product(steps, repeat=dim):
        pos = mat @ np.array(loc) + shift
        gammas = [obs.get_gamma(pos, in_global_frame=True) for obs in multi]
        normals = [obs.get_normal_direction(pos, in_global_frame=True) for obs in multi]
        ctx.visit(dim, tuple(case["parents"]), case["pose"], case["kinds"], tuple(loc))
        mean, gam = ctx.call("compute_averaged_normal_and_gamma",
                             avoider.compute_averaged_normal_and_gamma, pos)
        ctx.close(gam, min(gammas), "gamma of the environment is the smallest one", 1e-9)
        ctx.require(np.linalg.norm(mean) <= 1 + 1e-9, "mean normal is a mean", lambda: f"{mean}")
        inside = [nn for nn, gg in zip(normals, gammas) if gg <= 1]
        if inside:
            ctx.close(mean, np.mean(inside, axis=0), "components at the robot give the normal",
                      1e-6)
        if min(gammas) <= 1:
            continue
        # components hidden behind their parent
        weights = ctx.call("compute_parent_occlusion_weight",
                           avoider.compute_parent_occlusion_weight, pos, multi)
        weights = ctx.finite(weights, "occlusion weights")
        ctx.require(weights.shape == (len(gammas),), "one weight per component")
        ctx.require(bool(np.all((weights >= 0) & (weights <= 1))), "weights between zero and one",
                    lambda: f"{weights}")
        ctx.require(weights[0] == 1, "the root is never hidden")
        facing = []
        for ii, obs in enumerate(multi):
            ref = obs.get_reference_point(in_global_frame=True)
            facing.append(_facing_point(obs, pos, ref))
        for ii in range(1, len(gammas)):
            par = multi.get_component(case["parents"][ii - 1])
            gam = par.get_gamma(facing[ii], in_global_frame=True)
            if gam > 1 + 1e-6:
                ctx.require(weights[ii] == 1, "a visible component keeps its weight",
                            lambda: f"{ii} {weights} {gam}")
            elif gam < 1 - 1e-6:
                ctx.require(weights[ii] < 1, "a hidden component loses weight",
                            lambda: f"{ii} {weights} {gam}")
        if len(gammas) > 1:
            shares = ctx.call("compute_occlusion_weights", avoider.compute_occlusion_weights, pos,
                              multi)
            shares = ctx.finite(shares, "component shares")
            ctx.close(np.sum(shares), 1.0, "component shares sum to one", 1e-9)
            ctx.require(bool(np.all(shares >= 0)), "no negative share")
            hidden = [multi.get_gamma_except_components(ff, [ii]) < 1 - 1e-6
                      for ii, ff in enumerate(facing)]
            visible = [multi.get_gamma_except_components(ff, [ii]) > 1.15
                       for ii, ff in enumerate(facing)]
            if any(visible):
                for ii, hid in enumerate(hidden):
                    ctx.require(not hid or shares[ii] == 0, "a hidden component has no share",
                                lambda: f"{ii} {shares}")
                    ctx.require(not visible[ii] or shares[ii] > 0, "a visible component has a share",
                                lambda: f"{ii} {shares}")
            ctx.outcome(*np.round(shares, 3))


def _facing_point(obs, pos, ref):
    """Independent: surface point on the way from the position to the reference (bisection)."""
    low, high = 0.0, 1.0
    for _ in range(60):
        mid = 0.5 * (low + high)
        if obs.get_gamma(pos + mid * (ref - pos), in_global_frame=True) > 1:
            low = mid
        else:
            high = mid
    return pos + high * (ref - pos)


# ------------------------------------------------------------------- arrays of occlusion values
def array_cases(tier):
    vals = (-1.0, -0.3, -0.3001, 0.0, 0.2, 1.0)
    return [{"values": list(vv)} for nn in range(1, 5 if tier == "quick" else 6)
            for vv in itertools.product(vals, repeat=nn)]


def array_run(ctx, case):
    mod = ctx.load(MOD)
    vals = np.array(case["values"])
    keep = vals.copy()
    out = ctx.call("evaluate_occlusion_array", mod.MultiObstacleAvoider.evaluate_occlusion_array,
                   vals)
    ctx.close(vals, keep, "input unchanged", 0)
    ctx.visit(*case["values"])
    out = ctx.finite(out, "shares")
    if np.any(vals > 0):
        exp = np.maximum(vals, 0) / np.sum(np.maximum(vals, 0))
    else:
        exp = (vals == np.max(vals)) / np.sum(vals == np.max(vals))
    ctx.close(out, exp, "positive values share proportionally, otherwise the largest win", 1e-9)
    for gam in vals:
        single = ctx.call("compute_single_occlusion_weight",
                          mod.MultiObstacleAvoider.compute_single_occlusion_weight, gam + 1)
        ctx.require(-1.0 - 1e-9 <= single < 1 and (single > 0) == (gam > 0),
                    "single occlusion weight", lambda: f"{gam} {single}")


# ------------------------------------------------------------------- attractor close to obstacle
def attractor_cases(tier):
    return [{"axes": axes, "angle": ang, "kind": kind, "n": 16 if tier == "quick" else 64}
            for axes in ((2.0, 2.0), (1.0, 3.0)) for ang in (0.0, 0.8) for kind in "EC"]


def attractor_run(ctx, case):
    mod = ctx.load(MOD)
    tree = ctx.load("nonlinear_avoidance.multi_obstacle").MultiObstacle(
        lib.make_pose((0.5, -0.5), 0.2))
    tree.set_root(make_obstacle(case["kind"], case["axes"], ((0.3, 0.1), case["angle"])))
    from vartools.dynamical_systems import LinearSystem
    for direction in lib.circle(case["n"]):
        last = -1.0
        for dist in np.linspace(0, 6, 61):
            attr = np.array([0.5, -0.5]) + direction * dist
            avoider = mod.MultiObstacleAvoider(obstacle=tree, initial_dynamics=LinearSystem(
                attractor_position=attr))
            gam = tree.get_gamma(attr)
            got = ctx.call("compute_tree_weight", avoider.compute_tree_weight, tree)
            ctx.visit(tuple(direction), dist)
            ctx.close(got, min(max(gam - 1, 0), 1), "convergence fades as the attractor gets close",
                      1e-6)
            if gam > 1:
                ctx.require(got >= last - 1e-9, "monotone")
                last = got
            half = avoider.compute_tree_weight(tree, gamma_decreasing_influence=3.0)
            ctx.close(half, min(max((gam - 1) / 2, 0), 1), "limit of the fading", 1e-6)
    free = mod.MultiObstacleAvoider(obstacle=tree)
    ctx.close(free.compute_tree_weight(tree), 1.0, "no attractor, no fading", 0)


FAMILIES = [
    Family("limited sums", limited_cases, limited_run),
    Family("weights from distances", distance_cases, distance_run),
    Family("rotation weights", rotation_cases, rotation_run),
    Family("component weights", tree_cases, tree_run),
    Family("occlusion arrays", array_cases, array_run),
    Family("attractor near an obstacle", attractor_cases, attractor_run),
]
