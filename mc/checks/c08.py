"""C08: tangents around an obstacle."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c03 import model
from mc.checks.c07 import _frame, _polar

ROT = "nonlinear_avoidance.avoidance.rotational_avoider"
RADII = (math.pi / 2, 0.6 * math.pi, 0.75 * math.pi, 0.95 * math.pi)


def log_map(center, vec):
    """Tangent vector at center: direction and angle towards vec."""
    vec = lib.unit(vec)
    perp = vec - center * (center @ vec)
    norm = np.linalg.norm(perp)
    if norm < 1e-12:
        return np.zeros_like(vec)
    return perp / norm * math.atan2(norm, center @ vec)


def exp_map(center, tang):
    ang = np.linalg.norm(tang)
    if ang < 1e-14:
        return center.copy()
    return math.cos(ang) * center + math.sin(ang) * tang / ang


def ray_to_circle(start, through, radius):
    """Last point of the ray on the circle around the origin."""
    step = through - start
    aa, bb, cc = step @ step, 2 * start @ step, start @ start - radius ** 2
    disc = bb ** 2 - 4 * aa * cc
    return start + step * (-bb + math.sqrt(max(disc, 0.0))) / (2 * aa)


def space(tier):
    out = []
    n_theta, n_phi = (13, 8) if tier == "quick" else (37, 16)
    for dim in (2, 3, 4):
        phis = (0.0, math.pi) if dim == 2 else [2 * math.pi * kk / n_phi for kk in range(n_phi)]
        for kk in range(4 if dim < 4 else 2):
            for ref in (0.0, 0.3, 0.9, 1.4, 1.55):
                for theta in np.linspace(0, math.pi, n_theta):
                    out.append({"dim": dim, "frame": kk, "ref": ref, "theta": float(theta),
                                "phis": list(phis)})
    return out


def scene(case):
    dim = case["dim"]
    if dim == 4:
        frame = np.zeros((4, 4))
        frame[:3, :3] = _frame(3, case["frame"])
        frame[3, 3] = 1
        frame = frame[:, [1, 0, 2, 3]] @ np.kron(np.eye(2), lib.rot2(0.4))
    else:
        frame = _frame(dim, case["frame"])

    def direction(theta, phi):
        vec = np.zeros(dim)
        if dim == 2:
            vec[:] = _polar(2, theta, phi)
        else:
            vec[:3] = _polar(3, theta, phi)
            if dim == 4:
                vec[2:] = lib.rot2(0.5) @ vec[2:]
        return frame @ vec
    inward = direction(0.0, 0.0)
    base = np.hstack((inward.reshape(-1, 1), frame[:, 1:]))
    return inward, base, direction


def tangent_run(ctx, case):
    mod = ctx.load(ROT)
    inward, base, direction = scene(case)
    ref = direction(case["ref"], 0.0)
    for phi, radius in itertools.product(case["phis"], RADII):
        init = direction(case["theta"], phi)
        ctx.visit(case["dim"], case["frame"], case["ref"], case["theta"], phi, radius)
        aligned = np.linalg.norm(log_map(inward, init) - log_map(inward, ref)) < 1e-9
        args = [init * 1.0, -inward, ref * 1.0]
        got = ctx.call("get_projected_tangent_from_vectors",
                       mod.RotationalAvoider.get_projected_tangent_from_vectors, args[0],
                       normal=args[1], reference=args[2], convergence_radius=radius)
        ctx.close(np.array(args), [init, -inward, ref], "input unchanged", 0)
        got = ctx.finite(got, "tangent")
        opposite = np.linalg.norm(init + inward) < 1e-6 or np.linalg.norm(init + ref) < 1e-6
        if not aligned and not (opposite and case["ref"] == 0):
            ctx.close(np.linalg.norm(got), 1.0, "tangent is a direction", 1e-6)
            ctx.close(lib.angle_between(got, inward), radius,
                      "tangent keeps the convergence radius to the surface", 1e-5)
            if lib.angle_between(init, inward) < radius - 1e-9:
                center, sign, rad = inward, 1.0, radius
            else:
                center, sign, rad = -inward, -1.0, math.pi - radius
            exp = exp_map(center, ray_to_circle(log_map(center, sign * ref),
                                                log_map(center, init), rad))
            if abs(lib.angle_between(init, inward) - radius) > 1e-6:
                ctx.close(got, exp, "tangent lies beyond the initial direction, away from the "
                                    "reference", 1e-5)
            ctx.outcome(*np.round(got, 2))
        # variant for a fixed avoider
        for tail in (False, True):
            avoider = mod.RotationalAvoider(convergence_radius=radius, tail_rotation=tail)
            got = ctx.call("get_pseudo_tangent", avoider.get_pseudo_tangent, init, ref, base=base)
            got = ctx.finite(got, "pseudo tangent")
            outside = lib.angle_between(init, inward) >= radius - 1e-9
            if outside and not tail:
                if lib.angle_between(init, inward) > radius + 1e-9:
                    ctx.close(got, init, "directions pointing away are kept", 1e-9)
                continue
            if abs(lib.angle_between(init, -inward)) < 1e-6:
                continue
            ctx.close(np.linalg.norm(got), 1.0, "tangent is a direction", 1e-6)
            ctx.close(lib.angle_between(got, inward), radius,
                      "pseudo tangent keeps the convergence radius to the surface", 1e-5)
            if not aligned:
                exp = exp_map(inward, ray_to_circle(log_map(inward, ref), log_map(inward, init),
                                                    radius))
                ctx.close(got, exp, "pseudo tangent is on the ray from the reference", 1e-5)
            mid = ctx.call("get_intermediate_convergence_direction",
                           avoider.get_intermediate_convergence_direction, init, ref, base)
            ctx.close(lib.angle_between(mid, inward), math.pi / 2, "intermediate tangent", 1e-5)


# ------------------------------------------------------------------- rotated motion
def sum_cases(tier):
    out = []
    for cc in space(tier):
        if cc["dim"] == 4 or cc["frame"] > (1 if tier == "quick" else 3):
            continue
        if tier == "quick" and cc["ref"] in (0.3, 1.55):
            continue
        cc["phis"] = cc["phis"][::2 if tier == "quick" and cc["dim"] == 3 else 1]
        out.append(cc)
    return out


def sum_run(ctx, case):
    mod = ctx.load(ROT)
    inward, base, direction = scene(case)
    ref = direction(case["ref"], 0.0)
    init_dirs = [direction(tt, pp) for tt in (0.1, 1.3, 2.2, 3.0)
                 for pp in ((0.0, math.pi) if case["dim"] == 2 else (0.2, 1.9, 4.0))]
    for phi, radius in itertools.product(case["phis"], (math.pi / 2, 0.75 * math.pi)):
        conv = direction(case["theta"], phi)
        if abs(abs(conv @ inward) - 1) < 1e-6 or conv @ ref > 1 - 1e-6:
            continue  # no unique way around
        avoider = mod.RotationalAvoider(convergence_radius=radius)
        tangent = avoider.get_pseudo_tangent(conv, ref, base=base)
        # Avoiders of another radius, to which this one is given
        others = [mod.RotationalAvoider(convergence_radius=rr)
                  for rr in (math.pi / 2, 0.75 * math.pi) if rr != radius]
        for other in others:
            ctx.close(ctx.call("get_pseudo_tangent", other.get_pseudo_tangent, conv, ref, base=base,
                               convergence_radius=radius), tangent, "radius which is given", 1e-9)
        for init, gam in itertools.product(init_dirs, (0.9, 1.0, 1.5, 1e9)):
            if abs(abs(conv @ init) - 1) < 1e-6:
                continue
            keep = (conv.copy(), ref.copy(), base.copy(), init.copy())
            got = ctx.call("directional_convergence_summing",
                           avoider.directional_convergence_summing, convergence_vector=conv,
                           reference_vector=ref, base=base, gamma=gam, nonlinear_velocity=init,
                           convergence_radius=radius)
            for other, kw in [(avoider, {})] + [(oo, {"convergence_radius": radius}) for oo in others]:
                ctx.close(ctx.call("directional_convergence_summing",
                                   other.directional_convergence_summing, convergence_vector=conv,
                                   reference_vector=ref, base=base, gamma=gam,
                                   nonlinear_velocity=init, **kw), got, "radius which is given", 1e-9)
            for now, old in zip((conv, ref, base, init), keep):
                ctx.require(np.array_equal(now, old), "input unchanged")
            got = ctx.finite(got, "rotated direction")
            ctx.visit(case["dim"], case["frame"], case["ref"], case["theta"], phi, radius, gam,
                      tuple(np.round(init, 6)))
            ctx.close(np.linalg.norm(got), 1.0, "rotated motion is a direction", 1e-6)
            if gam <= 1:
                ctx.require(got @ inward < 1e-5, "no motion into the obstacle on its surface",
                            lambda: f"{got @ inward}")
                ctx.close(got, tangent, "on the surface the tangent is followed", 2e-5)
            elif gam > 1e8:
                ctx.close(got, init, "far away the initial motion is kept", 1e-4)
            else:
                weight = avoider.get_smooth_continuation_weight(
                    gamma=gam, vector_reference=ref, vector_convergence=conv, base=base)
                dirs = [lib.unit(conv), init, inward]
                parents = [0, 0]
                weights = [0, 1 - weight, 0]
                if radius > math.pi / 2:
                    dirs.append(avoider.get_intermediate_convergence_direction(conv, ref, base))
                    parents.append(2)
                    weights.append(0)
                dirs.append(lib.unit(tangent))
                parents.append(len(dirs) - 2)
                weights.append(weight)
                if any(lib.angle_between(dirs[pp], dirs[kk + 1]) > math.pi - 1e-4
                       for kk, pp in enumerate(parents)):
                    continue
                exp = model(parents, dirs, np.array(weights)) @ dirs[0]
                ctx.close(got, exp, "in between the directions are blended by the weight", 1e-4)


FAMILIES = [
    Family("tangents", space, tangent_run),
    Family("blended motion", sum_cases, sum_run),
]
