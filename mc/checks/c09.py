"""C09: slowing down in front of obstacles."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c07 import _frame, _polar

ROT = "nonlinear_avoidance.avoidance.rotational_avoider"
LEVELS = (0.3, 1.0, 1 + 1e-9, 1.001, 1.05, 1.3, 2.0, 5.0, 50.0, 1e6)


def cases(tier):
    out = []
    for dim in (2, 3):
        phis = (0.0, 1.0) if dim == 2 else (0.0, 1.0, 2.5, 4.0)
        for kk in range(4):
            for theta in np.linspace(0, math.pi, 13 if tier == "quick" else 61):
                for phi in phis:
                    out.append({"dim": dim, "frame": kk, "theta": float(theta), "phi": phi})
    return out


def run(ctx, case):
    mod = ctx.load(ROT)
    dim = case["dim"]
    frame = _frame(dim, case["frame"])
    direction = frame @ _polar(dim, case["theta"], case["phi"])
    normal = -frame @ _polar(dim, 0.0, 0.0)  # velocity with angle 0 heads for the obstacle
    for norm_normal in (0.0, 0.2, 0.7, 1.0):
        mean = normal * norm_normal
        last = None
        for gam in LEVELS:
            values = []
            for speed in (1.0, 0.01, 3.0, 20.0):
                vel = direction * speed
                keep = vel.copy()
                got = ctx.call("compute_safe_scaling", mod.RotationalAvoider.compute_safe_scaling,
                               velocity=vel, averaged_normal=mean, gamma=gam)
                got = float(ctx.finite(got, "scaling"))
                ctx.visit(dim, case["frame"], case["theta"], case["phi"], norm_normal, gam, speed)
                ctx.require(0 <= got <= 1, "scaling is between zero and one", lambda: f"{got}")
                values.append(got)
                for initial in (0.0, 0.5, 2.0):
                    out = ctx.call("compute_safe_magnitude",
                                   mod.RotationalAvoider.compute_safe_magnitude, vel, initial,
                                   mean, gam)
                    out = ctx.finite(out, "slowed velocity")
                    mag = np.linalg.norm(out)
                    ctx.require(mag <= initial + 1e-9, "never faster than initially",
                                lambda: f"{mag} {initial}")
                    ctx.close(out, direction * mag, "slowing keeps the direction", 1e-9)
                    ctx.close(mag, got * initial, "both ways of slowing agree", 1e-6)
                ctx.close(vel, keep, "input unchanged", 0)
            ctx.require(max(values) - min(values) < 1e-6, "scaling does not depend on the speed",
                        lambda: f"{values}")
            head_on = float(direction @ -mean)
            if head_on < -1e-9 or norm_normal == 0:
                ctx.close(values[0], 1.0, "no slowing when moving away", 0)
            elif gam <= 1 and head_on > 2e-3:
                ctx.close(values[0], 0.0, "stop on the surface", 0)
            elif gam < 1.0011 and head_on > 0.1:
                ctx.require(values[0] < 0.75, "slow close to the surface",
                            lambda: f"{values[0]} {head_on}")
            elif gam > 1 and head_on > 1e-3:
                ctx.require(values[0] < 1, "slowed when heading for the obstacle")
            if gam > 1e5:
                ctx.require(values[0] > 0.97, "no slowing far away", lambda: f"{values[0]}")
            ctx.require(last is None or values[0] >= last - 1e-9,
                        "the closer the slower", lambda: f"{values[0]} {last}")
            last = values[0]
            ctx.outcome(round(values[0], 4))
    # the more head-on, the slower
    for gam in LEVELS:
        speeds = []
        for theta in np.linspace(0, math.pi, 31):
            vel = frame @ _polar(dim, theta, case["phi"])
            speeds.append(mod.RotationalAvoider.compute_safe_scaling(
                velocity=vel, averaged_normal=normal, gamma=gam))
        ctx.require(bool(np.all(np.diff(speeds) >= -1e-9)), "the more head-on the slower",
                    lambda: f"{gam} {speeds}")


def zero_cases(tier):
    return [{"dim": dim, "gamma": gam} for dim in (2, 3) for gam in LEVELS]


def zero_run(ctx, case):
    mod = ctx.load(ROT)
    for normal in lib.lattice_directions(case["dim"]):
        zero = np.zeros(case["dim"])
        ctx.visit(case["dim"], case["gamma"], tuple(normal))
        got = ctx.call("compute_safe_scaling", mod.RotationalAvoider.compute_safe_scaling,
                       velocity=zero, averaged_normal=normal, gamma=case["gamma"])
        ctx.require(0 <= got <= 1, "scaling of a resting robot")
        out = ctx.call("compute_safe_magnitude", mod.RotationalAvoider.compute_safe_magnitude,
                       zero, 1.0, normal, case["gamma"])
        ctx.close(out, zero, "a resting robot stays at rest", 0)


FAMILIES = [Family("scaling", cases, run), Family("at rest", zero_cases, zero_run)]
