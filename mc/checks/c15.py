"""C15: motions towards an attractor, and bounded deviations of a reference motion."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

WAVY = "nonlinear_avoidance.dynamics.wavy_attractor_dynamics"
LOCAL = "nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics"
PATH = "nonlinear_avoidance.dynamics.segmented_dynamics"
FLOW = "nonlinear_avoidance.dynamics.nonlinear_deviation"
AROUND = "nonlinear_avoidance.dynamics.deviation_dynamics"


def signed(v0, v1):
    return math.atan2(v0[0] * v1[1] - v0[1] * v1[0], v0 @ v1)


# --------------------------------------------------------------------------------- wavy
ATTRACTORS = ((0.0, 0.0), (1.0, -1.0), (-20.0, 7.0))


def wavy_cases(tier):
    return [{"attractor": aa, "stretch": ss, "deviation": dd, "vmax": vv, "tier": tier}
            for aa in range(len(ATTRACTORS)) for ss in (None, 0.4, 3.0)
            for dd in (None, 0.0, 0.45 * math.pi, -1.0) for vv in (None, 0.6)]


def wavy_run(ctx, case):
    mod = ctx.load(WAVY)
    att = np.array(ATTRACTORS[case["attractor"]])
    kwargs = {}
    if case["stretch"] is not None:
        kwargs["distance_strech_factor"] = case["stretch"]
    if case["deviation"] is not None:
        kwargs["maximum_deviation"] = case["deviation"]
    if case["vmax"] is not None:
        kwargs["maximum_velocity"] = case["vmax"]
    dyn = ctx.call("WavyLinearDynamics", mod.WavyLinearDynamics, att.copy(), **kwargs)
    stretch = case["stretch"] or 1.0
    deviation = 0.3 * math.pi if case["deviation"] is None else case["deviation"]
    for dd in lib.circle(8 if case["tier"] == "quick" else 24, 0.1):
        for dist in np.concatenate((np.linspace(0.05, 8, 40), [1e-6, 30.0, 500.0])):
            pos = att + dd * dist
            ctx.visit(scene_key(case), *dd, dist)
            keep = pos.copy()
            vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
            ctx.close(pos, keep, "position unchanged", 0)
            speed = dist if case["vmax"] is None else min(dist, case["vmax"])
            exp = lib.rot2(deviation * math.sin(dist * stretch)) @ (-dd * speed)
            ctx.close(vel, exp, "waves around the direction to the attractor", 1e-8, 1e-8)
    ctx.close(ctx.call("evaluate", dyn.evaluate, att.copy()), np.zeros(2),
              "at rest at the attractor", 1e-12)
    for dd in lib.circle(4, 0.3):
        pos = att + dd * 5
        last = 5.0
        for _ in range(1500):
            pos = pos + 0.02 / (case["vmax"] or 1.0) * ctx.call("evaluate", dyn.evaluate, pos)
            dist = np.linalg.norm(pos - att)
            ctx.visit(scene_key(case), "loop", *np.round(pos, 6))
            ctx.require(dist <= last * (1 + 1e-9), "always gets closer",
                        lambda: f"{pos} {dist} {last}")
            last = dist
        ctx.require(last < 0.2, "reaches the attractor", lambda: f"{pos}")


# --------------------------------------------------------------------------- locally rotated
def obstacle(dim, kk, rot=None, shift=None):
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
    from scipy.spatial.transform import Rotation
    axes, ori, pos = {
        2: (((1.2, 2.0), 0.0, (3.0, 0.5)), ((2.0, 0.8), 0.9, (-2.0, -2.5)),
            ((1.0, 1.0), 0.0, (0.0, 4.0))),
        3: (((1.2, 2.0, 1.0), (0, 0, 0), (3.0, 0.5, 0.2)),
            ((2.0, 0.8, 1.0), (0.5, -0.3, 0.9), (-2.0, -2.0, 1.0))),
    }[dim][kk]
    pos = np.array(pos)
    mat = lib.matrix_of(dim, ori)
    if rot is not None:
        pos, mat = rot @ pos + shift, rot @ mat
    ori = (math.atan2(mat[1, 0], mat[0, 0]) if dim == 2 else Rotation.from_matrix(mat))
    return EllipseWithAxes(axes_length=np.array(axes), center_position=pos, orientation=ori)


def local_cases(tier):
    return [{"dim": dim, "obstacle": oo, "angle": aa, "speed": ss, "gammas": gg, "tier": tier}
            for dim in (2, 3) for oo in range(3 if dim == 2 else 2)
            for aa in (0.0, 0.7, -1.4, 2.5) for ss in (1.0, 0.3, 4.0)
            for gg in ((1, 10), (1.5, 4))]


def local_run(ctx, case):
    mod = ctx.load(LOCAL)
    dim = case["dim"]
    att = np.array([0.3, -0.2, 0.4][:dim])
    obs = obstacle(dim, case["obstacle"])
    to_att = lib.unit(att - obs.center_position)
    perp = lib.unit(np.cross(np.append(to_att, [0] * (3 - dim)), [0, 0, -1.0])[:dim])
    ref = (math.cos(case["angle"]) * to_att + math.sin(case["angle"]) * perp) * case["speed"]
    keep = ref.copy()
    kwargs = dict(zip(("min_gamma", "max_gamma"), case["gammas"]))
    rot = lib.matrix_of(dim, 0.9 if dim == 2 else (0.5, -0.7, 0.3))
    shift = np.array([1.5, -2.0, 0.7][:dim])
    dyn = ctx.call("LocallyRotatedFromObtacle", mod.LocallyRotatedFromObtacle, obstacle=obs,
                   attractor_position=att.copy(), reference_velocity=ref, **kwargs)
    other = ctx.call("LocallyRotatedFromObtacle", mod.LocallyRotatedFromObtacle,
                     obstacle=obstacle(dim, case["obstacle"], rot, shift),
                     attractor_position=rot @ att + shift, reference_velocity=rot @ ref, **kwargs)
    ctx.close(ref, keep, "reference velocity unchanged", 0)
    hi = case["gammas"][1]
    basis = [to_att, perp] + ([np.cross(to_att, perp)] if dim == 3 else [])
    dirs = [dd for dd in (lib.circle(16) if dim == 2 else lib.sphere26())]
    if case["tier"] != "quick":
        dirs += lib.circle(48, 0.01) if dim == 2 else lib.lattice_directions(3, (-2, -1, 0, 1, 2))
    points = [att + sum(cc * bb for cc, bb in zip(dd, basis)) * dist
              for dd in dirs for dist in (0.01, 0.3, 0.9, 1.0, 2.0, 4.0, 9.0, 300.0)]
    points += [obs.center_position + dd * rr for dd in dirs for rr in (1e-3, 0.2, 0.6)]
    for pos in points:
        gamma = obs.get_gamma(pos, in_global_frame=True)
        ctx.visit(scene_key(case), *np.round(pos, 9))
        vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
        back = att - pos
        dist = np.linalg.norm(back)
        ctx.close(np.linalg.norm(vel), min(dist, case["speed"]), "speed", 1e-6)
        turned = lib.angle_between(back, vel)
        ctx.require(turned <= abs(case["angle"]) + 1e-5, "turned no more than the reference",
                    lambda: f"{pos} {turned}")
        if dim == 2 and 1e-4 < turned < math.pi - 1e-4:
            ctx.require(signed(back, vel) * signed(to_att, ref) > 0, "turned the same way",
                        lambda: f"{pos} {vel}")
        if gamma > hi:
            ctx.require(turned < 1e-5, "straight to the attractor far from the obstacle",
                        lambda: f"{pos} {vel}")
        dot = back @ to_att / dist
        if np.linalg.norm(pos - obs.center_position) < 0.3:
            ctx.require(turned >= 0.5 * abs(case["angle"]),
                        "turned close to the center of the obstacle", lambda: f"{pos} {turned}")
        got = ctx.call("evaluate", other.evaluate, rot @ pos + shift)
        if dot > -0.99 and dim == 3:
            # The plane of the turn goes along with the direction to the attractor
            axis = np.cross(to_att, back / dist)
            cross = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]],
                              [-axis[1], axis[0], 0]])
            plain = (np.eye(3) + cross + cross @ cross / (1 + dot)).T @ lib.unit(vel)
            ctx.close(plain @ basis[2], 0.0, "within the plane of the reference", 1e-4)
            ctx.require(plain @ perp * math.sin(case["angle"]) >= -1e-6, "turned the same way",
                        lambda: f"{pos} {vel}")
        if dot > -0.99:
            ctx.close(got, rot @ vel, "does not depend on the frame of reference", 1e-5)
            for kk in range(dim):
                near = pos.copy()
                near[kk] += 1e-7 * min(dist, 1.0)
                got = ctx.call("evaluate", dyn.evaluate, near)
                ctx.require(np.linalg.norm(got - vel) < 1e-4 * case["speed"],
                            "changes continuously", lambda: f"{pos} {vel} {got}")
        ctx.outcome(round(turned, 2))
    for dist in (0.01, 0.3, 1.0, 2.0, 4.0):
        for sign in (1, -1):
            # Opposite of the obstacle, where the direction to turn to is not unique
            pos = att + dist * (to_att + sign * 1e-3 * perp)
            if obs.get_gamma(pos, in_global_frame=True) > 1.05 * case["gammas"][0]:
                ctx.visit(scene_key(case), *np.round(pos, 9))
                vel = ctx.call("evaluate", dyn.evaluate, pos)
                ctx.require(lib.angle_between(att - pos, vel) < 1e-3,
                            "straight to the attractor opposite of the obstacle",
                            lambda: f"{pos} {vel}")
    got = ctx.call("evaluate", dyn.evaluate, np.copy(obs.center_position))
    ctx.close(got, ref / case["speed"] * min(case["speed"],
                                             np.linalg.norm(att - obs.center_position)),
              "reference velocity at the center of the obstacle", 1e-6)
    ctx.close(ctx.call("evaluate", dyn.evaluate, att.copy()), np.zeros(dim),
              "at rest at the attractor", 1e-12)


def covered_cases(tier):
    return [{"dim": dim, "speed": ss} for dim in (2, 3) for ss in (1.0, 0.3)]


def covered_run(ctx, case):
    """Obstacle at the attractor: no deviation."""
    mod = ctx.load(LOCAL)
    dim = case["dim"]
    obs = obstacle(dim, 1)
    att = np.copy(obs.center_position)
    ref = np.array([0.6, 0.8, 0.0][:dim]) * case["speed"]
    dyn = ctx.call("LocallyRotatedFromObtacle", mod.LocallyRotatedFromObtacle, obstacle=obs,
                   attractor_position=att.copy(), reference_velocity=ref)
    for dd in lib.circle(16) if dim == 2 else lib.sphere26():
        for dist in (0.1, 0.9, 3.0, 50.0):
            ctx.visit(dim, case["speed"], *dd, dist)
            vel = ctx.call("evaluate", dyn.evaluate, att + dd * dist)
            ctx.close(vel, -dd * min(dist, case["speed"]), "straight to the attractor", 1e-6)
    ctx.close(ctx.call("evaluate", dyn.evaluate, att.copy()), np.zeros(dim),
              "at rest at the attractor", 1e-12)


# ---------------------------------------------------------------------------- path following
def paths(nn):
    """Lattice paths without self-contact; each step is one lattice unit (1.5)."""
    out = []

    def extend(path):
        if len(path) > nn:
            out.append(path)
            return
        for step in ((1, 0), (0, 1), (-1, 0), (0, -1)):
            new = (path[-1][0] + step[0], path[-1][1] + step[1])
            near = [pp for pp in path if abs(pp[0] - new[0]) + abs(pp[1] - new[1]) <= 1]
            if near == [path[-1]]:
                extend(path + [new])
    extend([(0, 0), (1, 0)])
    return out


def path_cases(tier):
    top = 4 if tier == "quick" else 6
    return [{"path": [list(pp) for pp in path], "margin": mm, "turn": tt, "tier": tier}
            for nn in range(1, top + 1) for path in paths(nn) for mm in (0.0, 0.1, 0.4)
            for tt in (0.0, 0.8)]


def path_run(ctx, case):
    mod = ctx.load(PATH)
    mat = lib.rot2(case["turn"])
    corners = [mat @ np.array(pp) * 3.0 for pp in case["path"]]
    keep = [cc.copy() for cc in corners]
    dyn = ctx.call("create_segment_from_points", mod.create_segment_from_points, corners,
                   margin=case["margin"])
    plain = mod.create_segment_from_points([np.array(pp) * 3.0 for pp in case["path"]],
                                           margin=case["margin"])
    nseg = len(corners) - 1
    for aa, bb in zip(corners, keep):
        ctx.close(aa, bb, "path unchanged", 0)
    legs = []
    for aa, bb in zip(corners[:-1], corners[1:]):
        dd = lib.unit(bb - aa)
        legs.append((aa + dd * case["margin"], bb - dd * case["margin"], dd))
    goal = legs[-1][1]
    ctx.close(dyn.attractor_position, goal, "attractor at the end of the path", 1e-9)
    low = np.min(np.array(case["path"]), axis=0) * 3.0 - 2.0
    top = np.max(np.array(case["path"]), axis=0) * 3.0 + 2.0
    num = 7 if case["tier"] == "quick" else 15
    grid = [mat @ np.array([xx, yy]) for xx in np.linspace(low[0], top[0], num)
            for yy in np.linspace(low[1], top[1], num)]
    on_path = [(kk, aa + (bb - aa) * tt) for kk, (aa, bb, _) in enumerate(legs)
               for tt in (0.0, 0.25, 0.5, 0.9, 1.0)]
    for kk, pos in [(None, pp) for pp in grid] + on_path:
        ctx.visit(scene_key(case), *np.round(pos, 9))
        left = np.linalg.norm(goal - pos)
        if left < 1e-12:
            continue
        weights = ctx.call("get_weights", dyn.get_weights, pos)
        ctx.require(len(weights) == nseg + 1 and np.all(weights >= -1e-12), "weights")
        ctx.close(np.sum(weights), 1.0, "weights add up to one", 1e-9)
        vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
        ctx.close(np.linalg.norm(vel), min(1.0, left), "speed", 1e-6)
        ctx.close(ctx.call("evaluate_magnitude", dyn.evaluate_magnitude, pos), min(1.0, left),
                  "magnitude", 1e-9)
        seq = ctx.call("evaluate_dynamics_sequence", dyn.evaluate_dynamics_sequence, pos)
        ctx.close(seq.get_end_vector(), lib.unit(vel), "sequence ends at the motion", 1e-6)
        ctx.close(seq.basis_array[:, 0, 0], lib.unit(goal - pos),
                  "sequence starts at the direction to the attractor", 1e-6)
        if kk is not None:
            at_corner = case["margin"] == 0 and any(
                np.linalg.norm(pos - cc) < 1e-9 for cc in corners[1:-1])
            if not at_corner:
                # On the path (up to rounding): moves along it
                ctx.require(weights[kk] > 1 - 1e-6, "weight on the path",
                            lambda: f"{pos} {weights}")
                ctx.close(lib.unit(vel), legs[kk][2], "along the path", 1e-4)
        elif weights[-1] > 1 - 1e-6:
            ctx.close(lib.unit(vel), lib.unit(goal - pos), "to the attractor", 1e-4)
        anti = any(dd @ ee < -1 + 1e-6 for dd in [lib.unit(goal - pos)]
                   + [lib.unit(leg[2]) for leg in legs] for ee in [leg[2] for leg in legs])
        if kk is None and not anti:
            got = ctx.call("evaluate", plain.evaluate, mat.T @ pos)
            ctx.close(mat @ got, vel, "does not depend on the frame of reference", 1e-5)
        ctx.outcome(*np.round(vel, 1))
    ctx.close(ctx.call("evaluate", dyn.evaluate, goal.copy()), np.zeros(2),
              "at rest at the attractor", 1e-12)
    ctx.require(np.shape(dyn.evaluate(goal.copy())) == (2,), "vector at the attractor")
    ctx.require(dyn.evaluate_dynamics_sequence(goal.copy()) is None, "no sequence at the attractor")
    for slow, limit in ((1.0, 0.6), (0.5, 2.0), (2.5, 1.0)):
        dyn.slowdown_distance, dyn.maximum_velocity = slow, limit
        for dd in lib.circle(4, 0.2):
            for left in (1e-6, 0.3, 0.6, 1.7, 2.4, 2.6, 9.0):
                vel = ctx.call("evaluate", dyn.evaluate, goal + left * dd)
                ctx.close(np.linalg.norm(vel), limit * min(1, left / slow), "slows down at the end",
                          1e-6)
    dyn.slowdown_distance, dyn.maximum_velocity = 1.0, 1.0
    for dd in lib.circle(8, 0.2):
        pos = goal + dd * 1e5
        vel = ctx.call("evaluate", dyn.evaluate, pos)
        ctx.close(vel, -dd, "straight to the attractor far away", 1e-2)


def follow_run(ctx, case):
    mod = ctx.load(PATH)
    mat = lib.rot2(case["turn"])
    corners = [mat @ np.array(pp) * 3.0 for pp in case["path"]]
    dyn = mod.create_segment_from_points(corners, margin=case["margin"])
    for off in (0.0, 0.1, -0.1):
        pos = corners[0] + mat @ np.array([0.0, off])
        for _ in range(60 * len(corners) + 200):
            ctx.visit(scene_key(case), *np.round(pos, 6))
            pos = pos + 0.08 * ctx.call("evaluate", dyn.evaluate, pos)
            gap = min(np.linalg.norm(pos - aa - (bb - aa) * np.clip(
                (pos - aa) @ (bb - aa) / 9.0, 0, 1)) for aa, bb in zip(corners[:-1], corners[1:]))
            ctx.require(gap < 1.0, "stays close to the path", lambda: f"{pos} {gap}")
        ctx.require(np.linalg.norm(pos - dyn.attractor_position) < 0.15, "reaches the attractor",
                    lambda: f"{pos}")


# ------------------------------------------------------------------------- bounded deviation
class Lookup:
    """Regressor which returns the value of the closest sample."""

    def fit(self, X, y):
        self.inputs, self.outputs = np.array(X), np.array(y)

    def predict(self, X):
        return np.array([self.outputs[np.argmin(np.linalg.norm(self.inputs - xx, axis=1))]
                         for xx in X])


REFERENCES = {2: ((1.0, 0.0), (0.0, -2.0), (-0.3, 0.4)),
              3: ((1.0, 0.0, 0.0), (0.0, 0.0, 2.0), (-0.3, 0.4, 0.5))}


def flow_cases(tier):
    return [{"dim": dim, "ref": rr, "tier": tier} for dim in (2, 3)
            for rr in range(len(REFERENCES[dim]))]


def flow_run(ctx, case):
    mod = ctx.load(FLOW)
    dim = case["dim"]
    ref = np.array(REFERENCES[dim][case["ref"]])
    speed = np.linalg.norm(ref)
    values = (-3.0, -1.6, -1.5, -0.4, 0.0, 0.7, 1.55, 1.56, 2.2)
    for dev in itertools.product(values, repeat=dim - 1):
        size = np.linalg.norm(dev)
        dyn = ctx.call("DeviationOfConstantFlow", mod.DeviationOfConstantFlow, ref.copy(),
                       mod.ConstantRegressor(np.array(dev)))
        for pos in ([0.0] * dim, [3.0, -1.0, 2.0][:dim]):
            pos = np.array(pos)
            ctx.visit(dim, case["ref"], tuple(dev), *pos)
            vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
            ctx.close(np.linalg.norm(vel), speed, "speed of the reference", 1e-8)
            ctx.require(vel @ ref > 0, "never against the reference", lambda: f"{dev} {vel}")
            ctx.close(lib.angle_between(vel, ref), min(size, 0.99 * math.pi / 2),
                      "deviates by the learned angle, below 90 degrees", 1e-6)
            raw = ctx.call("evaluate_without_lyapunov_check", dyn.evaluate_without_lyapunov_check,
                           pos)
            if size < math.pi:
                ctx.close(lib.angle_between(raw, ref), size, "unlimited deviation", 1e-6)
                if size < 0.99 * math.pi / 2:
                    ctx.close(raw, vel, "both agree below the limit", 1e-8)
            ctx.close(dyn.evaluate_convergence_velocity(pos), ref, "converges along the reference")
    samples = [np.array(pp, dtype=float) for pp in itertools.product((-1, 0, 2), repeat=dim)]
    dirs = (lib.circle(16, 0.03) if dim == 2 else lib.sphere26())
    for off in range(0, len(dirs), 3):
        inputs = np.array(samples)
        vels = np.array([dirs[(off + kk) % len(dirs)] * (0.5 + kk % 3) for kk in range(len(inputs))])
        keep = vels.copy()
        dyn = mod.DeviationOfConstantFlow(ref.copy(), Lookup())
        ctx.call("fit_from_velocities", dyn.fit_from_velocities, inputs, vels)
        ctx.close(vels, keep, "samples unchanged", 0)
        for xx, vv in zip(inputs, vels):
            ctx.visit(dim, case["ref"], off, *xx)
            vel = ctx.call("evaluate", dyn.evaluate, xx)
            ang = lib.angle_between(vv, ref)
            if ang < 0.99 * math.pi / 2:
                ctx.close(lib.unit(vel), lib.unit(vv), "learned direction", 1e-6)
            else:
                ctx.require(vel @ ref > 0, "never against the reference")


def perp_cases(tier):
    return [{"dim": dim, "att": aa, "axis": kk, "sign": ss, "tier": tier} for dim in (2, 3)
            for aa in (0, 1) for kk in range(dim) for ss in (-1, 1)]


def perp_run(ctx, case):
    mod = ctx.load(FLOW)
    dim = case["dim"]
    att = (np.zeros(dim) if case["att"] == 0 else np.array([2.0, -1.0, 0.5][:dim]))
    axis = np.zeros(dim)
    axis[case["axis"]] = case["sign"]
    dirs = (lib.circle(24, 0.03) if dim == 2 else lib.sphere26())
    # Samples on the axis, and elsewhere
    for off in range(0, len(dirs), 2 if case["tier"] == "quick" else 1):
        inputs = [att + axis * dd for dd in (0.3, 1.0, 2.5)]
        vels = [dirs[(off + kk) % len(dirs)] * (kk + 0.5) for kk in range(3)]
        for kk in range(dim):
            for ss in (-1, 1):
                other = np.zeros(dim)
                other[kk] = ss
                if not np.allclose(other, axis):
                    inputs.append(att + 1.7 * other)
                    vels.append(-other + 0.1)
        dyn = ctx.call("PerpendicularDeviatoinOfLinearDS", mod.PerpendicularDeviatoinOfLinearDS,
                       att.copy(), Lookup())
        near, top = ((1.0, 1.0), (0.5, 2.0), (3.0, 0.7))[off // 2 % 3]
        if off:
            dyn.prox_distance, dyn.max_velocity = near, top
        ctx.call("fit_from_velocities", dyn.fit_from_velocities, np.array(inputs), np.array(vels))
        for xx, vv in zip(inputs[:3], vels[:3]):
            dist = np.linalg.norm(xx - att)
            ctx.visit(dim, case["att"], case["axis"], case["sign"], off, *xx)
            vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, xx), "velocity")
            ctx.close(np.linalg.norm(vel), top * min(1.0, dist / near), "speed", 1e-6)
            ang = lib.angle_between(vv, -axis)
            ctx.require(vel @ -axis > 0, "never away from the attractor on the axis")
            if ang < 0.49 * math.pi:
                ctx.close(lib.unit(vel), lib.unit(vv), "learned direction", 1e-6)
        for dd in dirs[::3]:
            for dist in (0.05, 0.7, 1.0, 6.0):
                pos = att + dd * dist
                vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
                ctx.close(np.linalg.norm(vel), top * min(1.0, dist / near), "speed", 1e-6)
                raw = ctx.call("evaluate_without_lyapunov_check",
                               dyn.evaluate_without_lyapunov_check, pos)
                ctx.close(np.linalg.norm(raw), top * min(1.0, dist / near), "unlimited speed", 1e-6)
                conv = ctx.call("evaluate_convergence_velocity", dyn.evaluate_convergence_velocity,
                                pos)
                ctx.close(conv, -dd * top * min(1.0, dist / near),
                          "converges straight to the attractor", 1e-8)
        ctx.close(ctx.call("evaluate", dyn.evaluate, att.copy()), np.zeros(dim),
                  "at rest at the attractor", 1e-12)


def svr_cases(tier):
    return [{"dim": dim, "kernel": kk} for dim in (2, 3) for kk in ("rbf", "linear")]


def svr_run(ctx, case):
    from sklearn.svm import SVR
    mod = ctx.load(FLOW)
    dim = case["dim"]
    pts = np.array(list(itertools.product((-1.0, 0.0, 1.0, 2.0), repeat=dim)))
    for nout in (1, 2, 3):
        out = np.array([np.sin(pts @ np.arange(1, dim + 1) + kk) for kk in range(nout)]).T
        model = ctx.call("MultiOutputSVR", mod.MultiOutputSVR, kernel=case["kernel"], gamma=0.3)
        ctx.call("fit", model.fit, pts, out)
        got = ctx.call("predict", model.predict, pts)
        ctx.visit(dim, case["kernel"], nout)
        ctx.require(got.shape == out.shape, "one column per output", lambda: f"{got.shape}")
        for kk in range(nout):
            exp = SVR(kernel=case["kernel"], gamma=0.3).fit(pts, out[:, kk]).predict(pts)
            ctx.close(got[:, kk], exp, "each output is learned by itself", 1e-6)


# ------------------------------------------------------------------------- around obstacles
class Orbit:
    dimension = 2

    def __init__(self, center, speed=1.0):
        self.center = np.array(center)
        self.speed = speed

    def evaluate(self, position):
        rel = position - self.center
        return lib.rot2(math.pi / 2) @ rel / np.linalg.norm(rel) * self.speed


SHAPES = (((5.0, 4.0), (2.0, 3.0), 0.5), ((-4.0, 1.0), (2.0, 1.0), 0.0),
          ((2.0, -5.0), (1.0, 1.0), 1.0))
# Overlapping obstacles, and such with common border
TOUCHING = (((4.0, 3.0), (2.0, 3.0), 0.0), ((5.5, 3.5), (2.0, 2.0), 0.4), ((4.5, 5.5), (3.0, 1.0), 1.0),
            ((-3.0, -3.0), (1.0, 2.0), 0.0))


def around_cases(tier):
    return [{"shapes": [list(map(list, pp[:2])) + [pp[2]] for pp in ss], "center": cc, "speed": vv, "tier": tier}
            for vv in (1.0, 0.4, 2.0) for ss in (SHAPES[:1], SHAPES[:2], SHAPES, TOUCHING[:2], TOUCHING)
            for cc in ([-1.0, 12.0], [30.0, 3.0], [0.3, -7.0])]


def limited(pos):
    return -pos / max(1.0, np.linalg.norm(pos))


def around_run(ctx, case):
    from dynamic_obstacle_avoidance.containers import ObstacleContainer
    from dynamic_obstacle_avoidance.obstacles import Ellipse
    mod = ctx.load(AROUND)
    cont = ObstacleContainer()
    for pos, axes, ori in case["shapes"]:
        cont.append(Ellipse(center_position=np.array(pos), axes_length=np.array(axes),
                            orientation=ori))
    orbit = Orbit(case["center"], case["speed"])
    dyn = ctx.call("ObstacleRotatedDynamics", mod.ObstacleRotatedDynamics, cont, orbit)
    points = [np.copy(obs.center_position) + dd * rr for obs in cont
              for dd in lib.circle(12 if case["tier"] == "quick" else 48, 0.1)
              for rr in (0.0, 0.2, 0.45, 0.9)]
    points += [np.array([xx + 0.123, yy]) for xx, yy in itertools.product(
        np.linspace(-9, 9, 13 if case["tier"] == "quick" else 49), repeat=2)]
    for pos in points:
        ctx.visit(scene_key(case), *np.round(pos, 9))
        gammas = np.array([obs.get_gamma(pos, in_global_frame=True) for obs in cont])
        if np.any(np.abs(gammas - 1) < 1e-9):
            continue
        # Equal shares of all obstacles which contain the position; decreasing outside
        if np.any(gammas < 1):
            weights = (gammas < 1) / np.sum(gammas < 1)
        else:
            weights = 1 / (gammas - 1)
            weights = weights / max(1.0, np.sum(weights))
        base = sum(ww * limited(obs.center_position) for ww, obs in zip(weights, cont))
        goal = sum(ww * orbit.evaluate(obs.center_position) for ww, obs in zip(weights, cont))
        turn = signed(base, goal) * min(1.0, np.linalg.norm(base), np.linalg.norm(goal))
        vel = ctx.finite(ctx.call("evaluate", dyn.evaluate, pos), "velocity")
        if lib.angle_between(base, goal) < math.pi - 1e-6:
            ctx.close(vel, lib.rot2(turn) @ limited(pos),
                      "turned as at the centers of the obstacles", 1e-6)
        ctx.require(np.linalg.norm(vel) <= 1 + 1e-6, "bounded speed")
        got = ctx.call("evaluate", dyn.evaluate, pos, update_center_dynamics=False)
        ctx.close(got, vel, "same with the values at the centers kept", 1e-12)
        ctx.outcome(*np.round(vel, 1))


# --------------------------------------------------------------------- motions as sequences
class Plain:
    """A motion without sequence of its own, with or without an attractor."""

    def __init__(self, matrix, attractor=None):
        self.matrix = matrix
        if attractor is not None:
            self.attractor_position = attractor

    def evaluate(self, position):
        return self.matrix @ position


def sequence_cases(tier):
    spots = {2: list(itertools.product((-1.5, 0.0, 0.7, 2.0), repeat=2)),
             3: list(itertools.product((-1.5, 0.0, 2.0), repeat=3))}
    turns = (0.4, 1.5, 2.9) if tier == "quick" else (0.2, 0.4, 0.9, 1.5, 2.2, 2.9)
    return [{"dim": dim, "turn": turn, "attractor": att, "default": default, "spots": spots[dim]}
            for dim in (2, 3) for turn in turns for att in (None, 0.0, 0.7)
            for default in (None, "plain", "path" if dim == 2 else "plain")]


def sequence_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.dynamics.sequenced_dynamics")
    dim = case["dim"]
    mat = -np.eye(dim)
    mat[:2, :2] = -lib.rot2(case["turn"])
    goal = None if case["attractor"] is None else np.full(dim, case["attractor"])
    motion = Plain(mat, goal)
    default = Plain(-2.0 * np.eye(dim)) if case["default"] == "plain" else None
    if case["default"] == "path":
        default = ctx.load(PATH).create_segment_from_points([(0, 0), (3, 0), (3, 3)], margin=0.1)
    for spot in case["spots"]:
        pos = np.array(spot)
        args = {} if default is None else {"default_dynamics": default}
        final = motion.evaluate(pos)
        base = final if goal is None else goal - pos
        if default is not None:
            base = default.evaluate(pos)
        seq = ctx.call("evaluate_dynamics_sequence", mod.evaluate_dynamics_sequence, pos, motion,
                       **args)
        ctx.visit(scene_key(case), *pos)
        if not np.linalg.norm(final) or not np.linalg.norm(base):
            ctx.require(seq is None, "no sequence without direction", f"{pos}")
            continue
        ctx.close(seq.get_end_vector(), lib.unit(final), "ends at the motion", 1e-9)
        if lib.unit(base) @ lib.unit(final) > -1 + 1e-9:
            ctx.close(seq.basis_array[:, 0, 0], lib.unit(base), "starts at the fall-back motion", 1e-9)
            ctx.close(np.sum(np.abs(seq.rotation_angles)), lib.angle_between(base, final),
                      "turns by the angle between them", 1e-6)


FAMILIES = [Family("wavy", wavy_cases, wavy_run), Family("locally rotated", local_cases, local_run),
            Family("obstacle at the attractor", covered_cases, covered_run),
            Family("path field", path_cases, path_run), Family("path trajectories", path_cases, follow_run),
            Family("deviation of a flow", flow_cases, flow_run),
            Family("deviation around axes", perp_cases, perp_run),
            Family("sequences", sequence_cases, sequence_run),
            Family("regression", svr_cases, svr_run),
            Family("rotated around obstacles", around_cases, around_run)]
