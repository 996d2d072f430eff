"""C23: motions learned by regression (mixtures of Gaussians, Gaussian processes, support vectors)."""
import itertools
import math
import os
import shutil
import tempfile
import types

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

MOD = "nonlinear_avoidance.gmm_learner.learner.directional_gmm"
SPACE = "nonlinear_avoidance.gmm_learner.direction_space"
OTHERS = {"process": ("nonlinear_avoidance.gmm_learner.learner.gpr_directional", "DirectionalGPR"),
          "vectors": ("nonlinear_avoidance.gmm_learner.learner.svr_directional", "DirectionalSVR")}

# --- a mixture which is set by hand

SPREADS = [(0.4, 0.3, 0.5, 0.4, 0.2), (0.9, 0.5, 0.3, 0.6, 0.4), (0.2, 1.1, 0.4, 0.3, 0.3)]
MEANS = [(0.0, 0.0, 0.3, -0.2, 0.5), (1.2, 0.6, -0.4, 0.3, -0.7), (-0.8, 1.4, 0.1, 0.5, 0.3)]
PRIORS = {1: [(1.0,)], 2: [(0.5, 0.5), (0.9, 0.1)], 3: [(0.2, 0.3, 0.5), (0.6, 0.3, 0.1)]}


def covariance(kk, turn):
    """Symmetric positive matrix: given spreads in a basis turned in all coordinate planes."""
    nn = 5
    basis = np.eye(nn)
    for ii, jj in itertools.combinations(range(nn), 2):
        rot = np.eye(nn)
        ang = turn * (1 + 0.3 * ii - 0.2 * jj + 0.4 * kk)
        rot[ii, ii] = rot[jj, jj] = math.cos(ang)
        rot[ii, jj], rot[jj, ii] = -math.sin(ang), math.sin(ang)
        basis = basis @ rot
    cov = basis @ np.diag(np.square(SPREADS[kk])) @ basis.T
    return 0.5 * (cov + cov.T)


def mixture(case):
    nn = case["n"]
    means = np.array(MEANS[:nn])
    means[:, 4] *= case.get("gain", 1.0)
    if case.get("shift"):
        means[:, :2] += np.array(case["shift"])
    return types.SimpleNamespace(
        means_=means, weights_=np.array(case["prior"]), covariance_type="full",
        covariances_=np.array([covariance(kk, case["turn"]) for kk in range(nn)]))


def regressor(ctx, case, **changes):
    case = dict(case, **changes)
    learner = ctx.call("DirectionalGMM", ctx.load(MOD).DirectionalGMM)
    from vartools.dynamical_systems import LinearSystem
    learner.dpgmm = mixture(case)
    learner.dim_gmm = 5
    learner.pos_attractor = np.array(case["attractor"]) + np.array(case.get("shift") or (0, 0))
    learner.null_ds = LinearSystem(attractor_position=learner.pos_attractor)
    return learner


def density(pos, mean, cov):
    diff = np.asarray(pos) - mean
    expo = -0.5 * diff @ np.linalg.solve(cov, diff)
    return math.exp(max(expo, -700)) / math.sqrt((2 * math.pi) ** len(mean) * np.linalg.det(cov))


def expected(gmm, pos, fi, fo):
    """Shares of the components, and the conditional mean of each of them."""
    dens = np.array([density(pos, mm[fi], cc[np.ix_(fi, fi)])
                     for mm, cc in zip(gmm.means_, gmm.covariances_)])
    cond = np.array([mm[fo] + cc[np.ix_(fo, fi)] @ np.linalg.solve(cc[np.ix_(fi, fi)], pos - mm[fi])
                     for mm, cc in zip(gmm.means_, gmm.covariances_)])
    shares = gmm.weights_ * dens
    return dens, shares / shares.sum() if shares.sum() > 0 else shares, cond


def positions(tier, far=True):
    side = (-1.6, -0.5, 0.15, 1.0, 2.3) if tier == "quick" else np.linspace(-2.6, 2.7, 12)
    out = [(xx, yy) for xx in side for yy in side]
    if far:
        out += [(60.0, 1.0), (-3.0, 900.0), (-40.0, -41.0)]
    return [np.array(pp, dtype=float) for pp in out]


def cases_mixture(tier):
    out = []
    for nn in (1, 2, 3):
        for prior in PRIORS[nn]:
            for turn in (0.0, 0.25, -0.6) if tier == "quick" else (0.0, 0.1, 0.25, -0.6, 1.0):
                for attractor in ((2.0, -1.5), (-0.3, 0.4)):
                    out.append({"n": nn, "prior": prior, "turn": turn, "attractor": attractor,
                                "tier": tier})
    return out


def angle_of(learner, pos, vel):
    from vartools.directional_space import get_angle_space
    return get_angle_space(vel, null_direction=learner.pos_attractor - pos)[0]


def run_parts(ctx, case):
    """Densities, shares, conditional means and covariances of every set of inputs."""
    learner = regressor(ctx, case)
    gmm = learner.dpgmm
    space = ctx.load(SPACE)
    sets = [[0, 1], [0, 1, 2, 3], [1], [0, 2, 4], [3, 1]]
    for fi in sets:
        rest = [kk for kk in range(5) if kk not in fi]
        points = [np.resize(pp * np.array([1.0, 0.7]) * (1 + 0.1 * len(fi)), len(fi))
                  for pp in positions(case["tier"], far=False)]
        xx = np.array(points)
        for fo in (rest, rest[::-1], rest[:1]):
            ctx.visit("parts", scene_key(case), tuple(fi), tuple(fo))
            afi = np.array(fi)
            prob = ctx.call("densities", learner.get_gaussian_probability, xx.copy(), feat_in=afi)
            beta = ctx.call("weights", learner.get_mixing_weights, xx.copy(), feat_in=afi,
                            feat_out=np.array(fo))
            norm = ctx.call("normalized weights", learner.get_mixing_weights, xx.copy(),
                            feat_in=afi, feat_out=np.array(fo), normalize_probability=True)
            mean = ctx.call("conditional means", learner.get_mean_yx, xx.copy(), feat_in=afi,
                            feat_out=np.array(fo))
            cov = ctx.call("conditional covariances", learner.get_covariance_out, feat_in=afi,
                           feat_out=np.array(fo))
            for kk in range(case["n"]):
                cc = gmm.covariances_[kk]
                exp = cc[np.ix_(fo, fo)] - cc[np.ix_(fo, fi)] @ np.linalg.solve(
                    cc[np.ix_(fi, fi)], cc[np.ix_(fi, fo)])
                ctx.close(cov[:, :, kk], exp, "covariance of the outputs given the inputs",
                          atol=1e-9)
            for jj, pp in enumerate(points):
                dens, shares, cond = expected(gmm, pp, fi, fo)
                ctx.close(prob[:, jj], dens, "probability density of each component", atol=1e-9,
                          rtol=1e-6)
                ctx.close(norm[:, jj], shares, "normalized weights are the shares", atol=1e-7)
                total = beta[:, jj].sum()
                ctx.require(np.all(beta[:, jj] >= 0) and total <= 1 + 1e-9, "weights",
                            f"weights {beta[:, jj]} of the components at {pp}")
                ctx.close(beta[:, jj], total * shares, "weights in the ratio of the shares",
                          atol=1e-9)
                ctx.close(mean[:, jj, :].T, cond, "mean of the outputs given the inputs", atol=1e-8)
        if fi == sorted(fi):
            other = ctx.call("weights (direction space)", space.get_mixing_weights, xx.copy(), gmm, fi)
            mean = ctx.call("means (direction space)", space.get_mean_yx, xx.copy(), gmm, fi)
            field = ctx.call("regress_gmm", space.regress_gmm, xx.copy(), gmm, fi,
                             convergence_attractor=False)
            for jj, pp in enumerate(points):
                _, shares, cond = expected(gmm, pp, fi, rest)
                ctx.close(other[:, jj], shares, "shares (direction space)", atol=1e-7)
                ctx.close(mean[:, jj, :].T, cond, "conditional means (direction space)", atol=1e-8)
                ctx.close(field[jj], shares @ cond, "regression (direction space)", atol=1e-7)
    ctx.outcome("parts", case["n"])


def run_motion(ctx, case):
    """The motion is turned by the mean of the components from the direction to the attractor."""
    learner = regressor(ctx, case)
    double = regressor(ctx, case, gain=0.5)
    moved = regressor(ctx, case, shift=(3.0, -2.0))
    pulled = regressor(ctx, case)
    pulled.convergence_attractor = True
    gmm = learner.dpgmm
    points = positions(case["tier"])
    array = np.array(points).T
    fast = ctx.call("predict_array", learner.predict_array, array.copy())
    part = ctx.call("predict_array", learner.predict_array, array[:, ::3].copy())
    ctx.close(part, fast[:, ::3], "the motion of a position does not depend on the others", atol=1e-9)
    for jj, pp in enumerate(points):
        ctx.visit("motion", scene_key(case), jj)
        vel = ctx.call("predict", learner.predict, pp.copy())
        ctx.finite(vel, "velocity")
        ctx.close(np.linalg.norm(vel), 1.0, "magnitude of the learned motion", atol=1e-9)
        ctx.close(fast[:, jj], vel, "one by one as in an array", atol=1e-9)
        ctx.close(ctx.call("predict", moved.predict, pp + np.array([3.0, -2.0])), vel,
                  "moved demonstrations", atol=1e-6)
        _, shares, cond = expected(gmm, pp, [0, 1], [4])
        mean = float(shares @ cond[:, 0])
        near = min(math.sqrt((pp - mm[:2]) @ np.linalg.solve(cc[:2, :2], pp - mm[:2]))
                   for mm, cc in zip(gmm.means_, gmm.covariances_))
        if np.linalg.norm(pp) > 30:
            ctx.close(vel, lib.unit(learner.pos_attractor - pp),
                      "straight to the attractor far from all components", atol=1e-6)
            ctx.outcome("far", case["n"])
            continue
        if abs(mean) > 2.8 or abs(mean) < 1e-3 or near > 6:
            continue
        ang = angle_of(learner, pp, vel)
        scale = ang / mean
        ctx.require(0 < scale <= 1 + 1e-6, "part of the turn",
                    f"turned by {ang} at {pp} where the components turn by {mean} on average")
        if near < 0.3:
            ctx.require(scale > 0.9, "part of the turn at the core of a component",
                        f"turned by {ang} at {pp} instead of {mean}")
        tug = ctx.call("predict", pulled.predict, pp.copy())
        ctx.close(np.linalg.norm(tug), 1.0, "magnitude of the attracted motion", atol=1e-9)
        ratio = angle_of(pulled, pp, tug) / ang
        ctx.require(-1e-9 <= ratio <= 1 + 1e-6, "less turned if attracted",
                    f"turned by {ratio} of the turn without attraction at {pp}")
        ctx.outcome("turned", case["n"], round(scale, 1))
    # the part of the turn depends on the position only, not on the angle which is turned
    for pp in points:
        _, shares, cond = expected(gmm, pp, [0, 1], [4])
        m1 = float(shares @ cond[:, 0])
        m2 = float(shares @ expected(double.dpgmm, pp, [0, 1], [4])[2][:, 0])
        if min(abs(m1), abs(m2)) < 1e-3 or max(abs(m1), abs(m2)) > 2.8 or np.linalg.norm(pp) > 30:
            continue
        a1 = angle_of(learner, pp, ctx.call("predict", learner.predict, pp.copy()))
        a2 = angle_of(double, pp, ctx.call("predict", double.predict, pp.copy()))
        ctx.close(a1 * m2, a2 * m1, "part of the turn for other means", atol=1e-6)
    # close to the attractor, and at it
    for ang in lib.circle(8):
        pp = pulled.pos_attractor + 1e-4 * ang
        vel = ctx.call("predict", pulled.predict, pp)
        ctx.close(vel, -ang, "straight to the attractor next to it", atol=1e-3)
    for obj in (learner, pulled):
        rest = ctx.call("predict at the attractor", obj.predict, obj.pos_attractor.copy())
        ctx.close(rest, np.zeros(2), "rests at the attractor", atol=1e-9)


def run_velocities(ctx, case):
    """Inputs with velocities: fast ones count as those of magnitude one."""
    learner = regressor(ctx, case)
    gmm = learner.dpgmm
    inputs = []
    for pp in positions("quick", far=False)[::2]:
        for dd in lib.circle(6, 0.2):
            for mag in (0.2, 0.9, 1.0, 1.6, 7.0):
                inputs.append(np.hstack((pp, mag * dd)))
    array = np.array(inputs).T
    keep = array.copy()
    fast = ctx.call("predict_array", learner.predict_array, array)
    ctx.close(array, keep, "inputs are left as they are", atol=0)
    for jj, xx in enumerate(inputs):
        ctx.visit("velocities", scene_key(case), jj)
        vel = ctx.call("predict", learner.predict, xx.copy())
        ctx.finite(vel, "velocity")
        ctx.close(fast[:, jj], vel, "one by one as in an array", atol=1e-9)
        unit = xx.copy()
        unit[2:] /= max(1.0, np.linalg.norm(unit[2:]))
        ctx.close(ctx.call("predict", learner.predict, unit), vel, "cropped velocities", atol=1e-6)
        dens, shares, cond = expected(gmm, unit, [0, 1, 2, 3], [4])
        mean = float(shares @ cond[:, 0])
        if 1e-3 < abs(mean) < 2.8 and dens.max() > 1e-6:
            scale = angle_of(learner, xx[:2], vel) / mean
            ctx.require(0 < scale <= 1 + 1e-6, "part of the turn",
                        f"turned by {scale} of the mean turn at {xx}")
    ctx.outcome("velocities", case["n"])


def cases_velocities(tier):
    return [cc for cc in cases_mixture(tier) if cc["attractor"][0] > 0]


# --- demonstrations

TURNS = (-0.6, 0.0, 0.4, 1.0)


def demonstrate(attractor, turn, starts, nn=30, reach=0.97):
    """Logarithmic spirals: all samples move at the same angle to the direction to the attractor."""
    data = np.empty((1, len(starts)), dtype=object)
    for ii, (rr, aa) in enumerate(starts):
        tt = np.linspace(0, reach, nn)
        rad = rr * (1 - tt)
        # moving inwards at the angle `turn` to the direction to the attractor
        ang = aa + math.tan(turn) * np.log(1 - tt)
        pos = np.array([rad * np.cos(ang), rad * np.sin(ang)])
        vel = lib.rot2(turn) @ (-pos / rad) * (0.5 + 0.5 * rad / rr)
        data[0, ii] = np.vstack((pos + np.array(attractor)[:, None], vel))
    return data


STARTS = {"one": [(3.0, 0.4)], "two": [(3.0, 0.4), (2.0, 1.2)],
          "three": [(2.0, -2.0), (3.0, -2.3), (2.5, -1.6)]}


def cases_demo(tier):
    out = []
    for kind in ("mixture", "process", "vectors"):
        for name in STARTS:
            for turn in TURNS:
                for attractor in ((0.0, 0.0), (4.0, -3.0)):
                    for how in ("end", "given", "at"):
                        if how == "given" and kind == "process":
                            continue
                        if how == "at" and (tier == "quick" and turn != 0.4):
                            continue
                        out.append({"kind": kind, "starts": name, "turn": turn, "how": how,
                                    "attractor": attractor, "tier": tier})
    return out


def learn(ctx, case, data, nn=1, seed=0):
    import scipy.io
    folder = tempfile.mkdtemp(prefix="mc_c23_")
    try:
        scipy.io.savemat(os.path.join(folder, "data.mat"), {"data": data})
        kwargs = {"attractor": np.array(case["attractor"])} if case["how"] == "given" else {}
        np.random.seed(seed)
        if case["kind"] == "mixture":
            learner = ctx.load(MOD).DirectionalGMM(directory_name=folder, file_name="data.mat")
        else:
            mod, cls = OTHERS[case["kind"]]
            learner = getattr(ctx.load(mod), cls)(directory_name=folder, file_name="data.mat")
        ctx.call("load_data_from_mat", learner.load_data_from_mat, **kwargs)
        if case["kind"] == "mixture":
            ctx.call("fit", learner.fit, n_gaussian=nn)
        else:
            ctx.call("fit", learner.fit)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return learner


def run_demo(ctx, case):
    shift = np.array([-2.0, 5.0])
    starts = STARTS[case["starts"]]
    data = demonstrate(case["attractor"], case["turn"], starts)
    if case["how"] == "at":
        # the demonstrations end exactly at the attractor
        for ii in range(data.shape[1]):
            data[0, ii][:2, -1] = case["attractor"]
    learner = learn(ctx, case, data)
    samples = np.hstack([data[0, ii] for ii in range(data.shape[1])])
    ctx.close(learner.pos, samples[:2].T, "positions of the demonstrations", atol=1e-12)
    ctx.close(learner.vel, samples[2:].T, "velocities of the demonstrations", atol=1e-12)
    ends = np.mean([data[0, ii][:2, -1] for ii in range(data.shape[1])], axis=0)
    attractor = np.array(case["attractor"]) if case["how"] == "given" else ends
    ctx.close(learner.pos_attractor, attractor, "attractor of the demonstrations", atol=1e-9)
    if case["kind"] == "mixture":
        mag = np.linalg.norm(samples[2:], axis=0)
        ctx.close(learner.X[:, 2:4].T, samples[2:] / np.maximum(mag, mag.mean()),
                  "normalized velocities", atol=1e-9)
    base, gain = {"mixture": (0.2, 0.3), "process": (0.15, 0.15),
                  "vectors": (0.15, 0.1)}[case["kind"]]
    tol = base + gain * abs(case["turn"])
    fast = ctx.call("predict_array", learner.predict_array, samples[:2].copy())
    data2 = demonstrate(np.array(case["attractor"]) + shift, case["turn"], starts)
    if case["how"] == "at":
        for ii in range(data2.shape[1]):
            data2[0, ii][:2, -1] = np.array(case["attractor"]) + shift
    moved = learn(ctx, dict(case, attractor=tuple(np.array(case["attractor"]) + shift)), data2)
    for jj in range(samples.shape[1]):
        ctx.visit("demo", scene_key(case), jj)
        pos, vel = samples[:2, jj], samples[2:, jj]
        dist = np.linalg.norm(pos - attractor)
        out = ctx.call("predict", learner.predict, pos.copy())
        ctx.finite(out, "velocity")
        ctx.close(fast[:, jj], out, "one by one as in an array", atol=1e-9)
        if dist < 1e-9:
            ctx.close(out, np.zeros(2), "rests at the attractor", atol=1e-9)
            continue
        ctx.close(np.linalg.norm(out), 1.0, "magnitude of the learned motion", atol=1e-9)
        near = np.linalg.norm(ctx.call("predict", moved.predict, pos + shift) - out)
        ctx.require(near < 2e-2, "moved demonstrations",
                    f"motions {near} apart at {pos} when demonstration and attractor are moved")
        if dist > 0.5:
            err = lib.angle_between(out, vel)
            ctx.require(err < tol, "demonstrations are reproduced",
                        f"motion {out} at the sample {pos} with velocity {vel}")
    ctx.outcome("demo", case["kind"], case["starts"])
    # trajectories
    if case["kind"] != "mixture" and case["how"] == "end":
        begin = np.array([np.array(case["attractor"]) + rr * np.array([math.cos(aa), math.sin(aa)])
                          for rr, aa in starts]).T
        args = {"n_steps": 500, "delta_t": 0.05, "convergence_margin": 0.03,
                "starting_points": begin.copy()}
        check_paths(ctx, case, learner, begin, args, 0.05)


def check_paths(ctx, case, learner, begin, args, step):
    paths = ctx.call("integrate_trajectory", learner.integrate_trajectory, **args)
    ctx.close(paths[:, 0, :], begin, "start of the trajectory", atol=1e-12)
    hops = np.linalg.norm(np.diff(paths, axis=1), axis=0)
    ctx.require(hops.max() <= step * (1 + 1e-6), "steps of a trajectory",
                f"step of {hops.max()} in a trajectory")
    last = np.linalg.norm(paths[:, -1, :] - learner.pos_attractor[:, None], axis=0)
    ctx.require(last.max() <= 0.12, "end of the trajectory",
                f"trajectories end {last} from the attractor")


def cases_paths(tier):
    out = []
    for nn in (1, 2, 3):
        for prior in PRIORS[nn]:
            for turn in (0.0, 0.25):
                for attractor in ((2.0, -1.5), (-0.3, 0.4)):
                    for vel in (False, True):
                        out.append({"n": nn, "prior": prior, "turn": turn, "attractor": attractor,
                                    "velocity": vel, "tier": tier})
    return out


def run_paths(ctx, case):
    learner = regressor(ctx, case)
    learner.convergence_attractor = True
    begin = np.array(positions(case["tier"], far=False)).T + 0.013
    args = {"num_steps": 300, "delta_t": 0.05, "convergence_err": 0.03,
            "starting_points": begin.copy(), "velocity_based": case["velocity"]}
    if case["velocity"]:
        # the mean of these mixtures turns away from the attractor if the velocity is known
        learner.dpgmm.means_[:, 4] *= 0.3
        learner.dpgmm.covariances_[:, 4, :4] *= 0.1
        learner.dpgmm.covariances_[:, :4, 4] *= 0.1
        begin = begin[:, ::3]
        args["starting_points"] = begin.copy()
    ctx.visit("paths", scene_key(case))
    check_paths(ctx, case, learner, begin, args, 0.05)
    ctx.outcome("paths", case["n"])


FAMILIES = [
    Family("mixture-parts", cases_mixture, run_parts),
    Family("mixture-motion", cases_mixture, run_motion),
    Family("mixture-velocities", cases_velocities, run_velocities),
    Family("demonstrations", cases_demo, run_demo),
    Family("trajectories", cases_paths, run_paths),
]
