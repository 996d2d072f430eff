"""C17: a motion which is learned from a demonstration, cluster by cluster."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

MOD = "nonlinear_avoidance.kmeans_learner.kmeans_motion_learner"

CURVES = {
    2: {"line": lambda s: (4 * s - 2, 0.5 * s),
        "bend": lambda s: (min(4 * s, 2) - 1.5, max(0.0, 4 * s - 2)),
        "arc": lambda s: (2 * math.cos(3 * s), 2 * math.sin(3 * s)),
        "ess": lambda s: (3 * s, 1.2 * math.sin(5 * s)),
        "wide": lambda s: (9 * s - 20, 4 * s * s + 3)},
    3: {"line": lambda s: (4 * s - 2, 0.5 * s, s),
        "helix": lambda s: (1.5 * math.cos(4 * s), 1.5 * math.sin(4 * s), 2 * s)},
}


def corners(points):
    """The lines along the points; the attractor (s = 1.05) is just before the last one."""
    points = np.array(points, dtype=float)
    length = np.hstack((0, np.cumsum(np.linalg.norm(np.diff(points, axis=0), axis=1))))
    return lambda s: tuple(np.interp(s / 1.06 * length[-1], length, points[:, dd]) if s > 0
                           else points[0, dd] + s / 1.06 * length[-1] * lib.unit(
                               points[1] - points[0])[dd] for dd in range(points.shape[1]))


# Curves which turn by more than a right angle, with the numbers of clusters which resolve them
SHARP = {"hair": (corners([(0, 0), (4, 0), (4, 1.5), (0, 1.5)]), (3, 4, 5, 6)),
         "zig": (corners([(0, 0), (2, 2), (4, 0), (6, 2)]), (3, 4, 5, 6)),
         "zigzag": (corners([(0, 0), (1, 1.5), (2, 0), (3, 1.5), (4, 0)]), (3, 4, 5, 6, 7)),
         "spiral": (lambda s: ((3 - 2.5 * s) * math.cos(7 * s), (3 - 2.5 * s) * math.sin(7 * s)),
                    (4, 5, 6))}
SHIFTS = {2: (3.0, -7.0), 3: (3.0, -7.0, 2.0)}


def demonstration(curve, dim, nn=30, shift=None, repeats=1):
    """Samples of a curve which slow down nowhere; the attractor is ahead of the last one."""
    from vartools.handwritting_handler import MotionDataHandler
    func = CURVES[dim][curve] if curve in CURVES[dim] else SHARP[curve][0]
    shift = np.zeros(dim) if shift is None else np.array(shift)
    seq = np.linspace(0, 1, nn)
    pos = np.array([func(ss) for ss in seq])
    vel = np.array([np.subtract(func(ss + 0.01), func(ss - 0.01)) for ss in seq])
    vel = vel / np.linalg.norm(vel, axis=1)[:, None]
    side = np.array([0.05, -0.04, 0.03][:dim])
    pos = np.vstack([pos + kk * side for kk in range(repeats)]) + shift
    data = MotionDataHandler(position=pos)
    data.velocity = np.vstack([vel] * repeats)
    data.sequence_value = np.hstack([seq] * repeats)
    data.attractor = np.array(func(1.05)) + shift
    return data


def cases(tier):
    out = []
    for dim in (2, 3):
        for curve in CURVES[dim]:
            for nn in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7):
                for factor in (0.7, 1.0) if tier == "quick" else (0.6, 0.7, 1.0, 1.3):
                    for how in ("fit", "centers"):
                        if tier == "quick" and (dim == 3 or how == "centers") and (
                                nn % 2 == 0 or factor == 1.0):
                            continue
                        out.append({"dim": dim, "curve": curve, "clusters": nn, "factor": factor,
                                    "how": how, "tier": tier})
    return out


def learn(ctx, case, data=None):
    mod = ctx.load(MOD)
    np.random.seed(case.get("seed", 0))
    if data is None:
        data = demonstration(case["curve"], case["dim"], repeats=case.get("repeats", 1))
    if case["how"] == "centers":
        parts = np.array_split(data.position, case["clusters"])
        centers = np.array([pp.mean(axis=0) for pp in parts]).T
        return ctx.call("from_centers", mod.KMeansMotionLearner.from_centers, centers, data), data
    return ctx.call("KMeansMotionLearner", mod.KMeansMotionLearner, data,
                    n_clusters=case["clusters"], radius_factor=case.get("factor", 0.7)), data


def reach(dd, ii, centers, radius):
    end = radius
    for jj, cc in enumerate(centers):
        cos = np.dot(dd, cc - centers[ii])
        if jj != ii and cos > 1e-9:
            end = min(end, 0.5 * np.sum((cc - centers[ii]) ** 2) / cos)
    return end


def nearest(centers, pos):
    dists = np.linalg.norm(centers - pos, axis=1)
    return int(np.argmin(dists)), dists


def order_model(centers, data):
    """Clusters from the end of the demonstration to its start."""
    labels = np.array([nearest(centers, pp)[0] for pp in data.position])
    means = [np.mean(data.sequence_value[labels == kk]) for kk in range(len(centers))]
    return list(np.argsort(means)[::-1]), labels


def check_structure(ctx, learner, data):
    """The chain of the clusters, and the region of each of them."""
    centers = np.copy(learner.kmeans.cluster_centers_)
    size = len(centers)
    ctx.require(learner.n_clusters == size and len(learner.region_obstacles) == size
                and learner.get_number_of_features() == size, "number of clusters",
                f"{learner.n_clusters}, {size}, {len(learner.region_obstacles)}")
    order, labels = order_model(centers, data)
    for kk, ind in enumerate(order):
        want = [] if kk == 0 else [order[kk - 1]]
        got = [int(xx) for xx in ctx.call("get_successors", learner.get_successors, ind)]
        ctx.require(got == want, "cluster which follows", f"{got} instead of {want}")
        want = [] if kk == size - 1 else [order[kk + 1]]
        got = [int(xx) for xx in ctx.call("get_predecessors", learner.get_predecessors, ind)]
        ctx.require(got == want, "cluster which comes before", f"{got} instead of {want}")
        region = learner.region_obstacles[ind]
        ctx.close(region.center_position, centers[ind], "center of the region", 1e-12)
        want = [] if kk == 0 else [order[kk - 1]]
        ctx.require([int(xx) for xx in region.successor_index] == want, "region which follows")
        ctx.close(region.radius, learner.region_radius_, "radius of the region", 1e-12)
    for pos, label in zip(data.position, labels):
        dists = np.sort(nearest(centers, pos)[1])
        got = ctx.call("get_distance_from_centers", learner.get_distance_from_centers, pos)
        ctx.close(np.sort(got), dists, "distances to the clusters", 1e-9)
        if size > 1 and dists[1] - dists[0] < 1e-6:
            continue
        got = [bool(rr.is_inside(pos, in_global_frame=True)) for rr in learner.region_obstacles]
        ctx.require(got == [kk == label for kk in range(size)],
                    "the demonstration stays inside of the regions", f"{got} at {pos}")
    ctx.require(np.linalg.norm(centers[order[0]] - data.attractor) < learner.region_radius_,
                "the attractor is in reach of the last region")
    return centers, order


# ----------------------------------------------------------------------------------- structure
def structure_cases(tier):
    return [dict(cc, seed=seed, repeats=rep) for cc in cases(tier)
            for seed in range(3 if tier == "quick" else 10) for rep in (1, 3)
            if cc["how"] == "fit" or seed == 0]


def structure_run(ctx, case):
    learner, data = learn(ctx, case)
    keep = [np.copy(data.position), np.copy(data.velocity), np.copy(data.sequence_value)]
    ctx.visit(scene_key(case))
    centers, order = check_structure(ctx, learner, data)
    ctx.outcome(case["curve"], tuple(order))
    # The same learner is told something else
    if case["how"] == "fit":
        names = list(CURVES[case["dim"]])
        for name in (names[(names.index(case["curve"]) + 1) % len(names)], case["curve"]):
            other = demonstration(name, case["dim"])
            np.random.seed(case["seed"])
            ctx.call("fit", learner.fit, other)
            check_structure(ctx, learner, other)
            ctx.visit(scene_key(case), name)
    for old, new in zip(keep, (data.position, data.velocity, data.sequence_value)):
        ctx.close(new, old, "the demonstration is left as it is", 0)


# ------------------------------------------------------------------------------- few samples
def sparse_cases(tier):
    return [{"sizes": list(sizes), "dim": 2, "seed": seed, "away": away, "tier": tier}
            for nn in (4, 5)
            for sizes in itertools.product((12, 1), repeat=nn)
            if sum(ss == 12 for ss in sizes) >= 2
            for away in (1.0, 5.0)  # how far the small groups are off, which changes their index
            for seed in range((6 if nn == 4 else 2) if tier == "quick" else 16)]


def sparse_run(ctx, case):
    """Groups with few samples are left out; their samples go to the closest other group."""
    from vartools.handwritting_handler import MotionDataHandler
    mod = ctx.load(MOD)
    places = [(0.0, 0.0), (3.0, 0.5), (5.5, 2.5), (6.0, 6.0), (3.5, 8.0)][:len(case["sizes"])]
    places = [tuple(np.array((2.0, 4.0)) + (np.array(place) - (2.0, 4.0)) * (
        case["away"] if size == 1 else 1)) for place, size in zip(places, case["sizes"])]
    pos, vel = [], []
    for kk, (place, size) in enumerate(zip(places, case["sizes"])):
        ahead = np.subtract((places + [(1.0, 9.0)])[kk + 1], place)
        for ii in range(size):
            pos.append(np.array(place) + 0.05 * np.array([ii - 6, (ii * 5) % 12 - 6]))
            vel.append(lib.unit(ahead))
    data = MotionDataHandler(position=np.array(pos))
    data.velocity = np.array(vel)
    data.sequence_value = np.linspace(0, 1, len(pos))
    data.attractor = np.array([1.0, 9.0])
    np.random.seed(case["seed"])
    learner = ctx.call("KMeansMotionLearner", mod.KMeansMotionLearner, data,
                       n_clusters=len(places))
    ctx.visit(tuple(case["sizes"]), case["seed"], case["away"])
    centers, _ = check_structure(ctx, learner, data)
    labels = np.array([nearest(centers, pp)[0] for pp in data.position])
    counts = np.bincount(labels, minlength=len(centers))
    ctx.require(np.all(counts >= 0.2 * len(pos) / len(places)), "no group with few samples",
                f"{counts}")
    for pp, vv in zip(pos, vel):
        got = ctx.finite(ctx.call("predict", learner.predict, np.copy(pp)), "velocity")
        ctx.require(np.linalg.norm(got) <= 1 + 1e-6, "speed", f"{got}")
    ctx.outcome(tuple(counts))


# ------------------------------------------------------------------------------------- weights
def directions(case):
    if case["dim"] == 2:
        return lib.circle(24 if case["tier"] == "quick" else 96, 0.013)
    return lib.sphere26() if case["tier"] == "quick" else lib.lattice_directions(
        3, (-2, -1, 0, 1, 2))


def inside_run(ctx, case):
    """Inside of the regions and at their walls."""
    learner, data = learn(ctx, case)
    centers = np.copy(learner.kmeans.cluster_centers_)
    order, _ = order_model(centers, data)
    radius = learner.region_radius_
    for ii, center in enumerate(centers):
        spot = order.index(ii)
        before = order[spot + 1] if spot + 1 < len(order) else None
        after = order[spot - 1] if spot else None
        for dd in directions(case) + [
                lib.unit(centers[jj] - center) for jj in (before, after) if jj is not None]:
            dd = np.array(dd)
            end = reach(dd, ii, centers, radius)
            for ratio in (0.0, 0.02, 0.3, 0.7, 0.95, 0.9999):
                pos = center + dd * end * ratio
                keep = np.copy(pos)
                ctx.visit(scene_key(case), *np.round(pos, 9))
                vel = ctx.finite(ctx.call("predict", learner.predict, pos), "velocity")
                ctx.close(pos, keep, "the position is left as it is", 0)
                ctx.require(np.linalg.norm(vel) <= 1 + 1e-6, "speed of the demonstration",
                            f"{vel}")
                ctx.close(ctx.call("evaluate", learner.evaluate, pos), vel,
                          "evaluating is predicting", 1e-12)
                weights = ctx.finite(ctx.call("weights", learner._predict_sequence_weights, pos),
                                     "weights") if hasattr(
                                         learner, "_predict_sequence_weights") else None
                if weights is not None:
                    check_weights(ctx, weights, ii, before, ratio)
                    border = before is not None and np.linalg.norm(pos - centers[before]) < (
                        np.linalg.norm(pos - center) * (1 + 5e-4))
                else:
                    border = False
                others = np.delete(np.arange(len(centers)), ii)
                open_side = after is not None and np.linalg.norm(
                    center + dd * end - centers[after]) < end * (1 + 1e-6)
                if ratio < 0.999 or border or open_side:
                    continue
                # At a wall of the region: inwards, or along it
                beyond = [jj for jj in others
                          if np.linalg.norm(center + dd * end - centers[jj]) < end * (1 + 1e-6)]
                if end > radius * (1 - 1e-9) and not beyond:
                    normal = -dd
                elif len(beyond) == 1 and end < radius * (1 - 1e-6):
                    normal = -lib.unit(centers[beyond[0]] - center)
                else:
                    continue
                ctx.require(vel @ normal >= -5e-3, "never out of a region through its walls",
                            f"{vel} with normal {normal} at {pos}")
                ctx.outcome("wall", bool(beyond))
    vel = ctx.call("predict", learner.predict, np.copy(data.attractor))
    ctx.close(vel, np.zeros(case["dim"]), "at rest at the attractor", 1e-9)


def check_weights(ctx, weights, ii, before, ratio):
    ctx.close(np.sum(weights), 1.0, "sum of the weights", 1e-9)
    ctx.require(np.all(weights >= 0), "weights are positive", f"{weights}")
    other = [jj for jj in range(len(weights)) if weights[jj] > 0 and jj not in (ii, before)]
    if ratio < 1:
        ctx.require(not other, "weights of the own and the previous cluster", f"{weights}")
    if ratio == 0.0:
        ctx.close(weights[ii], 1.0, "own weight at the center", 1e-12)


# ------------------------------------------------------------------------------------ arriving
def arrive_cases(tier):
    return [cc for cc in cases(tier) if tier != "quick" or cc["factor"] == 0.7]


def sharp_cases(tier):
    return [{"dim": 2, "curve": curve, "clusters": nn, "factor": 0.7, "how": how, "seed": seed,
             "tier": tier}
            for curve in SHARP for nn in SHARP[curve][1] for how in ("fit", "centers")
            for seed in ((0,) if how == "centers" or tier == "quick"
                         else range(6))]


def sharp_run(ctx, case):
    learner, data = learn(ctx, case)
    check_structure(ctx, learner, data)
    arrive_run(ctx, case)


def arrive_run(ctx, case):
    """Complete trajectories, from inside and outside of all regions."""
    learner, data = learn(ctx, case)
    centers = np.copy(learner.kmeans.cluster_centers_)
    radius = learner.region_radius_
    dim, att = case["dim"], data.attractor
    ndir = 5 if case["tier"] == "quick" else 12
    dirs = lib.circle(ndir, 0.1) if dim == 2 else lib.sphere26()[::6 if ndir == 5 else 2]
    mid = centers.mean(axis=0)
    spread = np.max(np.linalg.norm(centers - mid, axis=1))
    starts = [np.copy(data.position[0]), data.position[len(data.position) // 2] + 0.1]
    starts += [mid + np.array(dd) * (spread + radius * rr)
               for dd, rr in zip(dirs, itertools.cycle((1.2, 2.5)))]
    if case["curve"] in SHARP:
        starts = [np.copy(pp) for pp in data.position[::5 if case["tier"] == "quick" else 2]]
    size = max(radius, 0.3 * spread)
    for start in starts:
        pos = np.copy(start)
        for _ in range(900):
            if np.linalg.norm(pos - att) < 0.12:
                break
            vel = ctx.finite(ctx.call("predict", learner.predict, pos), "velocity")
            pos = pos + 0.03 * size * vel
        ctx.visit(scene_key(case), *np.round(start, 9))
        ctx.require(np.linalg.norm(pos - att) < 0.15 + 0.03 * size, "arrives at the attractor",
                    f"from {start} at {pos} instead of {att}")
        ctx.outcome("arrived")
    # Far away from all regions: straight towards the attractor
    for dd in dirs:
        for dist in (6.0, 50.0):
            pos = mid + np.array(dd) * (spread + dist * radius)
            vel = ctx.call("predict", learner.predict, np.copy(pos))
            ctx.close(vel, lib.unit(att - pos), "straight to the attractor far away", 1e-6)


# ------------------------------------------------------------------------------------- shifted
def shift_run(ctx, case):
    """The demonstration somewhere else: the same motion there."""
    shift = np.array(SHIFTS[case["dim"]])
    learner, _ = learn(ctx, case)
    other, _ = learn(ctx, case, demonstration(case["curve"], case["dim"], shift=shift))
    centers = np.copy(learner.kmeans.cluster_centers_)
    if len(centers) != len(other.kmeans.cluster_centers_) or not np.allclose(
            centers + shift, other.kmeans.cluster_centers_, atol=1e-6):
        ctx.outcome("clustered differently")
        return
    ctx.close(other.region_radius_, learner.region_radius_, "radius", 1e-6)
    for center in centers:
        for dd in [np.zeros(case["dim"])] + directions(case)[::3]:
            for dist in (0.2, 0.8, 1.3, 2.5):
                pos = center + np.array(dd) * dist * learner.region_radius_
                order = np.sort(nearest(centers, pos)[1])
                if len(order) > 1 and order[1] - order[0] < 1e-3:
                    continue
                ctx.visit(scene_key(case), *np.round(pos, 9))
                vel = ctx.call("predict", learner.predict, np.copy(pos))
                near = [ctx.call("predict", learner.predict, pos + 1e-6 * sign * axis)
                        for axis in np.eye(case["dim"]) for sign in (-1, 1)]
                if np.max(np.abs(np.array(near) - vel)) > 1e-3:
                    ctx.outcome("turning around")  # sides of half a turn: either is fine
                    continue
                got = ctx.call("predict", other.predict, pos + shift)
                ctx.close(got, vel, "same motion somewhere else", 1e-4)
                ctx.outcome(*np.round(vel, 1))


# ------------------------------------------------------------------------------------ straight
def straight_cases(tier):
    angles = [kk * 15 for kk in range(24)] if tier == "quick" else [kk * 5 for kk in range(72)]
    return [{"angle": angle, "clusters": nn, "how": how, "factor": 0.7, "lift": lift, "tier": tier}
            for angle in angles for nn in (2, 3, 4) for lift in (0.0, 1.0)
            for how in ("centers", "fit")]


def straight_run(ctx, case):
    """A straight demonstration is followed along its line."""
    from vartools.handwritting_handler import MotionDataHandler
    angle = math.radians(case["angle"])
    ahead = np.round([math.cos(angle), math.sin(angle)], 15)
    side = np.array([-ahead[1], ahead[0]])
    if case["lift"]:
        ahead, side = lib.unit(np.append(ahead, 0.7)), np.append(side, 0.0)
    seq = np.linspace(0, 1, 24)
    data = MotionDataHandler(position=np.outer(4 * seq - 1, ahead))
    data.velocity = np.tile(ahead, (24, 1))
    data.sequence_value = seq
    data.attractor = 3.2 * ahead
    learner, _ = learn(ctx, case, data)
    centers = np.copy(learner.kmeans.cluster_centers_)
    for along in np.linspace(-1.3, 2.7, 41):
        for aside in (0.0, 1e-12, -1e-8, 1e-4, 0.02, -0.05):
            pos = along * ahead + aside * side
            if abs(along) < 1e-9 or min(np.linalg.norm(centers - pos, axis=1)) < 1e-3:
                continue
            ctx.visit(scene_key(case), along, aside)
            vel = ctx.finite(ctx.call("predict", learner.predict, np.copy(pos)), "velocity")
            ctx.require(vel @ ahead > 0.5 * np.linalg.norm(vel) > 0, "along the demonstration",
                        f"{vel} at {pos} instead of {ahead}")
    ctx.outcome(case["clusters"])


FAMILIES = [Family("structure", structure_cases, structure_run),
            Family("few samples", sparse_cases, sparse_run),
            Family("inside", cases, inside_run),
            Family("arriving", arrive_cases, arrive_run),
            Family("sharp turns", sharp_cases, sharp_run),
            Family("straight", straight_cases, straight_run),
            Family("shifted", cases, shift_run)]
