"""C18: the region around one cluster of a motion, its surface, distances and normals."""
import itertools
import sys

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

MOD = "nonlinear_avoidance.kmeans_learner.kmeans_obstacle"
# Cluster centers: alone, pairs, chains, corners where several cells meet, and scattered ones
CENTERS = {
    2: {"one": [(0.7, -0.4)],
        "pair": [(-1.0, 0.0), (1.0, 0.0)],
        "steep": [(0.5, 0.5), (-0.2, 1.9)],
        "square": [(-1.0, 0.0), (1.0, 0.0), (1.0, 2.0), (-1.0, 2.0)],
        "around": [(0.0, 0.0), (1.5, 0.2), (-0.3, 1.2), (-1.1, -0.6), (0.8, -1.3)],
        "scattered": [(-3.24, 0.85), (-4.44, 0.88), (-0.86, 0.92), (-4.05, 0.69)],
        "line": [(0.0, 0.0), (1.0, 0.5), (2.0, 1.0), (3.0, 1.5)]},
    3: {"pair": [(-1.0, 0.0, 0.0), (1.0, 0.0, 0.0)],
        "corner": [(0.0, 0.0, 0.0), (1.4, 0.0, 0.0), (0.0, 1.0, 0.0), (0.2, 0.1, 1.2)],
        "scattered": [(0.3, -0.2, 0.4), (1.5, 0.6, 0.1), (-0.8, 0.9, -0.5), (0.1, -1.4, 1.2),
                      (0.6, 0.3, -1.5)]},
}
TINY = (1e-15, 1e-13, 1e-10)  # directions are lost to rounding here
RADII = (0.45, 0.9, 1.5, 4.0)
RATIOS = (1e-6, 0.1, 0.5, 0.9, 0.999, 1.001, 1.1, 1.7, 4.0, 30.0)


def cases(tier):
    out = []
    for dim in (2, 3):
        for name, centers in CENTERS[dim].items():
            for ii in range(len(centers)):
                for rad in RADII if tier != "quick" else RADII[::1 if dim == 2 else 2]:
                    out.append({"dim": dim, "centers": name, "index": ii, "radius": rad,
                                "tier": tier})
    return out


def clusters(case):
    from sklearn.cluster import KMeans

    centers = np.array(CENTERS[case["dim"]][case["centers"]])
    return KMeans(n_clusters=len(centers), init=centers, n_init=1, max_iter=1).fit(centers)


def build(ctx, case, successors=()):
    mod = ctx.load(MOD)
    kmeans = clusters(case)
    obs = ctx.call("KMeansObstacle", mod.KMeansObstacle, kmeans=kmeans, radius=case["radius"],
                   index=case["index"])
    obs.successor_index = list(successors)
    return obs, np.copy(kmeans.cluster_centers_)


def rays(case, centers):
    """All around the center, towards the other centers, and towards the corners of the cell."""
    dim, ind = case["dim"], case["index"]
    if dim == 2:
        dirs = lib.circle(24 if case["tier"] == "quick" else 96, 0.0)
    elif case["tier"] == "quick":
        dirs = lib.sphere26()
    else:
        dirs = lib.lattice_directions(3, (-2, -1, 0, 1, 2))
    dirs = [np.array(dd) for dd in dirs]
    others = [jj for jj in range(len(centers)) if jj != ind]
    dirs += [lib.unit(centers[jj] - centers[ind]) for jj in others]
    for pair in itertools.combinations(others, 2):
        mid = lib.unit(centers[pair[0]] - centers[ind]) + lib.unit(centers[pair[1]] - centers[ind])
        if np.linalg.norm(mid) > 1e-6:
            dirs.append(lib.unit(mid))
    return dirs


def reach(dd, centers, case):
    """How far the region reaches in a direction, and the sides which end it there."""
    ind, rad = case["index"], case["radius"]
    ends = {ind: rad}
    for jj, cc in enumerate(centers):
        if jj == ind:
            continue
        cos = np.dot(dd, cc - centers[ind])
        if cos > 1e-9:
            ends[jj] = 0.5 * np.sum((cc - centers[ind]) ** 2) / cos
    end = min(ends.values())
    return end, [jj for jj, ee in ends.items() if ee < end + 1e-7]


def excess(pos, centers, case):
    """How far beyond each of the sides of the region."""
    ind = case["index"]
    out = {ind: np.linalg.norm(pos - centers[ind]) - case["radius"]}
    for jj, cc in enumerate(centers):
        if jj != ind and np.linalg.norm(cc - centers[ind]) < 2 * case["radius"]:
            out[jj] = np.dot(lib.unit(cc - centers[ind]), pos - 0.5 * (cc + centers[ind]))
    return out


def query(ctx, obs, name, pos, center, **kwargs):
    """Ask in both frames: they agree, and the position is left as it is."""
    out = []
    for frame, shift in ((True, 0.0), (False, center)):
        arg = pos - shift
        keep = np.copy(arg)
        val = ctx.call(name, getattr(obs, name), arg, in_global_frame=frame, **kwargs)
        ctx.close(arg, keep, f"{name} leaves the position as it is", 0)
        ctx.finite(val, name)
        out.append(np.array(val, dtype=float))
    return out


# ------------------------------------------------------------------------------------- surface
def surface_run(ctx, case):
    obs, centers = build(ctx, case)
    center = centers[case["index"]]
    ctx.close(obs.center_position, center, "center", 1e-12)
    for dd in rays(case, centers):
        end, _ = reach(dd, centers, case)
        for ratio in RATIOS:
            pos = center + dd * end * ratio
            ctx.visit(scene_key(case), *np.round(pos, 9))
            glob, loc = query(ctx, obs, "get_point_on_surface", pos, center)
            ctx.close(glob, center + end * dd, "point of the surface in this direction", 1e-6)
            ctx.close(loc, end * dd, "point of the surface, from the center", 1e-6)
            glob, loc = query(ctx, obs, "get_reference_direction", pos, center)
            ctx.close(glob, -dd, "reference direction towards the center", 1e-6)
            ctx.close(loc, -dd, "reference direction, from the center", 1e-6)
    glob, loc = query(ctx, obs, "get_point_on_surface", np.copy(center), center)
    end, _ = reach(lib.unit(loc), centers, case)
    ctx.close(np.linalg.norm(loc), end, "surface, seen from the center itself", 1e-6)
    ctx.close(glob, center + loc, "surface, seen from the center itself, in both frames", 1e-6)
    ctx.outcome(case["centers"], case["radius"])
    if case["dim"] == 2:
        pts = ctx.finite(ctx.call("evaluate_surface_points", obs.evaluate_surface_points, 37),
                         "evaluate_surface_points")
        ctx.require(pts.shape == (2, 37), "number of surface points", f"shape {pts.shape}")
        for pp in pts.T:
            end, _ = reach(lib.unit(pp - center), centers, case)
            ctx.close(np.linalg.norm(pp - center), end, "points around the surface", 1e-6)


# ---------------------------------------------------------------------------------- membership
def member_run(ctx, case):
    obs, centers = build(ctx, case)
    center = centers[case["index"]]
    for dd in rays(case, centers):
        end, _ = reach(dd, centers, case)
        for ratio in TINY + RATIOS:
            pos = center + dd * end * ratio
            ctx.visit(scene_key(case), *np.round(pos, 9))
            inside = ratio < 1
            near = (np.linalg.norm(pos - center) < case["radius"] and all(
                np.linalg.norm(pos - center) < np.linalg.norm(pos - cc)
                for jj, cc in enumerate(centers) if jj != case["index"]))
            ctx.require(near == inside, "model of the region", "wrong model")
            glob, loc = query(ctx, obs, "get_gamma", pos, center)
            if ratio > 1e-7:
                ctx.close(loc, glob, "distance value in both frames", 1e-5, 1e-5)
            ctx.require((glob > 1) == inside and (loc > 1) == inside, "distance value above one inside of the region only",
                        f"{glob} at {ratio} of the way to the surface")
            ctx.require(glob >= 0, "distance value is positive", f"{glob}")
            for frame, shift in ((True, 0.0), (False, center)):
                val = ctx.call("is_inside", obs.is_inside, pos - shift, in_global_frame=frame)
                ctx.require(bool(val) == inside, "inside of the region", f"{val} at {ratio}")
            ctx.outcome("inside", inside)
        # On the surface itself, as it is computed, and as the region gives it
        pos = ctx.call("get_point_on_surface", obs.get_point_on_surface, center + dd,
                       in_global_frame=True)
        for point in (pos, center + end * dd, center + end * (1 - 1e-12) * dd,
                      center + end * (1 + 1e-12) * dd):
            for kwargs in ({}, {"ind_transparent": -1}):
                glob, loc = query(ctx, obs, "get_gamma", point, center, **kwargs)
                ctx.close([glob, loc], [1, 1], "distance value on the surface", 1e-5)
    glob, loc = query(ctx, obs, "get_gamma", np.copy(center), center)
    ctx.require(glob > 1e6 and loc > 1e6, "distance value at the center", f"{glob}")
    ctx.require(bool(ctx.call("is_inside", obs.is_inside, np.copy(center), in_global_frame=True)),
                "the center is inside", "outside")


# ------------------------------------------------------------------------------------- normals
def normal_run(ctx, case):
    obs, centers = build(ctx, case)
    ind = case["index"]
    center = centers[ind]
    for dd in rays(case, centers):
        end, sides = reach(dd, centers, case)
        surf = ctx.call("get_point_on_surface", obs.get_point_on_surface, center + dd,
                        in_global_frame=True)
        spots = [(rr, center + dd * end * rr) for rr in RATIOS] + [
            (1.0, surf), (1.0, center + dd * end), (1.0, center + dd * end * (1 - 1e-12)),
            (1.0, center + dd * end * (1 + 1e-12))]
        for ratio, pos in spots:
            ctx.visit(scene_key(case), *np.round(pos, 9), ratio)
            glob, loc = query(ctx, obs, "get_normal_direction", pos, center)
            # Where sides meet, either of the normals may be taken
            if ratio != 1.0 or len(sides) == 1:
                ctx.close(loc, glob, "normal in both frames", 1e-5)
            ctx.close(np.linalg.norm(glob), 1.0, "length of the normal", 1e-6)
            ctx.require(np.dot(glob, -dd) > -1e-9, "normal points to the side of the center",
                        f"{glob} from direction {dd}")
            far = dd * end * (ratio if ratio > 1 else 1 / ratio)
            beyond = [jj for jj, ee in excess(center + far, centers, case).items() if ee > 1e-9]
            if ratio == 1.0:
                beyond = sides
            if len(beyond) != 1:
                ctx.outcome("between", ratio > 1)
                continue
            side = beyond[0]
            want = -dd if side == ind else -lib.unit(centers[side] - center)
            ctx.close(glob, want, "normal of the side ahead", 1e-5)
            ctx.outcome("ball" if side == ind else "side", ratio == 1.0)
    glob, loc = query(ctx, obs, "get_normal_direction", np.copy(center), center)
    ctx.close([np.linalg.norm(glob), np.linalg.norm(loc)], [1, 1],
              "length of the normal at the center", 1e-9)


# ----------------------------------------------------------------------------------------- gap
def gap_cases(tier):
    return [dict(cc, to=jj) for cc in cases(tier)
            for jj in range(len(CENTERS[cc["dim"]][cc["centers"]])) if jj != cc["index"]]


def gap_run(ctx, case):
    """Towards the following region there is no wall, elsewhere nothing changes."""
    obs, centers = build(ctx, case, [case["to"]])
    closed, _ = build(ctx, case)
    center = centers[case["index"]]
    for dd in rays(case, centers):
        end, _ = reach(dd, centers, case)
        for ratio in RATIOS:
            pos = center + dd * end * ratio
            ctx.visit(scene_key(case), *np.round(pos, 9))
            glob, loc = query(ctx, obs, "get_gamma", pos, center)
            ctx.close(np.minimum(loc, 1e6), np.minimum(glob, 1e6),
                      "distance value in both frames", 1e-4, 1e-4)
            named, _ = query(ctx, closed, "get_gamma", pos, center, ind_transparent=case["to"])
            ctx.close(min(named, 1e6), min(glob, 1e6), "named side is the following one", 1e-6,
                      1e-6)
            wall, _ = query(ctx, obs, "get_gamma", pos, center, ind_transparent=-1)
            plain, _ = query(ctx, closed, "get_gamma", pos, center)
            ctx.close(wall, plain, "without a gap, when asked so", 1e-9, 1e-9)
            if ratio < 1:
                ctx.require(glob > 1, "above one inside of the region", f"{glob} at {ratio}")
            far = dd * end * (ratio if ratio > 1 else 1 / ratio)
            beyond = {jj: ee for jj, ee in excess(center + far, centers, case).items()
                      if ee > 1e-9}
            if case["to"] not in beyond:
                if abs(excess(center + far, centers, case).get(case["to"], 1)) > 1e-7:
                    ctx.close(glob, plain, "away from the gap nothing changes", 1e-6, 1e-6)
                    ctx.outcome("wall")
            elif len(beyond) == 1 or beyond[case["to"]] >= sum(beyond.values()) - 1e-9:
                ctx.require(glob > 1e6, "no wall towards the following region",
                            f"{glob} at {ratio}")
                ctx.outcome("gap")
            else:
                ctx.outcome("beside")
            val = ctx.call("is_inside", obs.is_inside, pos, in_global_frame=True)
            ctx.require(bool(val) == (ratio < 1), "the gap is no part of the region",
                        f"{val} at {ratio}")
        # Right on the surface
        pos = ctx.call("get_point_on_surface", obs.get_point_on_surface, center + dd,
                       in_global_frame=True)
        _, sides = reach(dd, centers, case)
        for point in (pos, center + end * dd):
            glob, loc = query(ctx, obs, "get_gamma", point, center)
            if sides == [case["to"]]:
                ctx.require(min(glob, loc) > 1e6, "no wall on the side of the following region",
                            f"{glob}, {loc}")
            elif case["to"] not in sides:
                ctx.close([glob, loc], [1, 1], "wall on the other sides", 1e-4)


# ----------------------------------------------------------------------------------- partition
def share_cases(tier):
    return [{"dim": dim, "centers": name, "radius": rad, "index": 0, "tier": tier}
            for dim in (2, 3) for name in CENTERS[dim] for rad in RADII]


def share_run(ctx, case):
    """Each position close enough to a cluster is inside of exactly one region."""
    mod = ctx.load(MOD)
    kmeans = clusters(case)
    centers = np.copy(kmeans.cluster_centers_)
    regions = [ctx.call("KMeansObstacle", mod.KMeansObstacle, kmeans=kmeans,
                        radius=case["radius"], index=ii) for ii in range(len(centers))]
    n_side = (19 if case["dim"] == 2 else 7) * (1 if case["tier"] == "quick" else 2)
    lows, ups = centers.min(axis=0) - case["radius"], centers.max(axis=0) + case["radius"]
    axes = [np.linspace(lo, up, n_side) + 0.0137 * kk for kk, (lo, up) in enumerate(zip(lows, ups))]
    for pos in itertools.product(*axes):
        pos = np.array(pos)
        dists = np.linalg.norm(centers - pos, axis=1)
        order = np.sort(dists)
        if abs(order[0] - case["radius"]) < 1e-6 or (len(order) > 1 and order[1] - order[0] < 1e-6):
            continue
        ctx.visit(scene_key(case), *np.round(pos, 9))
        want = [ii == np.argmin(dists) and dists[ii] < case["radius"] for ii in range(len(dists))]
        got = [bool(ctx.call("is_inside", rr.is_inside, np.copy(pos), in_global_frame=True))
               for rr in regions]
        ctx.require(got == want, "region which contains a position",
                    f"{got} instead of {want} at {pos}")
        ctx.outcome(sum(want))


FAMILIES = [
    Family("surface", cases, surface_run),
    Family("membership", cases, member_run),
    Family("normals", cases, normal_run),
    Family("gap", gap_cases, gap_run),
    Family("partition", share_cases, share_run),
]
