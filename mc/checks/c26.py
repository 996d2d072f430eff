"""C26: ellipses around groups of points, as obstacles."""
import itertools
import math
import types

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c10 import scene_key

GMM = "nonlinear_avoidance.gmm_obstacle"

# Center, standard deviations, orientation (angle or rotation vector)
SHAPES = {2: {"circle": ((1.0, 1.0), 0.0), "wide": ((1.4, 0.5), 0.0), "tall": ((0.4, 1.1), 0.0),
              "tilted": ((1.3, 0.4), 0.6), "back": ((1.2, 0.5), -0.9), "small": ((0.2, 0.1), 1.2),
              "steep": ((0.4, 1.5), 0.35)},
          3: {"circle": ((1.0, 1.0, 1.0), (0, 0, 0)), "wide": ((1.4, 0.5, 0.8), (0, 0, 0)),
              "tilted": ((1.3, 0.4, 0.7), (0.3, -0.4, 0.8)),
              "steep": ((0.4, 1.5, 0.6), (-0.7, 0.2, 0.3))}}
CENTERS = {2: [(0.0, 0.0), (1.5, -0.7), (-2.2, 3.1)],
           3: [(0.0, 0.0, 0.0), (0.8, -1.1, 0.5)]}
FACTORS = (1.0, 2.0, 2.5)


def covariance(dim, shape):
    spread, ori = SHAPES[dim][shape]
    rot = lib.matrix_of(dim, ori)
    return rot @ np.diag(np.square(spread)) @ rot.T


def mixture(means, covariances, weights=None):
    """What a mixture is after it has been fitted."""
    from sklearn.mixture import GaussianMixture
    gmm = GaussianMixture(n_components=len(means), covariance_type="full")
    gmm.means_ = np.array(means, dtype=float)
    gmm.covariances_ = np.array(covariances, dtype=float)
    gmm.precisions_ = np.linalg.inv(gmm.covariances_)
    # Upper triangular, as precision = U @ U.T
    gmm.precisions_cholesky_ = np.array([np.linalg.inv(np.linalg.cholesky(cc)).T
                                         for cc in gmm.covariances_])
    weights = np.ones(len(means)) if weights is None else np.array(weights, dtype=float)
    gmm.weights_ = weights / np.sum(weights)
    gmm.converged_ = True
    return gmm


def obstacle(ctx, means, covariances, factor, weights=None, tree=True):
    mod = ctx.load(GMM)
    obs = mod.GmmObstacle(n_gmms=len(means), variance_factor=factor)
    obs._gmm = mixture(means, covariances, weights)
    if tree:
        ctx.call("evaluate_hirarchy_and_reference_points",
                 obs.evaluate_hirarchy_and_reference_points)
    return obs


def scaled(position, mean, cov, factor):
    """One on the surface of the ellipse, proportional to the distance from its center."""
    delta = np.array(position) - mean
    return math.sqrt(delta @ np.linalg.solve(cov, delta)) / factor


def directions(dim, tier):
    if dim == 2:
        return lib.circle(24 if tier == "thorough" else 12, 0.1) + lib.lattice_directions(2)
    return lib.sphere26()


# --- One ellipse
def single_cases(tier):
    for dim in (2, 3):
        for shape in SHAPES[dim]:
            for cc in range(len(CENTERS[dim])):
                for factor in FACTORS:
                    yield {"dim": dim, "shape": shape, "center": cc, "factor": factor, "tier": tier}


def single_run(ctx, case):
    dim, factor = case["dim"], case["factor"]
    mean = np.array(CENTERS[dim][case["center"]])
    cov = covariance(dim, case["shape"])
    obs = obstacle(ctx, [mean], [cov], factor)
    ctx.require(obs.dimension == dim, "dimension", f"{obs.dimension}")
    ctx.close(obs.get_center_position(0), mean, "center", atol=1e-12)
    for direction in directions(dim, case["tier"]):
        unit = scaled(mean + direction, mean, cov, factor)
        surface = mean + direction / unit
        last = -math.inf
        for radius in (0.2, 0.7, 1.0, 1.3, 3.0, 20.0):
            position = mean + radius * (surface - mean)
            ctx.visit(scene_key(case), *np.round(position, 9))
            ctx.close(ctx.call("get_gamma_proportional", obs.get_gamma_proportional, position, 0),
                      radius, "proportional distance", atol=1e-9)
            gamma = ctx.call("get_gamma", obs.get_gamma, position, 0)
            ctx.close(gamma, 1 + (radius - 1) * np.linalg.norm(surface - mean), "distance", atol=1e-9)
            ctx.require(gamma > last, "distance grows outwards", f"{gamma} {last}")
            last = gamma
            ctx.close(ctx.call("get_reference_direction", obs.get_reference_direction, position, 0),
                      direction, "reference direction", atol=1e-9)
            normal = ctx.call("get_normal_direction", obs.get_normal_direction, position, 0)
            ctx.close(normal, lib.unit(np.linalg.solve(cov, direction)), "normal", atol=1e-9)
            ctx.close(ctx.call("project_point_on_surface", obs.project_point_on_surface, position, 0),
                      surface, "projection to the surface", atol=1e-9)
            local = ctx.call("transform_position_to_unitcircle_frame",
                             obs.transform_position_to_unitcircle_frame, position, 0)
            ctx.close(np.linalg.norm(local), 0.5 * radius, "circle frame", atol=1e-9)
            ctx.close(ctx.call("transform_position_from_unitcircle_frame",
                               obs.transform_position_from_unitcircle_frame, local, 0), position,
                      "back from the circle frame", atol=1e-9)
            # The derivatives of gamma point along the normal, with the right length
            for power in (1, 2, 5):
                grad = ctx.call("get_gamma_derivative", obs.get_gamma_derivative, position, 0, power)
                length = 0.5 * power * scaled(position, mean, cov, 1.0) ** (power - 2) \
                    / factor ** power
                ctx.close(grad, length * np.linalg.solve(cov, position - mean), "derivative",
                          atol=1e-9, rtol=1e-9)
            # Seen from any other point of the inside
            for inner in (0.0, 0.4, 0.8):
                start = mean + inner * (obs.project_point_on_surface(
                    mean + lib.unit(np.roll(direction, 1) + 0.3), 0) - mean)
                if np.linalg.norm(start - position) < 1e-6:
                    continue
                hit = ctx.call("project_point_on_surface_with_offcenter_point",
                               obs.project_point_on_surface_with_offcenter_point, position, start, 0)
                ctx.close(scaled(hit, mean, cov, factor), 1, "other projection is on the surface",
                          atol=1e-8)
                ctx.close(lib.unit(hit - start), lib.unit(position - start),
                          "direction of the other projection", atol=1e-7)
            weights = None
            ctx.call("evaluate_gamma_weights", obs.evaluate_gamma_weights, position)
            weights = obs.relative_weights
            ctx.close(weights, [1.0], "only weight", atol=1e-12)
            ctx.call("evalute_weighted_reference_and_normal_offset",
                     obs.evalute_weighted_reference_and_normal_offset, position)
            ctx.close(obs.mean_reference, direction, "mean reference", atol=1e-7)
            ctx.close(obs.mean_normal, normal, "mean normal", atol=1e-7)
    # The center itself
    for name in ("get_reference_direction", "get_normal_direction"):
        vec = ctx.finite(ctx.call(name, getattr(obs, name), mean.copy(), 0), name)
        ctx.close(np.linalg.norm(vec), 1, "direction at the center", atol=1e-9)
    ctx.close(ctx.call("get_gamma", obs.get_gamma, mean.copy(), 0), 0, "distance at the center", atol=0)


# --- Analytic ellipses
def analytic_cases(tier):
    for shapes in itertools.product(SHAPES[2], repeat=2 if tier == "thorough" else 1):
        for factor in FACTORS:
            yield {"shapes": shapes, "factor": factor, "tier": tier}
    if tier != "thorough":
        names = list(SHAPES[2])
        for kk in range(len(names)):
            yield {"shapes": names[kk:] + names[:kk], "factor": 2.0, "tier": tier}


def analytic_run(ctx, case):
    means = [np.array([1.3 * kk, 0.4 * kk * kk]) for kk in range(len(case["shapes"]))]
    covs = [covariance(2, ss) for ss in case["shapes"]]
    obs = obstacle(ctx, means, covs, case["factor"], tree=False)
    ellipses = ctx.call("transform_to_analytic_ellipses", obs.transform_to_analytic_ellipses)
    ctx.require(len(ellipses) == len(means), "number of ellipses", f"{len(ellipses)}")
    for kk, (mean, cov) in enumerate(zip(means, covs)):
        ctx.close(ellipses[kk].center_position, mean, "center of the ellipse", atol=1e-12)
        for direction in directions(2, case["tier"]):
            surface = mean + direction / scaled(mean + direction, mean, cov, case["factor"])
            ctx.visit(scene_key(case), kk, *np.round(direction, 9))
            ctx.close(ellipses[kk].get_gamma(surface, in_global_frame=True), 1,
                      "surface of the ellipse", atol=1e-7)
            ctx.close(obs.get_gamma(surface, kk), 1, "surface of the part", atol=1e-7)


# --- Several ellipses
LAYOUTS = {
    "pair": [((0.0, 0.0), "wide"), ((1.9, 0.9), "tall")],
    "cross": [((0.0, 0.0), "wide"), ((0.2, 0.3), "tall")],
    "chain": [((-3.0, 0.2), "wide"), ((-0.3, 0.4), "tilted"), ((1.8, 1.6), "tall")],
    "star": [((0.1, 0.0), "circle"), ((2.2, 0.3), "wide"), ((-1.9, 1.1), "tilted"),
             ((0.3, -2.0), "tall")],
    "row": [((-4.4, 0.3), "wide"), ((-1.9, 0.1), "wide"), ((0.4, 0.4), "back"), ((2.7, -0.1), "wide")],
    "mirror": [((-0.9, 0.0), "circle"), ((0.9, 0.0), "circle")],
    "same": [((0.4, 0.3), "wide"), ((0.4, 0.3), "tall")],
    "corner": [((0.0, 0.0), "wide"), ((2.0, 1.0), "steep"), ((3.1, 3.3), "tilted")],
}
LAYOUTS3 = {
    "pair": [((0.0, 0.0, 0.0), "wide"), ((1.7, 0.6, 0.2), "steep")],
    "chain": [((-2.4, 0.2, 0.3), "wide"), ((-0.3, 0.4, 0.0), "tilted"), ((1.5, 1.1, 0.5), "steep")],
}
CELLS = [(xx, yy) for yy in (-1.6, 0.15, 1.7) for xx in (-1.9, 0.05, 2.1)]


def layout_cases(tier):
    for dim, table in ((2, LAYOUTS), (3, LAYOUTS3)):
        for name, parts in table.items():
            orders = list(itertools.permutations(range(len(parts))))
            for order in orders if dim == 2 else orders[:1]:
                for factor in (2.0,) if len(parts) == 4 and tier != "thorough" else (2.0, 2.5):
                    yield {"dim": dim, "layout": name, "order": order, "factor": factor, "tier": tier}
    for count in (2, 3) + ((4,) if tier == "thorough" else ()):
        for cells in itertools.combinations(range(9), count):
            yield {"dim": 2, "cells": cells, "order": list(range(count)), "factor": 2.0, "tier": tier}


def layout(case):
    dim = case["dim"]
    if "cells" in case:
        names = ["wide", "tilted", "tall", "back"]
        parts = [(CELLS[cc], names[kk]) for kk, cc in enumerate(case["cells"])]
    else:
        parts = (LAYOUTS if dim == 2 else LAYOUTS3)[case["layout"]]
    means = [np.array(parts[kk][0]) for kk in case["order"]]
    covs = [covariance(dim, parts[kk][1]) for kk in case["order"]]
    weights = [1.0 + 0.2 * kk for kk in case["order"]]
    return means, covs, weights


def hierarchy(means, covs, weights):
    """Root: closest to the mean of the centers; then always the part which another part of the
    tree explains best.  None where this is ambiguous."""
    count = len(means)
    distances = np.linalg.norm(np.array(means) - np.mean(means, axis=0), axis=1)
    order = np.argsort(distances)
    if count > 1 and distances[order[1]] - distances[order[0]] < 1e-6:
        return None
    logs = np.array([[math.log(weights[jj]) - 0.5 * math.log(np.linalg.det(covs[jj]))
                      - 0.5 * scaled(means[ii], means[jj], covs[jj], 1.0) ** 2
                      for jj in range(count)] for ii in range(count)])
    proba = np.exp(logs - np.max(logs, axis=1)[:, None])
    proba /= np.sum(proba, axis=1)[:, None]
    parent = {int(order[0]): None}
    while len(parent) < count:
        options = sorted(((proba[ii, jj], ii, jj) for ii in range(count) if ii not in parent
                          for jj in parent), reverse=True)
        # Probabilities which vanish numerically are no choice
        if options[0][0] < 1e-12 or (len(options) > 1 and
                                     options[0][0] - options[1][0] < 1e-9 * options[0][0]):
            return None
        parent[options[0][1]] = options[0][2]
    return parent


def tree_run(ctx, case):
    means, covs, weights = layout(case)
    count, factor = len(means), case["factor"]
    obs = obstacle(ctx, means, covs, factor, weights)
    graph = obs.gmm_index_graph
    expected = hierarchy(means, covs, weights)
    parent = {kk: graph.get_parent(kk) for kk in range(count)}
    if expected is not None:
        ctx.require(parent == expected, "hierarchy", f"{parent} instead of {expected}")
    roots = [kk for kk, pp in parent.items() if pp is None]
    ctx.require(len(roots) == 1 and list(graph.roots) == roots, "one root", f"{parent}")
    for kk in range(count):
        seen = [kk]
        while parent[seen[-1]] is not None:
            seen.append(parent[seen[-1]])
            ctx.require(len(seen) <= count, "no cycle", f"{parent}")
        ctx.visit(scene_key(case), kk)
        point = ctx.finite(obs.get_kernel_point(kk), "reference point")
        if parent[kk] is None:
            ctx.close(point, means[kk], "reference point of the root", atol=1e-12)
            continue
        # Where the centers are inside of each other's ellipse, so is what is between them
        between = [scaled(means[aa], means[bb], covs[bb], factor) for aa, bb in
                   ((kk, parent[kk]), (parent[kk], kk))]
        values = [scaled(point, means[ii], covs[ii], factor) for ii in (kk, parent[kk])]
        middle = [scaled(0.5 * (means[kk] + means[parent[kk]]), means[ii], covs[ii], factor)
                  for ii in (kk, parent[kk])]
        if max(middle) < 1:
            ctx.require(max(values) <= 1 + 1e-9, "reference point in both ellipses",
                        f"{kk} {values} {between}")
        ctx.require(max(values) <= max(middle) + 1e-9, "reference point no worse than the middle",
                    f"{kk} {values} {middle}")
    # Changes of the kernel points
    value = np.array([0.3, -0.2, 0.5][:case["dim"]])
    others = [np.array(obs.get_kernel_point(kk)) for kk in range(count)]
    obs.set_kernel_point(value, count - 1)
    for kk in range(count):
        ctx.close(obs.get_kernel_point(kk), value if kk == count - 1 else others[kk], "changed point",
                  atol=1e-12)


def mean_directions(ctx, obs, position, means, covs, rel, references, root):
    """Mean of the reference directions (as turns from the one of the root), and the normal: the mean
    difference to the reference directions, added to a reference that is as long as is needed."""
    reference = ctx.finite(obs.mean_reference, "mean reference")
    normal = ctx.finite(obs.mean_normal, "mean normal")
    ctx.close(np.linalg.norm(reference), 1, "length of the mean reference", atol=1e-6)
    ctx.close(np.linalg.norm(normal), 1, "length of the mean normal", atol=1e-6)
    ctx.require(normal @ reference > 0, "mean normal points outwards",
                lambda: f"{position} {normal} {reference}")
    delta = sum(ww * (lib.unit(np.linalg.solve(cc, position - mm)) - rr)
                for ww, mm, cc, rr in zip(rel, means, covs, references))
    if np.linalg.norm(delta) > 1e-6:
        factor = max(1.0, -math.sqrt(2) * float(delta @ reference) / np.linalg.norm(delta))
        ctx.close(normal, lib.unit(factor * reference + delta), "mean normal", atol=1e-6)
    else:
        ctx.close(normal, reference, "mean normal of circles", atol=1e-5)
    if len(reference) != 2:
        return False
    base = references[root]
    angles = [math.atan2(base[0] * rr[1] - base[1] * rr[0], base @ rr) for rr in references]
    used = [abs(aa) for aa, ww in zip(angles, rel) if ww]
    if max(used) > math.pi - 0.1:
        return False
    expected = lib.rot2(float(np.dot(rel, angles))) @ base
    ctx.close(reference, expected, "mean reference", atol=1e-6)
    return True


def blend_run(ctx, case):
    """Weights and blended directions."""
    dim, factor = case["dim"], case["factor"]
    means, covs, weights = layout(case)
    count = len(means)
    obs = obstacle(ctx, means, covs, factor, weights)
    parent = {kk: obs.gmm_index_graph.get_parent(kk) for kk in range(count)}
    root = [kk for kk in parent if parent[kk] is None][0]
    for kk in range(count):
        if scaled(obs.get_kernel_point(kk), means[kk], covs[kk], factor) >= 1:
            # Ellipses which do not meet are no obstacle of this kind
            return
    # The same mixture in its first order, rotated and shifted
    order = list(case["order"])
    clear = hierarchy(means, covs, weights) is not None
    rot, shift = lib.matrix_of(dim, 0.7 if dim == 2 else (0.4, -0.3, 0.6)), np.array([1.1, -2.0, 0.3][:dim])
    first = sorted(range(count), key=lambda kk: order[kk])
    other = obstacle(ctx, [rot @ means[kk] + shift for kk in first],
                     [rot @ covs[kk] @ rot.T for kk in first], factor, [weights[kk] for kk in first])
    spots = [np.array(pp) for pp in itertools.product((-5.1, -2.3, 0.15, 2.6, 5.4), repeat=dim)]
    for position in spots:
        ctx.visit(scene_key(case), *position)
        gammas = np.array([scaled(position, means[kk], covs[kk], factor) for kk in range(count)])
        ctx.call("evaluate_gamma_weights", obs.evaluate_gamma_weights, position)
        ctx.close(obs.gamma_list, gammas, "distances", atol=1e-9)
        rel = ctx.finite(obs.relative_weights, "weights")
        ctx.require(rel.shape == (count,) and np.all(rel >= 0), "weights are not negative", f"{rel}")
        ctx.close(np.sum(rel), 1, "sum of the weights", atol=1e-9)
        references = np.array([lib.unit(position - mm) for mm in means])
        if np.any(gammas <= 1):
            inside = gammas <= 1
            ctx.close(rel, inside / np.sum(inside), "weights inside", atol=1e-9)
            ctx.call("evalute_weighted_reference_and_normal_offset",
                     obs.evalute_weighted_reference_and_normal_offset, position)
            mean_directions(ctx, obs, position, means, covs, rel, references, root)
            continue
        free = 1 / (gammas - 1)
        # Hidden parts count less; the root is never hidden
        ratio = (rel / rel[root]) / (free / free[root])
        ctx.require(np.all(ratio <= 1 + 1e-7), "hidden parts count less", f"{position} {ratio}")
        for kk in range(count):
            if kk == root:
                continue
            point = obs.get_kernel_point(kk)
            hit = obs.project_point_on_surface_with_offcenter_point(position, point, kk)
            covered = scaled(hit, means[parent[kk]], covs[parent[kk]], factor)
            towards = lib.unit(position - point) @ lib.unit(means[parent[kk]] - point)
            if covered >= 1 or towards <= 0:
                ctx.close(ratio[kk], 1, "weight of what is not hidden", atol=1e-7)
            elif covered < 1 - 1e-6 and 1e-6 < towards < 1 - 1e-6:
                ctx.require(ratio[kk] < 1, "hidden parts count less", f"{position} {ratio}")
                ctx.close(ratio[kk], covered ** (1 / (1 - towards)), "weight of what is hidden",
                          atol=1e-6)
        ctx.call("evalute_weighted_reference_and_normal_offset",
                 obs.evalute_weighted_reference_and_normal_offset, position)
        known = mean_directions(ctx, obs, position, means, covs, rel, references, root)
        if clear:
            ctx.call("evaluate_gamma_weights", other.evaluate_gamma_weights, rot @ position + shift)
            ctx.close(other.relative_weights, rel[first], "weights in another order and frame",
                      atol=1e-5)
            ctx.call("evalute_weighted_reference_and_normal_offset",
                     other.evalute_weighted_reference_and_normal_offset, rot @ position + shift)
        if known and clear:
            ctx.close(other.mean_reference, rot @ obs.mean_reference,
                      "mean reference in another order and frame", atol=1e-4)
            ctx.close(other.mean_normal, rot @ obs.mean_normal,
                      "mean normal in another order and frame", atol=1e-4)


# --- From points
def fit_cases(tier):
    for shape in SHAPES[2]:
        for cc in range(3):
            for size in (4, 5, 9):
                yield {"dim": 2, "shapes": [shape], "center": cc, "size": size}
    for first, second in itertools.permutations(SHAPES[2], 2):
        yield {"dim": 2, "shapes": [first, second], "center": 0, "size": 5}
    for shape in SHAPES[3]:
        yield {"dim": 3, "shapes": [shape], "center": 1, "size": 6}


def group(dim, shape, size):
    """Points on lattices, with their own mean and covariance."""
    spread, ori = SHAPES[dim][shape]
    line = np.linspace(-1, 1, size)
    pts = np.array(list(itertools.product(line, repeat=dim))) * spread
    return pts @ lib.matrix_of(dim, ori).T


def fit_run(ctx, case):
    mod = ctx.load(GMM)
    dim = case["dim"]
    center = np.array(CENTERS[dim][case["center"]])
    groups = [group(dim, ss, case["size"]) + center + 30.0 * kk for kk, ss in enumerate(case["shapes"])]
    obs = mod.GmmObstacle(n_gmms=len(groups))
    np.random.seed(0)
    ctx.call("fit", obs.fit, np.vstack(groups).T)
    ctx.require(obs.dimension == dim, "dimension", f"{obs.dimension}")
    ctx.call("hierarchy", obs.evaluate_hirarchy_and_reference_points)
    for points in groups:
        mean = np.mean(points, axis=0)
        cov = np.cov(points.T, bias=True) + 1e-6 * np.eye(dim)
        idx = int(np.argmin([np.linalg.norm(obs.get_center_position(kk) - mean)
                             for kk in range(len(groups))]))
        ctx.close(obs.get_center_position(idx), mean, "center of the points", atol=1e-6)
        for position in list(points[:: max(1, len(points) // 7)]) + [mean + 3.0, mean - 2.2]:
            if np.linalg.norm(position - mean) < 1e-9:
                continue
            ctx.visit(scene_key(case), *np.round(position, 9))
            ctx.close(ctx.call("get_gamma_proportional", obs.get_gamma_proportional, position, idx),
                      scaled(position, mean, cov, 2.0), "distance to the fitted ellipse", rtol=1e-6)
            ctx.close(obs.get_normal_direction(position, idx),
                      lib.unit(np.linalg.solve(cov, position - mean)), "normal of the fitted ellipse",
                      atol=1e-6)


FAMILIES = [Family("single", single_cases, single_run),
            Family("analytic", analytic_cases, analytic_run),
            Family("from points", fit_cases, fit_run),
            Family("tree", layout_cases, tree_run),
            Family("blend", lambda tier: [cc for cc in layout_cases(tier)
                                          if cc.get("layout") != "same"], blend_run)]
