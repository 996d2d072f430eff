"""C24: mixtures of Gaussians which become a tree of overlapping regions."""
import itertools
import math
import os
import shutil
import tempfile
import types

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks import c19, c23
from mc.checks.c10 import scene_key

GRAPH = "nonlinear_avoidance.gmm_learner.graph"

# Components: center, spreads of the position, angle of the spreads, direction of the motion
LAYOUTS = {
    "line": [((0.2, 0.0), (0.8, 0.4), 0.0, math.pi), ((2.1, 0.1), (0.8, 0.4), 0.0, math.pi),
             ((4.0, 0.0), (0.8, 0.4), 0.1, math.pi)],
    "corner": [((0.0, 0.2), (0.8, 0.4), 0.3, math.pi), ((1.9, 0.8), (0.9, 0.5), 0.5, -2.6),
               ((3.0, 2.4), (0.9, 0.4), 1.3, -1.8), ((2.6, 4.2), (0.8, 0.4), 1.8, -1.3)],
    "star": [((0.1, 0.1), (0.7, 0.7), 0.0, 3.0), ((1.7, 0.3), (0.8, 0.4), 0.1, -3.0),
             ((-1.6, 0.5), (0.8, 0.4), -0.4, -0.3), ((0.2, -1.7), (0.8, 0.4), 1.5, 1.6)],
    "fork": [((0.0, 0.0), (0.8, 0.5), 0.2, 3.1), ((1.8, 0.4), (0.8, 0.5), 0.2, -2.9),
             ((3.2, 1.4), (0.8, 0.4), 0.7, -2.5), ((3.4, -0.7), (0.8, 0.4), -0.6, 2.6),
             ((5.0, 2.4), (0.9, 0.4), 0.6, -2.6)],
    "pair": [((0.0, 0.0), (1.0, 0.3), 0.8, -2.3), ((1.1, 1.0), (0.9, 0.3), 0.8, -2.4)],
    "alone": [((0.5, -0.5), (1.0, 0.4), 0.6, 2.0)],
}
WEIGHTS = {"even": lambda kk: 1.0, "falling": lambda kk: 1.0 / (1 + kk), "rising": lambda kk: 1.0 + kk}
ATTRACTOR = np.array([-0.4, -0.1])


CELLS = [(xx, yy) for yy in (-1.7, 0.3, 2.2) for xx in (-2.2, 0.4, 2.7)]
HEADINGS = {"inwards": lambda pp: math.atan2(-0.1 - pp[1], -0.4 - pp[0]) + 0.2,
            "around": lambda pp: math.atan2(-0.1 - pp[1], -0.4 - pp[0]) + 1.4,
            "left": lambda pp: math.pi + 0.4 * pp[1]}


def lattice(cells, heading):
    return [(CELLS[kk], (1.1 - 0.05 * kk, 0.7 + 0.03 * kk), 0.35 * kk, HEADINGS[heading](CELLS[kk]))
            for kk in cells]


def components(case):
    """Hand-set mixture of the features position, velocity and angle of the motion."""
    parts = LAYOUTS[case["layout"]] if "layout" in case else lattice(case["cells"], case["heading"])
    order = case.get("order") or list(range(len(parts)))
    shift = np.array(case.get("shift") or (0.0, 0.0))
    means, covs, weights = [], [], []
    attractor = ATTRACTOR + shift
    from vartools.directional_space import get_angle_space
    for kk in order:
        center, spreads, angle, heading = parts[kk]
        center = np.array(center) + shift
        direction = np.array([math.cos(heading), math.sin(heading)])
        turn = get_angle_space(direction, null_direction=attractor - center)
        means.append(np.hstack((center, 0.5 * direction, turn)))
        rot = lib.rot2(angle)
        cov = np.diag([0.0, 0.0, 0.05, 0.04, 0.03])
        cov[:2, :2] = rot @ np.diag(np.square(spreads)) @ rot.T
        cov[2, 3] = cov[3, 2] = 0.01
        covs.append(cov)
        weights.append(WEIGHTS[case["weights"]](kk))
    weights = np.array(weights) / np.sum(weights)
    return types.SimpleNamespace(means_=np.array(means), covariances_=np.array(covs),
                                 weights_=weights, covariance_type="full"), attractor


def graph(ctx, case):
    """Regions of a mixture (which replaces the one that is fitted to a demonstration)."""
    import scipy.io
    from vartools.dynamical_systems import LinearSystem
    folder = tempfile.mkdtemp(prefix="mc_c24_")
    try:
        name = os.path.join(folder, "data.mat")
        scipy.io.savemat(name, {"data": c23.demonstrate((0.0, 0.0), 0.3, c23.STARTS["one"])})
        np.random.seed(0)
        cont = ctx.call("GraphGMM", ctx.load(GRAPH).GraphGMM, file_name=name, n_gaussian=2)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    gmm, attractor = components(case)
    cont._Learner.dpgmm = gmm
    cont._Learner.pos_attractor = attractor
    cont._Learner.null_ds = LinearSystem(attractor_position=attractor)
    kwargs = {"oversize_factor": case["oversize"]} if case["oversize"] else {}
    ctx.call("create_learned_boundary", cont.create_learned_boundary, **kwargs)
    ctx.call("update_intersection_graph", cont.update_intersection_graph)
    ctx.call("set_convergence_directions", cont.set_convergence_directions, NonlinearDynamcis=cont)
    return cont


def cases(tier):
    out = []
    for layout, parts in LAYOUTS.items():
        for weights in WEIGHTS:
            for oversize in (None, 1.5) if tier == "quick" else (None, 1.3, 1.5, 2.5):
                out.append({"layout": layout, "weights": weights, "oversize": oversize,
                            "tier": tier})
    return out


def cases_lattice(tier):
    return [{"cells": list(cells), "heading": heading, "weights": weights, "oversize": None,
             "tier": tier}
            for nn in ((4,) if tier == "quick" else (2, 3, 4, 5))
            for cells in itertools.combinations(range(9), nn)
            for heading in HEADINGS
            for weights in (("even",) if tier == "quick" else WEIGHTS)]


def parents(cont):
    return [int(cont.get_parent(ii)) for ii in range(len(cont))]


def run_tree(ctx, case):
    cont = graph(ctx, case)
    gmm, attractor = components(case)
    nn = len(gmm.weights_)
    ctx.visit("tree", scene_key(case))
    ctx.require(len(cont) == nn, "one region for each component", f"{len(cont)} regions, {nn}")
    tree = parents(cont)
    # regions: all positions up to a fixed Mahalanobis distance
    factor = math.sqrt(2) * (case["oversize"] or 2.0)
    for ii, obs in enumerate(cont):
        vals, vecs = np.linalg.eigh(gmm.covariances_[ii][:2, :2])
        for dd in lib.circle(12, 0.1):
            edge = gmm.means_[ii, :2] + vecs @ (np.sqrt(vals) * dd) * factor
            ctx.close(obs.get_gamma(edge, in_global_frame=True), 1.0, "outline of the region",
                      atol=1e-6)
        ctx.require(obs.is_boundary, "regions are walls", f"region {ii} is an obstacle")
    # tree
    roots = [ii for ii in range(nn) if tree[ii] < 0]
    ctx.require(len(roots) == 1 and int(cont.get_root()) == roots[0], "one root", f"parents {tree}")
    for ii in range(nn):
        jj, seen = ii, set()
        while tree[jj] >= 0:
            ctx.require(jj not in seen, "no cycles", f"parents {tree}")
            seen.add(jj)
            jj = tree[jj]
        kids = sorted(int(kk) for kk in cont.get_children(ii))
        ctx.require(kids == [kk for kk in range(nn) if tree[kk] == ii], "children of each region",
                    f"children {kids} of {ii}, parents {tree}")
    leaves = sum(not len(cont.get_children(ii)) for ii in range(nn))
    ctx.require(int(cont.number_of_branches) == leaves, "number of branches", f"{leaves}")
    # ends of the components: on the ellipse of 1 spread times root of 2, along the mean motion
    ends = []
    for ii in range(nn):
        end = np.asarray(ctx.call("get_end_point", cont.get_end_point, ii))
        diff = end - gmm.means_[ii, :2]
        maha = diff @ np.linalg.solve(gmm.covariances_[ii][:2, :2], diff)
        ctx.close(maha, 2.0, "end of a component", atol=1e-6)
        ctx.close(lib.unit(diff), lib.unit(gmm.means_[ii, 2:4]), "end along the mean motion",
                  atol=1e-6)
        ends.append(end)
    ends = np.array(ends)
    dist = np.linalg.norm(ends - attractor, axis=1)
    ctx.require(dist[roots[0]] <= dist.min() + 1e-9, "the root ends closest to the attractor",
                f"root {roots[0]}, distances {dist}")
    # favourite of each component: the one which has the largest share at its end
    fav, prefer = {}, []
    for ii in range(nn):
        shares = c23.expected(gmm, ends[ii], [0, 1], [4])[1].copy()
        shares[ii] = -1
        prefer.append([int(kk) for kk in np.argsort(shares)[::-1]])
        if nn > 1:
            fav[ii] = int(np.argmax(shares))
    for ii in range(nn):
        jj, seen = ii, set()
        while jj != roots[0] and jj not in seen:
            seen.add(jj)
            jj = fav[jj]
        if ii != roots[0] and jj == roots[0]:
            ctx.require(tree[ii] == fav[ii], "parent is the component with the largest share",
                        f"parent {tree[ii]} of {ii}, largest share {fav[ii]}")
            ctx.outcome("favourite")
        elif ii != roots[0]:
            ctx.outcome("other")
    want = possible_trees(prefer, roots[0])
    ctx.require(tuple(tree) in want, "each region joins at the best choice that leads to the root",
                f"parents {tree}, and not one of {sorted(want)}")
    ctx.outcome("trees", len(want))
    # order of the components, and place of the scene
    names = [(tuple(np.round(gmm.means_[ii], 6)), None if tree[ii] < 0 else
              tuple(np.round(gmm.means_[tree[ii]], 6))) for ii in range(nn)]
    orders = list(itertools.permutations(range(nn)))[1:]
    if case["tier"] == "quick":
        orders = orders[:: max(1, len(orders) // 12)]
    for order in orders:
        other = graph(ctx, dict(case, order=list(order)))
        mix, _ = components(dict(case, order=list(order)))
        tree2 = parents(other)
        names2 = [(tuple(np.round(mix.means_[ii], 6)), None if tree2[ii] < 0 else
                   tuple(np.round(mix.means_[tree2[ii]], 6))) for ii in range(nn)]
        ctx.require(sorted(names, key=str) == sorted(names2, key=str), "order of the components",
                    f"parents {tree}, and {tree2} in the order {order}")
    moved = graph(ctx, dict(case, shift=(3.0, -5.0)))
    ctx.require(parents(moved) == tree, "moved mixture", f"parents {tree} and {parents(moved)}")


def possible_trees(prefer, root):
    """All trees in which regions join, group by group, at the best choice that leads to the root:
    all of those at their first choice, and otherwise one of them before they choose again."""
    done, todo = set(), [tuple(-1 if ii == root else None for ii in range(len(prefer)))]
    while todo:
        tree = todo.pop()
        rest = [ii for ii, par in enumerate(tree) if par is None]
        if not rest:
            done.add(tree)
        for kk in range(len(prefer) - 1):
            ready = [ii for ii in rest if tree[prefer[ii][kk]] is not None]
            join = lambda group: tuple(prefer[ii][kk] if ii in group else par
                                       for ii, par in enumerate(tree))
            if ready:
                todo += [join(ready)] if kk == 0 else [join([ii]) for ii in ready]
                break
    return done


def run_goals(ctx, case):
    """Each region converges to the attractor, or to its outline within reach of its parent."""
    cont = graph(ctx, case)
    gmm, attractor = components(case)
    tree = parents(cont)
    for ii, obs in enumerate(cont):
        ctx.visit("goals", scene_key(case), ii)
        probes = [obs.center_position + dd for dd in ((0.1, 0.2), (-0.3, 0.1), (0.2, -0.3))]
        rays = [ctx.call("get_convergence_direction", cont.get_convergence_direction, pp, ii)
                for pp in probes]
        goal = cross(probes[0], rays[0], probes[1], rays[1])
        if goal is None:
            goal = cross(probes[0], rays[0], probes[2], rays[2])
        if goal is None:
            continue
        for pp, ray in zip(probes, rays):
            ctx.close(lib.unit(np.asarray(ray)), lib.unit(goal - pp), "straight to one position",
                      atol=1e-6)
        if obs.get_gamma(attractor, in_global_frame=True) > 1 or tree[ii] < 0:
            ctx.close(goal, attractor, "attractor of the root and of regions which contain it",
                      atol=1e-6)
            ctx.outcome("attractor")
            continue
        gam = obs.get_gamma(goal, in_global_frame=True)
        ctx.close(gam, 1.0, "goal of a region is on its outline", atol=1e-6)
        towards = cont[tree[ii]].center_position - obs.center_position
        ctx.require(np.dot(goal - obs.center_position, towards) > 0, "goal towards the parent",
                    f"goal {goal} of region {ii} at {obs.center_position}")
        inter = cont.get_parent_intersection(ii)
        for kk in (ii, tree[ii]):
            ctx.require(cont[kk].get_gamma(inter, in_global_frame=True) > 1,
                        "common position of region and parent", f"{inter} is not within {kk}")
        ctx.outcome("outline")


def cross(p0, d0, p1, d1):
    mat = np.array([d0, -np.asarray(d1)]).T
    if abs(np.linalg.det(mat)) < 1e-6:
        return None
    return p0 + np.linalg.solve(mat, p1 - p0)[0] * np.asarray(d0)


def run_motion(ctx, case):
    """The learned motion which is attracted into the regions does not leave them."""
    cont = graph(ctx, case)
    gmm, attractor = components(case)
    for pos in [np.array([xx, yy]) for xx in np.linspace(-2.6, 6.1, 9)
                for yy in np.linspace(-2.6, 5.2, 9)]:
        ctx.visit("motion", scene_key(case), *pos)
        vel = ctx.finite(ctx.call("predict", cont.predict, pos), "learned motion")
        ctx.close(ctx.call("evaluate", cont.evaluate, pos), vel, "evaluate is predict", atol=1e-12)
        out = c19.attract(ctx, cont, pos, vel)
        ctx.close(np.linalg.norm(out), np.linalg.norm(vel), "magnitude of the motion is kept",
                  atol=1e-9)
        if max(c19.gammas(cont, pos)) <= 1:
            ctx.close(out, vel, "motion outside of all regions is not changed", atol=1e-9)
    directions = lib.circle(36 if case["tier"] == "quick" else 120, 0.01)
    for ii, obs in enumerate(cont):
        for dd in directions:
            surf = obs.get_intersection_with_surface(direction=dd, in_global_frame=True)
            pos = obs.center_position + (surf - obs.center_position) * (1 - 1e-7)
            rest = [gg for jj, gg in enumerate(c19.gammas(cont, pos)) if jj != ii]
            if rest and max(rest) > 1 - 1e-3:
                continue
            ctx.visit("wall", scene_key(case), ii, *dd)
            normal = obs.get_normal_direction(pos, in_global_frame=True)
            vel = ctx.call("predict", cont.predict, pos)
            out = c19.attract(ctx, cont, pos, vel)
            ctx.require(np.dot(out, normal) < 1e-5, "no motion out of the regions",
                        f"velocity {out} at {pos} leaves region {ii} along {normal}")
            ctx.outcome("wall", round(float(np.dot(out, normal)), 1))


FAMILIES = [
    Family("tree", cases, run_tree),
    Family("lattice", cases_lattice, run_tree),
    Family("goals", cases, run_goals),
    Family("motion", cases, run_motion),
]
