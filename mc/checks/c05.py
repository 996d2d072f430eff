"""C05 Obstacles composed of several components: rigid-body frames, gamma, hierarchy."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family

POSES2 = [((0.0, 0.0), 0.0), ((1.0, -2.0), 0.0), ((0.5, 0.3), math.pi / 3),
          ((-3.0, 2.0), -2.5), ((0.5, 0.3), -1.9), ((0.5, 0.3), math.pi / 3 + math.pi)]
POSES3 = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((1.0, -2.0, 0.5), (0.0, 0.0, 1.2)),
          ((0.5, 0.3, -1.0), (0.7, -0.4, 0.3)), ((0.5, 0.3, -1.0), (-0.7, 0.4, 1.3))]
# local poses of components (overlapping their predecessors)
LOCAL2 = [((0.0, 0.0), 0.0), ((0.6, 0.5), 0.3), ((-0.7, 0.6), -0.8), ((0.4, -0.9), 1.4)]
LOCAL3 = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((0.6, 0.5, 0.2), (0.3, 0.0, 0.0)),
          ((-0.7, 0.6, -0.3), (0.0, -0.8, 0.2))]
AXES2 = [(1.5, 2.5), (2.0, 1.0), (1.0, 2.2), (1.2, 1.8)]
AXES3 = [(1.5, 2.5, 2.0), (2.0, 1.0, 1.5), (1.0, 2.2, 1.4)]


def make_obstacle(kind, axes, local, margin=0.0, scaling=1.0):
    from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes, Ellipse
    cls = {"C": CuboidXd, "E": EllipseWithAxes, "H": Ellipse}[kind]
    axes = np.array(axes, dtype=float) * (0.5 if kind == "H" else 1.0)
    return cls(axes_length=axes, pose=lib.make_pose(*local), margin_absolut=margin,
               distance_scaling=scaling)


def _parents(n):
    """Every rooted labelled tree with parent index < own index."""
    return list(itertools.product(*[range(ii) for ii in range(1, n)]))


def _updates(n, current, full):
    """Histories of pose updates: every single pose (full: followed by every other one)."""
    out = [[]] + [[uu] for uu in range(n) if uu != current]
    if full:
        out += [[u0, u1] for u0 in range(n) for u1 in (current, (u0 + 1) % n) if u0 != current]
    else:
        out += [[(current + 1) % n, (current + 3) % n]]
    return out


def tree_cases(tier):
    deep = tier == "thorough"
    out = []
    for n in range(1, 5 if not deep else 6):
        for par in _parents(n):
            for pp in range(len(POSES2)):
                for updates in _updates(len(POSES2), pp, deep or n < 4):
                    for kinds in ("CE", "EC", "HC") if n > 1 else ("C", "E", "H"):
                        out.append({"dim": 2, "parents": par, "pose": pp, "updates": updates,
                                    "kinds": kinds, "margin": 0.0 if pp % 2 else 0.2})
    for n in range(1, 4):
        for par in _parents(n):
            for pp in range(len(POSES3)):
                for updates in _updates(len(POSES3), pp, deep):
                    for kinds in ("CE", "EC"):
                        out.append({"dim": 3, "parents": par, "pose": pp, "updates": updates,
                                    "kinds": kinds, "margin": 0.1})
    return out


def _expected_pose(outer, local, dim):
    pos, ori = outer
    mat = lib.matrix_of(dim, ori)
    return (np.array(pos) + mat @ np.array(local[0]), mat @ lib.matrix_of(dim, local[1]))


def _fresh(kind, axes, margin, expected, dim):
    """Obstacle put directly at the expected global pose."""
    obs = make_obstacle(kind, axes, (np.zeros(dim), 0.0 if dim == 2 else np.zeros(3)), margin)
    pos, mat = expected
    obs.pose.position = pos
    if dim == 2:
        obs.pose.orientation = math.atan2(mat[1, 0], mat[0, 0])
    else:
        obs.pose.orientation = lib.Rotation.from_matrix(mat)
    return obs


def _grid(dim, scale=2.6):
    steps = (-1.0, -0.45, 0.0, 0.5, 1.0) if dim == 2 else (-1.0, 0.1, 1.0)
    return [scale * np.array(vv) + 0.013 for vv in itertools.product(steps, repeat=dim)]


def tree_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_obstacle")
    dim = case["dim"]
    poses, locs, axes = (POSES2, LOCAL2, AXES2) if dim == 2 else (POSES3, LOCAL3, AXES3)
    n = len(case["parents"]) + 1
    kinds = [case["kinds"][ii % len(case["kinds"])] for ii in range(n)]
    idx = [ii % len(locs) for ii in range(n)]
    refs = [np.zeros(dim)] + [np.array([0.1 * ii, -0.2, 0.05][:dim]) for ii in range(1, n)]
    outer = poses[case["pose"]]
    multi = ctx.call("MultiObstacle", mod.MultiObstacle, lib.make_pose(*outer))
    for ii in range(n):
        obs = make_obstacle(kinds[ii], axes[idx[ii]], locs[idx[ii]], case["margin"])
        if ii == 0:
            rid = ctx.call("set_root", multi.set_root, obs)
        else:
            rid = ctx.call("add_component", multi.add_component, obs,
                           parent_ind=case["parents"][ii - 1], reference_position=refs[ii])
        ctx.require(rid == ii, "component id", lambda: f"{rid} != {ii}")
    ctx.raises("component below unknown parent", multi.add_component,
               make_obstacle("C", axes[0], locs[0]), parent_ind=n + 3) if n == 1 else None
    _check_tree(ctx, multi, case, outer, kinds, idx, refs)
    for uu in case["updates"]:
        new = lib.make_pose(*poses[uu])
        ctx.call("update_pose", multi.update_pose, new)
        _check_tree(ctx, multi, case, poses[uu], kinds, idx, refs)


def _check_tree(ctx, multi, case, outer, kinds, idx, refs):
    dim = case["dim"]
    _, locs, axes = (POSES2, LOCAL2, AXES2) if dim == 2 else (POSES3, LOCAL3, AXES3)
    n = len(kinds)
    ctx.visit(n, tuple(case["parents"]), outer, tuple(kinds))
    ctx.require(multi.n_components == n and len(multi) == n and len(list(multi)) == n,
                "number of components", lambda: f"{multi.n_components}")
    ctx.require(multi.dimension == dim, "dimension", "")
    pose = ctx.call("get_pose", multi.get_pose)
    ctx.close(pose.position, outer[0], "pose position", 1e-9)
    pose.position = pose.position + 100.0
    pose.position[0] = -77
    ctx.close(multi.get_pose().position, outer[0], "get_pose is a copy", 1e-9)
    root = multi.root_idx
    ctx.require(root == 0 and multi.get_root() is multi.get_component(0), "root", "")
    fresh = []
    for ii in range(n):
        expected = _expected_pose(outer, locs[idx[ii]], dim)
        comp = multi.get_component(ii)
        ctx.require(multi[ii] is comp, "indexing", "")
        ctx.close(comp.pose.position, expected[0], "component position", 1e-9)
        ctx.close(lib.pose_matrix(comp.pose), expected[1], "component orientation", 1e-9)
        par = ctx.call("get_parent_idx", multi.get_parent_idx, ii)
        ctx.require(par == (None if ii == 0 else case["parents"][ii - 1]), "parent",
                    lambda: f"component {ii}: {par}, {case['parents']}")
        ref = comp.get_reference_point(in_global_frame=True)
        ctx.close(ref, expected[0] + expected[1] @ refs[ii], "reference moves rigidly", 1e-9)
        fresh.append(_fresh(kinds[ii], axes[idx[ii]], case["margin"], expected, dim))
    mat = lib.matrix_of(dim, outer[1])
    for pos in _grid(dim):
        glob = mat @ pos + np.array(outer[0])
        gammas = [ff.get_gamma(glob, in_global_frame=True) for ff in fresh]
        keep = np.copy(glob)
        gam = ctx.call("get_gamma", multi.get_gamma, glob, in_global_frame=True)
        ctx.close(gam, min(gammas), "gamma is the minimum over components", 1e-7, 1e-7)
        loc = ctx.call("get_gamma local", multi.get_gamma, pos, in_global_frame=False)
        ctx.close(loc, min(gammas), "gamma in local frame", 1e-6, 1e-6)
        ctx.require(np.array_equal(glob, keep), "position unchanged", "")
        free = ctx.call("is_collision_free", multi.is_collision_free, glob)
        if abs(min(gammas) - 1) > 1e-6:
            ctx.require(bool(free) == (min(gammas) > 1), "collision free iff gamma > 1",
                        lambda: f"{free} {min(gammas)}")
        ctx.outcome(round(float(gam), 6))
    pos = np.array([0.3, 0.7, -0.2][:dim])
    glob = mat @ pos + np.array(outer[0])
    gammas = [ff.get_gamma(glob, in_global_frame=True) for ff in fresh]
    for sub in itertools.chain.from_iterable(
            itertools.combinations(range(n), kk) for kk in range(n)):
        rest = [gg for ii, gg in enumerate(gammas) if ii not in sub]
        for loc in (False, True):
            gam = ctx.call("get_gamma_except_components", multi.get_gamma_except_components,
                           pos if loc else glob, list(sub), in_global_frame=not loc)
            ctx.close(gam, min(rest), "gamma except components", 1e-6, 1e-6)
    ctx.raises("gamma of no component", multi.get_gamma_except_components, glob, list(range(n)))


# ---------------------------------------------------------------- automatic reference points
def auto_cases(tier):
    out = []
    for pp in range(len(POSES2)):
        for kinds in itertools.product("CEH", repeat=2):
            for shift in ((1.2, 0.3), (0.4, -1.4), (-1.0, 0.9), (0.0, 0.0), (9.0, 9.0)):
                for ori in (0.0, 0.9) if tier == "quick" else (0.0, 0.4, 0.9, 2.0, -1.1):
                    out.append({"pose": pp, "kinds": list(kinds), "shift": shift, "ori": ori})
    return out


def auto_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_obstacle")
    outer = POSES2[case["pose"]]
    multi = mod.MultiObstacle(lib.make_pose(*outer))
    multi.set_root(make_obstacle(case["kinds"][0], (1.5, 2.5), LOCAL2[1]))
    local = (np.array(LOCAL2[1][0]) + np.array(case["shift"]), case["ori"])
    child = make_obstacle(case["kinds"][1], (2.0, 1.2), local)
    ctx.visit(case["pose"], tuple(case["kinds"]), case["shift"], case["ori"])
    if case["shift"][0] > 5:
        ctx.raises("component which does not touch its parent", multi.add_component, child,
                   parent_ind=0)
        ctx.require(multi.n_components == 1 and len(multi) == 1, "refused component is not kept",
                    lambda: f"{multi.n_components}")
        ctx.close(child.pose.position, local[0], "refused component stays where it was", 1e-9)
        return
    ctx.call("add_component", multi.add_component, child, parent_ind=0)
    expected = _expected_pose(outer, local, 2)
    ctx.close(child.pose.position, expected[0], "component position", 1e-9)
    ref = child.get_reference_point(in_global_frame=True)
    ctx.finite(ref, "reference")
    for ii in range(2):
        gam = multi.get_component(ii).get_gamma(ref, in_global_frame=True)
        ctx.require(gam < 1 + 1e-6, "reference point lies in parent and child",
                    lambda: f"component {ii}: gamma {gam}")
    # the same in the untransformed frame
    other = mod.MultiObstacle(lib.make_pose(*POSES2[0]))
    other.set_root(make_obstacle(case["kinds"][0], (1.5, 2.5), LOCAL2[1]))
    child2 = make_obstacle(case["kinds"][1], (2.0, 1.2), local)
    other.add_component(child2, parent_ind=0)
    ctx.close(child.get_reference_point(), child2.get_reference_point(),
              "reference does not depend on the pose of the whole", 0.08)
    ctx.outcome(tuple(np.round(ref, 3)))


# ---------------------------------------------------------------- arches
def arch_cases(tier):
    out = []
    for wall in (0.3, 0.5, 1.0):
        for axes in ((2.0, 4.0), (3.0, 3.0), (4.0, 5.0)):
            for pp in range(len(POSES2)):
                for margin in (0.0, 0.2):
                    for upd in [None] + [uu for uu in range(len(POSES2)) if uu != pp]:
                        out.append({"wall": wall, "axes": axes, "pose": pp, "margin": margin,
                                    "update": upd})
    return out


def _box_gamma(pos, center, axes, margin):
    """Independent: gamma of an axis-parallel box (1 + distance outside)."""
    delta = np.abs(pos - center) - (np.array(axes) / 2 + margin)
    if np.any(delta > 0):
        return 1 + np.linalg.norm(np.maximum(delta, 0))
    return None  # inside


def _on_box(pos, center, axes, margin):
    delta = np.abs(pos - center) - (np.array(axes) / 2 + margin)
    return abs(np.max(delta)) < 1e-6


def arch_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.arch_obstacle")
    axes = np.array(case["axes"])
    wall, margin = case["wall"], case["margin"]
    outer = POSES2[case["pose"]]
    block = ctx.call("BlockArchObstacle", mod.BlockArchObstacle, wall_width=wall,
                     axes_length=np.copy(axes), pose=lib.make_pose(*outer), margin_absolut=margin)
    multi = ctx.call("create_arch_obstacle", mod.create_arch_obstacle, wall_width=wall,
                     axes_length=np.copy(axes), pose=lib.make_pose(*outer), margin_absolut=margin)
    if case["update"] is not None:
        outer = POSES2[case["update"]]
        block.pose = lib.make_pose(*outer)
        ctx.call("update_obstacles", block.update_obstacles, 0.1)
        ctx.call("update_pose", multi.update_pose, lib.make_pose(*outer))
    mat = lib.matrix_of(2, outer[1])
    dd = (axes - wall) / 2
    boxes = [((0.0, 0.0), (wall, axes[1])), ((dd[0], dd[1]), (axes[0], wall)),
             ((dd[0], -dd[1]), (axes[0], wall))]
    ctx.visit(wall, tuple(axes), outer, margin)
    for name, obj in (("block", block), ("multi", multi)):
        ctx.require(obj.n_components == 3 and len(obj) == 3 and len(list(obj)) == 3,
                    "arch has three components", "")
        ctx.require(obj.get_parent_idx(obj.root_idx) is None, "root has no parent", "")
        for ii in range(3):
            comp = obj.get_component(ii)
            ctx.close(comp.center_position, np.array(outer[0]) + mat @ np.array(boxes[ii][0]),
                      f"{name} component position", 1e-9)
            if ii != obj.root_idx:
                ctx.require(obj.get_parent_idx(ii) == obj.root_idx, "leg is attached to root", "")
                ref = comp.get_reference_point(in_global_frame=True)
                gam = obj.get_root().get_gamma(ref, in_global_frame=True)
                ctx.require(gam <= 1 + 1e-9 and comp.get_gamma(ref, in_global_frame=True) <= 1,
                            f"{name}: reference of a leg lies in leg and root", lambda: f"{gam}")
        steps = np.linspace(-4.1, 6.1, 7)
        for loc in itertools.product(steps, steps):
            loc = np.array(loc)
            glob = np.array(outer[0]) + mat @ loc
            vals = [_box_gamma(loc, np.array(cc), aa, margin) for cc, aa in boxes]
            gam = ctx.call("get_gamma", obj.get_gamma, glob, in_global_frame=True)
            gam_l = ctx.call("get_gamma local", obj.get_gamma, loc, in_global_frame=False)
            ctx.close(gam, gam_l, f"{name}: gamma does not depend on the frame", 1e-6)
            free = ctx.call("is_collision_free", obj.is_collision_free, glob)
            if any(_on_box(loc, np.array(cc), aa, margin) for cc, aa in boxes):
                continue  # exactly on a surface: either answer is right
            if any(vv is None for vv in vals):
                ctx.require(gam <= 1 and not free, f"{name}: occupied", lambda: f"{loc} {gam}")
            else:
                ctx.close(gam, min(vals), f"{name}: gamma is the closest box", 1e-6)
                if min(vals) > 1 + 1e-6:
                    ctx.require(bool(free), f"{name}: free", lambda: f"{loc} {gam}")
            for ii in range(3):
                rest = [vv for jj, vv in enumerate(vals) if jj != ii]
                if all(vv is not None for vv in rest):
                    for frame in (True, False):
                        got = ctx.call("get_gamma_except_components",
                                       obj.get_gamma_except_components,
                                       glob if frame else loc, [ii], in_global_frame=frame)
                        ctx.close(got, min(rest), f"{name}: gamma except component", 1e-6)
            ctx.outcome(round(float(gam), 5))


# ---------------------------------------------------------------- several ellipses
def ellipse_cases(tier):
    """All histories of root / parent assignments over 3 appended ellipses."""
    n = 3
    out = []
    ops = [["root", ii] for ii in range(n)] + [["parent", ii, jj] for ii in range(n)
                                               for jj in range(n) if ii != jj]
    for depth in range(1, 4 if tier == "quick" else 5):
        for hist in itertools.product(ops, repeat=depth):
            out.append({"ops": [list(oo) for oo in hist]})
    return out


def ellipse_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_ellipse_obstacle")
    obs = ctx.call("MultiEllipseObstacle", mod.MultiEllipseObstacle)
    for ii in range(3):
        ctx.call("append", obs.append, make_obstacle("E", AXES2[ii], LOCAL2[ii]))
    root, parents = None, [None] * 3
    ctx.require(obs.root_idx is None and obs.n_components == 3, "initial", "")
    for op in case["ops"]:
        if op[0] == "root":
            if root is not None:
                ctx.raises("second root", obs.set_root, op[1])
            elif parents[op[1]] is not None:
                break  # root below a parent: nothing is promised
            else:
                ctx.call("set_root", obs.set_root, op[1])
                root = op[1]
        else:
            if parents[op[1]] is not None or root == op[1]:
                ctx.raises("second parent", obs.set_parent, op[1], op[2])
                continue
            par = op[2]
            while par is not None and par != op[1]:
                par = parents[par]
            if par is not None:
                break  # loop
            ctx.call("set_parent", obs.set_parent, op[1], op[2])
            parents[op[1]] = op[2]
            ref = obs.get_component(op[1]).get_reference_point(in_global_frame=True)
            for kk in op[1:]:
                gam = obs.get_component(kk).get_gamma(ref, in_global_frame=True)
                ctx.require(gam <= 1 + 1e-6, "reference lies in both ellipses", lambda: f"{gam}")
        ctx.require(obs.root_idx == root, "root", lambda: f"{obs.root_idx} {root}")
        for ii in range(3):
            got = obs.get_parent_idx(ii)
            ok = got == parents[ii] if parents[ii] is not None else got in (None, -1)
            ctx.require(ok, "parent", lambda: f"{ii}: {got} {parents}")
    ctx.visit(root, tuple(parents))
    ctx.outcome(root, tuple(parents))
    for pos in _grid(2):
        exp = min(obs.get_component(ii).get_gamma(pos, in_global_frame=True) for ii in range(3))
        gam = ctx.call("get_gamma", obs.get_gamma, pos, in_global_frame=True)
        ctx.close(gam, exp, "gamma is the minimum over components", 1e-9)
        inside = ctx.call("is_inside", obs.is_inside, pos)
        ctx.require(bool(inside) == (exp <= 1), "inside iff gamma <= 1", "")


# ---------------------------------------------------------------- tangents / rays of ellipses
def ray_cases(tier):
    n = 12 if tier == "quick" else 24
    return [{"axes": aa, "pose": pp, "start": ss, "n": n} for aa in ((2.0, 1.0), (1.0, 3.0))
            for pp in range(len(POSES2)) for ss in ((0.0, 0.0), (0.2, -0.3), (3.0, 0.5),
                                                     (-2.0, 2.5), (0.0, -4.0))]


def ray_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_ellipse_obstacle")
    from vartools.math import CircleIntersectionType
    ell = make_obstacle("E", case["axes"], POSES2[case["pose"]])
    outer = POSES2[case["pose"]]
    mat = lib.matrix_of(2, outer[1])
    start_l = np.array(case["start"])
    half = np.array(case["axes"]) / 2
    for dir_l in lib.circle(case["n"], 0.1):
        for glob in (True, False):
            for kind in (CircleIntersectionType.CLOSE, CircleIntersectionType.FAR):
                start = mat @ start_l + np.array(outer[0]) if glob else np.copy(start_l)
                direction = mat @ dir_l if glob else np.copy(dir_l)
                res = ctx.call("get_intersection_with_ellipse", mod.get_intersection_with_ellipse,
                               start, direction, ell, in_global_frame=glob,
                               intersection_type=kind)
                pp, dd = start_l / half, dir_l / half
                disc = (pp @ dd) ** 2 - (dd @ dd) * (pp @ pp - 1)
                if abs(disc) < 1e-9:
                    continue
                ctx.visit(case["pose"], case["axes"], case["start"], tuple(dir_l), glob, kind.name)
                if disc < 0:
                    ctx.require(res is None, "line which misses the ellipse", lambda: f"{res}")
                    continue
                sign = -1 if kind == CircleIntersectionType.CLOSE else 1
                tt = (-(pp @ dd) + sign * math.sqrt(disc)) / (dd @ dd)
                exp = start_l + tt * dir_l
                if glob:
                    exp = mat @ exp + np.array(outer[0])
                ctx.require(res is not None, "line which meets the ellipse", "")
                ctx.close(res, exp, "intersection of line and ellipse", 1e-7)


def tangent_cases(tier):
    return [{"dim": dd, "normal": ii} for dd in (2, 3)
            for ii in range(len(lib.lattice_directions(dd)))]


def tangent_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_ellipse_obstacle")
    dirs = lib.lattice_directions(case["dim"])
    normal = dirs[case["normal"]]
    for ref in dirs:
        if abs(ref @ normal) < 0.3:
            continue
        for vec in dirs:
            proj = vec - ref * (vec @ normal) / (ref @ normal)
            if np.linalg.norm(proj) < 1e-9:
                continue
            ctx.visit(case["dim"], case["normal"], tuple(ref), tuple(vec))
            got = ctx.call("get_normalized_tangent_component",
                           mod.MultiEllipseObstacle.get_normalized_tangent_component,
                           vec, normal, ref)
            ctx.close(got, lib.unit(proj), "tangent: projection along the reference", 1e-7)


# ---------------------------------------------------------------- rates
def rate_cases(tier):
    return [{"dim": dd, "ops": list(ops)} for dd in (2, 3) for ll in (1, 2, 3)
            for ops in itertools.product("zab", repeat=ll)]


def rate_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_obstacle")
    dim = case["dim"]
    multi = mod.MultiObstacle(lib.make_pose(*(POSES2 if dim == 2 else POSES3)[1]))
    ctx.close(ctx.call("linear_velocity", lambda: multi.linear_velocity), np.zeros(dim),
              "velocity of an obstacle at rest", 1e-12)
    vals = {"z": np.zeros(dim), "a": np.arange(dim) + 1.0, "b": -2.0 * np.ones(dim)}
    for op in case["ops"]:
        multi.linear_velocity = np.copy(vals[op])
        got = ctx.call("linear_velocity", lambda: multi.linear_velocity)
        ctx.close(got, vals[op], "velocity which was set", 1e-12)
        ctx.close(multi.twist.linear, vals[op], "twist follows the velocity", 1e-12)
        ctx.visit(dim, op)
    # uniform growth
    locs, axes = (LOCAL2, AXES2) if dim == 2 else (LOCAL3, AXES3)
    outer = (POSES2 if dim == 2 else POSES3)[1]
    mat = lib.matrix_of(dim, outer[1])
    multi.set_root(make_obstacle("C", axes[0], locs[0]))
    multi.add_component(make_obstacle("E", axes[1], locs[1]), parent_ind=0,
                        reference_position=np.zeros(dim))
    ctx.call("update_deformation", multi.update_deformation, 0.5)
    fac = 1.0
    for rate in (None, 0.2, -0.1):
        if rate is not None:
            multi.deformation_rate = rate
            ctx.call("update_deformation", multi.update_deformation, 0.5)
            fac *= 1 + 0.5 * rate
        for ii in range(2):
            comp = multi.get_component(ii)
            ctx.close(comp.axes_length, fac * np.array(axes[ii]), "axes grow", 1e-9)
            ctx.close(comp.pose.position, np.array(outer[0]) + mat @ (
                fac * np.array(locs[ii][0])), "components spread with the growth", 1e-9)


FAMILIES = [
    Family("component trees", tree_cases, tree_run),
    Family("automatic reference points", auto_cases, auto_run),
    Family("arches", arch_cases, arch_run),
    Family("ellipse hierarchies", ellipse_cases, ellipse_run),
    Family("rays and ellipses", ray_cases, ray_run),
    Family("tangent components", tangent_cases, tangent_run),
    Family("velocity and growth", rate_cases, rate_run),
]
