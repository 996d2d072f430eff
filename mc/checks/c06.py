"""C06: obstacle containers."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family


class RotatedLinear:
    """Initial dynamics: towards the attractor, turned by a constant angle."""

    def __init__(self, attractor, angle, speed=1.0):
        self.attractor_position = np.array(attractor, dtype=float)
        self.angle = angle
        self.speed = speed

    def evaluate(self, position):
        return self.speed * lib.rot2(self.angle) @ (self.attractor_position - position)


def ellipse(pos, axes=(1.0, 0.6), angle=0.3, boundary=False):
    from dynamic_obstacle_avoidance.obstacles import Ellipse
    return Ellipse(center_position=np.array(pos, dtype=float), axes_length=np.array(axes),
                   orientation=angle, is_boundary=boundary)


POS = [(3.0, 0.0), (0.0, 2.0), (-2.0, -1.0), (0.0, 0.0), (1.0, 4.0)]


# ------------------------------------------------------------------- RotationContainer histories
def rotation_cases(tier):
    depth = 4 if tier == "quick" else 5
    ops = [["append"], ["del", 0], ["del", 1], ["del", -1], ["replace", 0], ["replace", 1],
           ["directions", 0], ["directions", 1], ["common"]]
    return [{"ops": [ops[ii] for ii in hist]} for dd in range(1, depth + 1)
            for hist in itertools.product(range(len(ops)), repeat=dd)]


def rotation_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.rotation_container")
    from vartools.dynamical_systems import LinearSystem
    cont = ctx.call("RotationContainer", mod.RotationContainer)
    other = mod.RotationContainer()
    model = []  # obstacle, dynamics (None, attractor, angle)
    counter = 0
    attractor = np.array([0.5, -1.0])
    for op in case["ops"]:
        new = ellipse(POS[counter % len(POS)])
        counter += 1
        if op[0] == "append":
            ctx.call("append", cont.append, new)
            model.append([new, None])
        elif op[0] == "del":
            if not -len(model) <= op[1] < len(model):
                continue
            ctx.call("delete", cont.__delitem__, op[1])
            del model[op[1]]
        elif op[0] == "replace":
            if op[1] >= len(model):
                continue
            ctx.call("replace", cont.__setitem__, op[1], new)
            model[op[1]] = [new, None]
        elif op[0] == "directions":
            angle = (0.4, -1.0)[op[1]]
            ctx.call("set_convergence_directions", cont.set_convergence_directions,
                     RotatedLinear(attractor, angle))
            for row in model:
                row[1] = angle
        elif op[0] == "common":
            ctx.call("set_convergence_directions", cont.set_convergence_directions,
                     converging_dynamics=LinearSystem(attractor_position=attractor))
            for row in model:
                row[1] = 0.0
    ctx.visit(tuple((POS.index(tuple(rr[0].center_position)), rr[1]) for rr in model))
    ctx.require(len(cont) == len(model) and cont.n_obstacles == len(model), "number of obstacles")
    ctx.require(all(aa is bb[0] for aa, bb in zip(cont, model)), "obstacles in order")
    for ii, (obs, angle) in enumerate(model):
        ctx.require(cont[ii] is obs, "indexed obstacle")
        if angle is None:
            continue
        got = ctx.call("get_convergence_direction", cont.get_convergence_direction,
                       obs.center_position, ii)
        exp = lib.rot2(angle) @ (attractor - obs.center_position)
        ctx.require(lib.angle_between(got, exp) < 1e-5,
                    "convergence direction belongs to its obstacle", lambda: f"{got} {exp}")
        ctx.close(ctx.call("get_intersection_position", cont.get_intersection_position, ii),
                  attractor, "convergence attractor", 1e-9)
    ctx.require(len(other) == 0, "containers do not share obstacles")


# ------------------------------------------------------------------- convergence radii
RADII = (math.pi / 2, 1.9, 0.9 * math.pi)
CLOSE = [(1.5, 0.2), (-0.3, 1.4), (-1.2, -0.9), (0.9, -1.5), (1.4, 1.7)]


def radius_cases(tier):
    depth = 4 if tier == "quick" else 5
    ops = [["append", None], ["append", 0], ["append", 1], ["append", 2], ["del", 0], ["del", 1],
           ["del", -1], ["replace", 0], ["replace", 1], ["all"]]
    return [{"ops": [ops[ii] for ii in hist]} for dd in range(1, depth + 1)
            for hist in itertools.product(range(len(ops)), repeat=dd)
            if hist[0] < 4 and (dd < 4 or hist[1] < 4)]


def radius_run(ctx, case):
    """Radii follow their obstacles: same motion as with the radii given all at once."""
    mod = ctx.load("nonlinear_avoidance.rotation_container")
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from vartools.dynamical_systems import LinearSystem
    goal = np.array([3.0, 0.4])
    cont, model = mod.RotationContainer(), []
    counter = 0
    for op in case["ops"]:
        new = ellipse(CLOSE[counter % len(CLOSE)], angle=0.3 * counter)
        counter += 1
        if op[0] == "append":
            if op[1] is None:
                ctx.call("append", cont.append, new)
            else:
                ctx.call("append", cont.append, new, convergence_radius=RADII[op[1]])
            model.append([new, None if op[1] is None else RADII[op[1]]])
        elif op[0] == "del":
            if not -len(model) <= op[1] < len(model):
                continue
            ctx.call("delete", cont.__delitem__, op[1])
            del model[op[1]]
        elif op[0] == "replace":
            if op[1] >= len(model):
                continue
            ctx.call("replace", cont.__setitem__, op[1], new)
            model[op[1]] = [new, None]
        elif op[0] == "all":
            cont.convergence_radiuses = [RADII[ii % 3] for ii in range(len(model))]
            for ii, row in enumerate(model):
                row[1] = RADII[ii % 3]
    ctx.visit(tuple((tuple(rr[0].center_position), rr[1]) for rr in model))
    common = 2.3
    fresh = mod.RotationContainer()
    for obs, _ in model:
        fresh.append(obs)
    fresh.convergence_radiuses = [common if rr is None else rr for _, rr in model]
    for one in (cont, fresh):
        one.set_convergence_directions(converging_dynamics=LinearSystem(attractor_position=goal))
    avoider = RotationalAvoider(convergence_radius=common)
    for pos in ((0.1, 0.1), (-2.6, 0.3), (0.2, -0.4)):
        pos = np.array(pos)
        if any(obs.get_gamma(pos, in_global_frame=True) <= 1.01 for obs, _ in model):
            continue
        got, exp = (ctx.call("avoid", avoider.avoid, position=pos, initial_velocity=goal - pos,
                             obstacle_list=one) for one in (cont, fresh))
        ctx.close(got, exp, "each obstacle keeps its own convergence radius", 1e-9)
        ctx.outcome(*np.round(got, 3))


# ------------------------------------------------------------------- convergence directions
def direction_cases(tier):
    out = []
    shifts = [(0.0, 0.0), (2.0, -1.0), (-3.0, 0.0), (0.0, 4.0)]
    angles = [kk * math.pi / 8 for kk in range(-7, 8)]
    rel = [(0.0, 0.0)] + list(itertools.product((-3.0, 0.0, 2.0), repeat=2))[:]
    if tier == "thorough":
        rel = [(0.0, 0.0)] + list(itertools.product((-4.0, -2.0, 0.0, 1.0, 3.0), repeat=2))
    for shift, angle in itertools.product(shifts, angles):
        out.append({"shift": shift, "angle": angle, "rel": rel})
    return out


def direction_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.rotation_container")
    attractor = np.array(case["shift"])
    dyn = RotatedLinear(attractor, case["angle"])
    cont = mod.RotationContainer()
    for rel in case["rel"]:
        cont.append(ellipse(attractor + np.array(rel)))
    ctx.call("set_convergence_directions", cont.set_convergence_directions, dyn)
    for ii, rel in enumerate(case["rel"]):
        center = attractor + np.array(rel)
        ctx.visit(tuple(case["shift"]), case["angle"], tuple(rel))
        if np.linalg.norm(rel) > 1e-9:
            got = ctx.call("get_convergence_direction", cont.get_convergence_direction, center, ii)
            exp = dyn.evaluate(center)
            ctx.require(lib.angle_between(got, exp) < 1e-5,
                        "at its center, the convergence direction is the initial direction",
                        lambda: f"{got} {exp} at {center}")
        got = ctx.call("get_convergence_direction", cont.get_convergence_direction,
                       np.copy(attractor), ii)
        ctx.close(got, np.zeros(2), "convergence dynamics rest at the attractor", 1e-6)
        for pos in ((5.0, 5.0), (-1.0, 2.0)):
            vec = ctx.call("get_convergence_direction", cont.get_convergence_direction,
                           attractor + np.array(pos), ii)
            ctx.finite(vec, "convergence direction")
            ctx.outcome(case["angle"], tuple(rel), *np.round(vec, 4))


def resting_cases(tier):
    return [{"rest": rest, "goal": goal} for rest in POS for goal in POS]


class Resting(RotatedLinear):
    """Straight to the attractor, but at rest around some point."""

    def __init__(self, attractor, rest):
        super().__init__(attractor, 0.0)
        self.rest = np.array(rest, dtype=float)

    def evaluate(self, position):
        if np.linalg.norm(position - self.rest) < 0.1:
            return np.zeros(2)
        return super().evaluate(position)


def resting_run(ctx, case):
    """Obstacles whose center the initial motion does not leave: the attractor still counts."""
    mod = ctx.load("nonlinear_avoidance.rotation_container")
    cont = mod.RotationContainer()
    for pos in POS:
        cont.append(ellipse(pos))
    goal = np.array(case["goal"])
    ctx.call("set_convergence_directions", cont.set_convergence_directions,
             Resting(goal, case["rest"]))
    ctx.visit(case["rest"], case["goal"])
    for ii, point in itertools.product(range(len(POS)), ((5.0, 5.0), (-1.0, 2.5), (0.3, -3.0))):
        got = ctx.finite(ctx.call("get_convergence_direction", cont.get_convergence_direction,
                                  np.array(point), ii), "convergence direction")
        ctx.require(lib.angle_between(got, goal - point) < 1e-5, "towards the attractor",
                    lambda: f"{ii} {point} {got}")
    ctx.outcome(case["goal"])


# ------------------------------------------------------------------- boundary graph histories
def boundary_cases(tier):
    depth = 4 if tier == "quick" else 5
    ops = [["append", None], ["append", -1], ["append", 0], ["append", 1], ["extend", 0, 1], ["extend", 1, 0], ["extend", 2, 0],
           ["extend", 2, 1], ["del", 0], ["del", 1], ["del", -1]]
    out = []
    for dd in range(1, depth + 1):
        for hist in itertools.product(range(len(ops)), repeat=dd):
            out.append({"ops": [ops[ii] for ii in hist]})
    return out


WALLS = [((0, 0), (5, 2), -0.8), ((-4, 0.5), (5, 2), 0.8), ((-6, 3), (3, 3), 0.0),
         ((1, 1), (4, 2.5), 1.2), ((-2, -1), (5, 2), 0.1)]


def boundary_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multiboundary_container")
    cont = ctx.call("MultiBoundaryContainer", mod.MultiBoundaryContainer)
    obs, parent = [], []
    counter = 0
    for op in case["ops"]:
        if op[0] == "append":
            new = ellipse(*WALLS[counter % len(WALLS)], boundary=True)
            counter += 1
            if op[1] is not None and (op[1] >= len(obs) or not obs):
                continue
            ctx.call("append", cont.append, new, parent=op[1])
            obs.append(new)
            parent.append({None: -1, -1: len(obs) - 2}.get(op[1], op[1]))
        elif op[0] == "extend":
            if max(op[1:]) >= len(obs):
                continue
            ctx.call("extend_graph", cont.extend_graph, child=op[1], parent=op[2])
            parent[op[1]] = op[2]
        elif op[0] == "del":
            if not -len(obs) <= op[1] < len(obs):
                continue
            key = op[1] % len(obs)
            ctx.call("delete", cont.__delitem__, op[1])
            del obs[key]
            parent = [-1 if pp == key else pp - (pp > key)
                      for ii, pp in enumerate(parent) if ii != key]
    n = len(obs)
    ctx.visit(tuple(parent), tuple(tuple(oo.center_position) for oo in obs))
    ctx.require(len(cont) == n and all(aa is bb for aa, bb in zip(cont, obs)), "obstacles in order")
    for ii in range(n):
        ctx.require(ctx.call("get_parent", cont.get_parent, ii) == parent[ii], "parent",
                    lambda: f"{ii}: {cont.get_parent(ii)} {parent}")
        kids = sorted(jj for jj in range(n) if parent[jj] == ii)
        got = sorted(ctx.call("get_children", cont.get_children, ii))
        ctx.require(got == kids, "children", lambda: f"{got} {kids}")
    roots = [ii for ii in range(n) if parent[ii] < 0]
    if n and roots:
        ctx.require(list(ctx.call("get_root", cont.get_root, return_multi_values=True)) == roots,
                    "root elements")
        ctx.require(ctx.call("get_root", cont.get_root) == roots[0], "first root element")
    if n and not _cyclic(parent):
        levels = [_depth(parent, ii) for ii in range(n)]
        got = list(ctx.call("get_level_numbers", cont.get_level_numbers))
        ctx.require(got == levels, "levels", lambda: f"{got} {levels}")
    ctx.require([oo for oo in ctx.call("get_boundary_list", cont.get_boundary_list)] == obs,
                "boundary list")
    ctx.require(all(ctx.call("get_boundary_ind", cont.get_boundary_ind)) or not n, "boundaries")


def _cyclic(parent):
    for ii in range(len(parent)):
        seen, cur = set(), ii
        while cur >= 0:
            if cur in seen:
                return True
            seen.add(cur)
            cur = parent[cur]
    return False


def _depth(parent, ii):
    depth = 0
    while parent[ii] >= 0:
        ii = parent[ii]
        depth += 1
    return depth


# ------------------------------------------------------------------- intersections of boundaries
def intersect_cases(tier):
    shapes = [((5, 2), 0.0), ((5, 2), 0.9), ((2, 4), -0.4), ((3, 3), 0.0)]
    rel = [(1, 0), (3, 1), (-2, 2), (0, -3), (-1.5, -1)]
    base = [(0, 0), (7, -2), (-4, 5)]
    out = []
    for aa, bb, rr, ss in itertools.product(range(4), range(4), range(5), range(3)):
        out.append({"one": shapes[aa], "two": shapes[bb], "rel": rel[rr], "base": base[ss]})
    return out


def intersect_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multiboundary_container")
    base = np.array(case["base"], dtype=float)
    one = ellipse(base, *case["one"], boundary=True)
    two = ellipse(base + np.array(case["rel"]), *case["two"], boundary=True)
    cont = mod.MultiBoundaryContainer()
    cont.append(one)
    cont.append(two, parent=-1)
    ctx.call("update_intersection_graph", cont.update_intersection_graph,
             attractor_position=base)
    ctx.visit(str(case))
    ctx.require(cont.get_parent_intersection(0) is None, "root has no parent intersection")
    point = ctx.call("get_parent_intersection", cont.get_parent_intersection, 1)
    ctx.finite(point, "intersection")
    for obs in (one, two):
        gam = obs.get_gamma(point, in_global_frame=True)
        ctx.require(gam > 1 - 1e-3, "intersection with the parent is inside both",
                    lambda: f"{point} {gam}")
    for flag, obs in ((True, two), (False, one)):
        surf = ctx.call("get_convergence_boundary_point", cont.get_convergence_boundary_point,
                        it_child=1, project_on_child=flag, it_parent=0)
        if np.linalg.norm(point - obs.center_position) < 1e-6:
            continue
        ctx.close(obs.get_gamma(surf, in_global_frame=True), 1.0, "projected on the surface", 1e-3)
        ctx.require(lib.angle_between(surf - obs.center_position, point - obs.center_position)
                    < 1e-4, "projected in direction of the intersection")
    for loc in itertools.product((-5.0, -2.0, 0.1, 2.3, 4.9), repeat=2):
        pos = base + np.array(loc)
        free = one.get_gamma(pos, in_global_frame=True) > 1 or \
            two.get_gamma(pos, in_global_frame=True) > 1
        got = ctx.call("is_collision_free", cont.is_collision_free, pos)
        ctx.require(bool(got) == free, "free iff inside of any boundary", lambda: f"{pos}")
        ctx.outcome(tuple(loc), free)


# ------------------------------------------------------------------- several obstacle trees
def multi_cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for size in range(1, 4):
        for idx in itertools.product(range(n), repeat=size):
            out.append({"trees": list(idx)})
            # An obstacle may be listed twice
            out += [{"trees": list(idx) + [-1 - again]} for again in range(size) if size < 3]
    return out


def multi_run(ctx, case):
    mod = ctx.load("nonlinear_avoidance.multi_obstacle_container")
    mm = ctx.load("nonlinear_avoidance.multi_obstacle")
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes, CuboidXd
    cont = ctx.call("MultiObstacleContainer", mod.MultiObstacleContainer)
    ctx.require(bool(cont.is_collision_free(np.zeros(2))), "empty container is free")
    trees = []
    for kk, ii in enumerate(case["trees"]):
        if ii < 0:
            trees.append(trees[-1 - ii])
            ctx.call("append", cont.append, trees[-1])
            continue
        tree = mm.MultiObstacle(lib.make_pose(POS[ii], 0.5 * kk))
        tree.set_root(CuboidXd(center_position=np.zeros(2), axes_length=np.array([1.0, 2.0]),
                               orientation=0.0))
        if ii % 2:
            tree.add_component(
                EllipseWithAxes(center_position=np.array([0.8, 0.0]),
                                axes_length=np.array([2.0, 1.0]), orientation=0.2),
                reference_position=np.array([-0.5, 0.0]), parent_ind=0)
        trees.append(tree)
        ctx.call("append", cont.append, tree)
    ctx.visit(tuple(case["trees"]))
    ctx.require(len(cont) == len(trees) and all(aa is bb for aa, bb in zip(cont, trees)),
                "trees in order")
    for ii, tree in enumerate(trees):
        ctx.require(cont.get_tree(ii) is tree and cont.get_obstacle_tree(ii) is tree, "indexed tree")
    for pos in itertools.product((-4.0, -2.3, -1.1, 0.2, 1.4, 3.0, 4.5), repeat=2):
        pos = np.array(pos)
        gammas = [tt.get_gamma(pos, in_global_frame=True) for tt in trees]
        ctx.visit(tuple(case["trees"]), tuple(pos))
        ctx.close(ctx.call("get_gamma", cont.get_gamma, pos), min(gammas),
                  "gamma is the one of the closest tree", 1e-9)
        free = all(gg > 1 for gg in gammas)
        ctx.require(bool(ctx.call("is_collision_free", cont.is_collision_free, pos)) == free,
                    "free iff outside of all trees")
        ctx.require(bool(ctx.call("is_in_free_space", cont.is_in_free_space, pos)) == free,
                    "in free space iff outside of all trees")
        ctx.outcome(round(min(gammas), 6))
    ctx.require(len(mod.MultiObstacleContainer()) == 0, "containers do not share trees")


FAMILIES = [
    Family("rotation container histories", rotation_cases, rotation_run),
    Family("convergence radii", radius_cases, radius_run),
    Family("convergence directions", direction_cases, direction_run),
    Family("motions at rest in obstacles", resting_cases, resting_run),
    Family("boundary graph histories", boundary_cases, boundary_run),
    Family("boundary intersections", intersect_cases, intersect_run),
    Family("obstacle tree containers", multi_cases, multi_run),
]
