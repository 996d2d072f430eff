"""C13: earlier evaluations and changes leave no traces: histories of operations on live objects.

Each case is one complete history: it is executed on one object, which is then compared with
an object which is newly built in the final configuration.
"""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks import c10, c11
from mc.checks.c10 import scene_key

AVOID = "nonlinear_avoidance.multi_obstacle_avoider"
ROT = "nonlinear_avoidance.avoidance.rotational_avoider"
SING = "nonlinear_avoidance.nonlinear_rotation_avoider"
PROJ = "nonlinear_avoidance.dynamics.projected_rotation_dynamics"
SPOTS = {2: ((-3.1, 0.4), (0.3, 2.2), (1.9, -1.2), (-2.2, -2.0)),
         3: ((-2.6, 0.4, 0.3), (0.3, 2.0, 0.9), (1.8, -1.1, 0.2), (-1.9, -1.8, 0.7))}
POSES = {2: (((-1.0, 1.4), 0.0), ((-0.4, 0.9), 0.8), ((0.6, -1.7), 0.0), ((1.0, -1.1), -2.0),
             ((2.6, 2.4), 0.3)),
         3: (((-1.0, 1.4, 0.2), (0, 0, 0)), ((-0.4, 1.0, 0.1), (0.3, 0.2, 0.8)),
             ((0.6, -1.4, -0.3), (0, 0, 0)), ((1.0, -1.1, 0.4), (-0.5, 0.9, 0.1)),
             ((2.6, 2.4, 0.5), (0.3, 0.0, 0.0)))}
SPEEDS = {2: (None, ((0.4, -0.3), 0.5)), 3: (None, ((0.4, -0.3, 0.2), 0.0))}
# State: place of the first (0/1) and second (0/1) obstacle, motion, third one is there,
# number of deformations
START = (0, 0, 0, 0, 0)


def spoil(*arrays):
    """The caller goes on to use its arrays for something else."""
    for arr in arrays:
        if isinstance(arr, np.ndarray) and arr.flags.writeable:
            arr[...] = 97.0


def step(state, op):
    state = list(state)
    if op[0] == "move":
        if state[op[1]] == op[2]:
            return None
        state[op[1]] = op[2]
    elif op[0] == "twist":
        if state[2] == op[1]:
            return None
        state[2] = op[1]
    elif op[0] == "append":
        if state[3]:
            return None
        state[3] = 1
    elif op[0] == "deform":
        state[4] += 1
    return tuple(state)


class World:
    """One kind of object: how it is built in a configuration, and changed."""

    deforms = False
    methods = ("evaluate",)

    def __init__(self, ctx, case):
        self.ctx, self.case, self.dim = ctx, case, case["dim"]
        self.dyn, self.ref = c11.dynamics(case["dyn"], self.dim)

    def probe(self, spoiled=False):
        out = []
        for method in self.methods:
            for spot in SPOTS[self.dim]:
                out.append(self.evaluate(method, spot, spoiled))
        return out

    def evaluate(self, method, spot, spoiled):
        pos = np.array(spot)
        vel = self.ctx.call(method, getattr(self.subject, method), pos)
        self.ctx.close(pos, spot, "the position is left as it is", 0)
        self.ctx.finite(vel, "velocity")
        out = np.copy(vel)
        if spoiled:
            spoil(pos, vel)
        return out


class Trees(World):
    deforms = True
    methods = ("evaluate_sequence", "evaluate")

    def tree(self, which, state):
        from vartools.states import Pose, Twist
        from nonlinear_avoidance.multi_obstacle import MultiObstacle
        dim = self.dim
        index = (0, 2, 4)[which] + (state[which] if which < 2 else 0)
        tree = MultiObstacle(self.pose(index))
        shapes = {2: (((0, 0), (2.0, 1.2)), ((0.5, 0.5), (2.0, 0.6)), ((0, 0), (1.4, 1.3))),
                  3: (((0, 0, 0), (2.0, 1.2, 1.0)), ((0.5, 0.5, 0.1), (2.0, 0.6, 0.8)),
                      ((0, 0, 0), (1.4, 1.3, 1.2)))}[dim]
        if which == 0:
            tree.set_root(c11.ell(*shapes[0]))
            tree.add_component(c11.ell(*shapes[1], 1.1 if dim == 2 else (0.2, 0.1, 0.9)),
                               parent_ind=0,
                               reference_position=np.array([-0.5, 0.0, 0.0][:dim]))
            tree.deformation_rate = 0.2
            for _ in range(state[4]):
                tree.update_deformation(0.5)
            self.set_twist(tree, state[2])
        else:
            tree.set_root(c11.ell(*shapes[2]))
        return tree

    def pose(self, index):
        from vartools.states import Pose
        pos, ori = POSES[self.dim][index]
        return Pose(np.array(pos), lib.make_orientation(self.dim, ori))

    def set_twist(self, tree, which):
        from vartools.states import Twist
        speed = SPEEDS[self.dim][which]
        if speed is None:
            tree.twist = None
        else:
            tree.twist = Twist(np.array(speed[0]), speed[1] if self.dim == 2 else np.zeros(3))

    def build(self, state):
        self.trees = [self.tree(0, state), self.tree(1, state)]
        if state[3]:
            self.trees.append(self.tree(2, state))
        self.subject = c11.make(self.ctx, self.ctx.load(AVOID), self.trees, self.dyn, self.ref)

    def apply(self, op):
        if op[0] == "move":
            pose = self.pose(2 * op[1] + op[2])
            self.ctx.call("update_pose", self.trees[op[1]].update_pose, pose)
        elif op[0] == "twist":
            self.set_twist(self.trees[0], op[1])
        elif op[0] == "append":
            self.trees.append(self.tree(2, START))
            self.subject.obstacle_container.append(self.trees[-1])
        elif op[0] == "deform":
            self.ctx.call("update_deformation", self.trees[0].update_deformation, 0.5)


class Single(World):
    """Obstacles which are avoided one by one."""

    def obstacle(self, which, state):
        from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse
        dim = self.dim
        pos, ori = POSES[dim][(0, 2, 4)[which] + (state[which] if which < 2 else 0)]
        axes = ([1.1, 1.9, 0.9], [1.3, 0.8, 1.2], [0.9, 0.9, 0.9])[which][:dim]
        obs = (Ellipse, CuboidXd, Ellipse)[which](
            center_position=np.array(pos), orientation=lib.make_orientation(dim, ori),
            axes_length=np.array(axes) * (0.5 if which != 1 else 1.0))
        if which == 0:
            self.set_twist(obs, state[2])
        return obs

    def set_twist(self, obs, which):
        speed = SPEEDS[self.dim][which]
        obs.linear_velocity = np.zeros(self.dim) if speed is None else np.array(speed[0])
        if self.dim == 2:
            obs.angular_velocity = 0.0 if speed is None else speed[1]

    def build(self, state):
        self.obstacles = [self.obstacle(0, state), self.obstacle(1, state)]
        if state[3]:
            self.obstacles.append(self.obstacle(2, state))
        self.container = c10.container(self.case.get("container", "plain"), self.obstacles)
        self.make()
        self.renew()

    def renew(self):
        """A container of local motions is told the motion again after a change."""
        if self.case.get("container") == "rotation":
            self.ctx.call("set_convergence_directions", self.container.set_convergence_directions,
                          self.dyn)

    def apply(self, op):
        if op[0] == "move":
            pos, ori = POSES[self.dim][2 * op[1] + op[2]]
            obs = self.obstacles[op[1]]
            obs.center_position = np.array(pos)
            obs.orientation = lib.make_orientation(self.dim, ori)
        elif op[0] == "twist":
            self.set_twist(self.obstacles[0], op[1])
        elif op[0] == "append":
            self.obstacles.append(self.obstacle(2, START))
            self.container.append(self.obstacles[-1])
        self.renew()


class Local(Single):
    methods = ("evaluate", "avoid")

    def make(self):
        mod = self.ctx.load(ROT)
        conv = None
        if self.case.get("container") != "rotation":
            conv = c10.dynamics("linear", self.dim)
        self.subject = self.ctx.call(
            "RotationalAvoider", mod.RotationalAvoider, initial_dynamics=self.dyn,
            obstacle_environment=self.container, convergence_system=conv)


class AtObstacle(Single):
    methods = ("evaluate", "evaluate_sequence")

    def make(self):
        mod = self.ctx.load(SING)
        conv = None
        if self.ref is not None:
            conv = mod.ConvergenceDynamicsWithoutSingularity(
                convergence_dynamics=self.ref, initial_dynamics=self.dyn)
        self.subject = self.ctx.call(
            "SingularityConvergenceDynamics", mod.SingularityConvergenceDynamics,
            initial_dynamics=self.dyn, obstacle_environment=self.container,
            obstacle_convergence=conv)


class Projected(Single):
    """One projection is shared by several obstacles."""

    methods = ("around0", "around1", "sequence0", "sequence1", "weight0", "weight1")

    def make(self):
        mod = self.ctx.load(PROJ)
        self.subject = self.ctx.call(
            "ProjectedRotationDynamics", mod.ProjectedRotationDynamics,
            attractor_position=self.dyn.attractor_position.copy(), initial_dynamics=self.dyn)

    def evaluate(self, method, spot, spoiled):
        obs = self.obstacles[int(method[-1])]
        pos = np.array(spot)
        if method.startswith("around"):
            vel = self.ctx.call("evaluate_convergence_around_obstacle",
                                self.subject.evaluate_convergence_around_obstacle, pos, obs)
        elif method.startswith("weight"):
            vel = np.array([self.ctx.call("evaluate_projected_weight",
                                          self.subject.evaluate_projected_weight, pos, obs)])
        else:
            from nonlinear_avoidance.dynamics.sequenced_dynamics import (
                evaluate_dynamics_sequence)
            init = self.ctx.call("evaluate_dynamics_sequence", evaluate_dynamics_sequence, pos,
                                 self.dyn)
            seq = self.ctx.call("evaluate_convergence_sequence_around_obstacle",
                                self.subject.evaluate_convergence_sequence_around_obstacle,
                                pos, obs, init)
            vel = np.copy(seq.get_end_vector())
        self.ctx.close(pos, spot, "the position is left as it is", 0)
        self.ctx.finite(vel, "convergence")
        out = np.copy(vel)
        if spoiled:
            spoil(pos, vel)
        return out


WORLDS = {"trees": Trees, "local": Local, "at obstacle": AtObstacle, "projected": Projected}


def alphabet(kind):
    ops = [("eval", 0), ("eval", 1), ("move", 0, 1), ("move", 1, 1), ("twist", 1), ("append",),
           ("move", 0, 0)]
    if kind == "trees":
        ops.append(("deform",))
    if kind == "projected":
        ops = [oo for oo in ops if oo[0] != "twist"]
    return ops


def histories(kind, depth):
    out = []
    for nn in range(1, depth + 1):
        for path in itertools.product(alphabet(kind), repeat=nn):
            state = START
            good = any(op[0] == "eval" for op in path) or nn == 1
            for ii, op in enumerate(path):
                state = step(state, op)
                if state is None or (ii and op == path[ii - 1] and op[0] == "eval"):
                    good = False
                    break
            if good:
                out.append([list(op) for op in path])
    return out


def cases(tier):
    out = []
    for kind in WORLDS:
        for dim in (2, 3):
            for dyn in ("limited", "turned", "weave"):
                if kind == "projected" and dyn == "weave":
                    continue
                conts = ("plain",)
                if kind == "local":
                    conts = ("plain",) if dyn == "weave" else ("plain", "rotation")
                for cont in conts:
                    depth = 2 if tier == "quick" and (dim == 3 or dyn == "limited") else 3
                    if tier != "quick":
                        depth = 4 if dim == 2 and dyn != "limited" else 3
                    out += [{"kind": kind, "dim": dim, "dyn": dyn, "container": cont,
                             "path": path, "tier": tier} for path in histories(kind, depth)]
    return sorted(out, key=lambda cc: len(cc["path"]))


def history_run(ctx, case):
    world = WORLDS[case["kind"]](ctx, case)
    world.build(START)
    state = START
    for op in case["path"]:
        op = tuple(op)
        state = step(state, op)
        ctx.visit(scene_key({kk: vv for kk, vv in case.items() if kk != "path"}), state, op)
        if op[0] == "eval":
            for method in world.methods:
                world.evaluate(method, SPOTS[case["dim"]][op[1]], True)
        else:
            world.apply(op)
    got = world.probe(True)
    again = world.probe()[::-1]
    fresh = WORLDS[case["kind"]](ctx, case)
    fresh.build(state)
    want = fresh.probe()
    for aa, bb in zip(got, again[::-1]):
        ctx.close(bb, aa, "repeated evaluations agree", 1e-9)
    for aa, bb in zip(got, want):
        ctx.close(aa, bb, "as if newly built in this configuration", 1e-8)
        ctx.outcome(*np.round(bb, 2))


# ------------------------------------------------------------------------------------- motions
PLACES = {2: ((0.0, 0.0), (1.0, -1.0), (2.3, 0.7), (-1.4, 2.2)),
          3: ((0.0, 0.0, 0.0), (1.0, -1.0, 0.5), (2.3, 0.7, -0.4), (-1.4, 2.2, 1.3))}


def wavy(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.wavy_attractor_dynamics")
    return mod.WavyLinearDynamics(np.array([1.0, -1.0]), maximum_velocity=0.8), ("evaluate",)


def local(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics")
    obs = c10.obstacle("E", dim, 1, 1)
    return mod.LocallyRotatedFromObtacle(
        obstacle=obs, attractor_position=np.array([1.0, -1.0, 0.5][:dim]),
        reference_velocity=np.array([1.0, 0.4, 0.3][:dim]), max_gamma=30.0), ("evaluate",)


def path(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.segmented_dynamics")
    corners = [np.array(pp) for pp in ((-2.0, 0.0), (0.0, 0.0), (1.0, -1.0), (3.0, 2.0))]
    return (mod.create_segment_from_points(corners, margin=0.2),
            ("evaluate", "get_weights", "evaluate_dynamics_sequence"))


def circle(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.circular_dynamics")
    ori = 0.7 if dim == 2 else (0.3, -0.4, 0.8)
    return mod.SimpleCircularDynamics(
        radius=1.2, maximum_velocity=0.7,
        pose=lib.make_pose(np.array([1.0, -1.0, 0.5][:dim]), ori)), ("evaluate",)


def turning(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.circular_dynamics")
    return mod.CircularRotationDynamics(
        radius=1.2, constant_velocity=0.9, outside_approaching_factor=4.0,
        inside_approaching_factor=3.0, direction=1,
        pose=lib.make_pose(np.array([1.0, -1.0]), 0.7)), ("evaluate",)


def drifting(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.circular_dynamics")
    main, _ = circle(ctx, dim)
    return (mod.DynamicDynamics(main, c10.Constant([0.3, 0.1, -0.2][:dim])),
            ("evaluate", "update_base"))


def helix(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.spiral_dynamics")
    return mod.SpiralingDynamics3D.create_from_direction(
        np.array([1.0, -1.0, 0.5]), np.array([0.3, 1.0, 0.4]), radius=0.8, speed=1.1), (
            "evaluate",)


def constant(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.constant_value")
    return (mod.ConstantValueWithSequence(np.array([1.0, -0.4, 0.2][:dim])),
            ("evaluate", "evaluate_dynamics_sequence"))


class Bowl:
    """A deviation which depends on the position."""

    def fit(self, inputs, outputs):
        self.size = outputs.shape[1]

    def predict(self, inputs):
        return np.array([[0.4 * math.sin(xx[0] + kk) for kk in range(self.size)]
                         for xx in inputs])


def flow(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.nonlinear_deviation")
    dyn = mod.DeviationOfConstantFlow(np.array([1.0, -0.4, 0.2][:dim]), Bowl())
    dyn.fit_from_velocities(np.array(PLACES[dim]), np.ones((4, dim)))
    return dyn, ("evaluate", "evaluate_without_lyapunov_check", "evaluate_convergence_velocity",
                 "get_lyapunov_gradient_direction", "evaluate_deviation")


def perpendicular(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.nonlinear_deviation")
    dyn = mod.PerpendicularDeviatoinOfLinearDS(np.array([1.0, -1.0, 0.5][:dim]), Bowl())
    dyn.fit_from_velocities(np.array(PLACES[dim]), np.ones((4, dim)))
    return dyn, ("evaluate", "evaluate_without_lyapunov_check", "evaluate_convergence_velocity",
                 "get_lyapunov_gradient_direction")


def around(ctx, dim):
    mod = ctx.load("nonlinear_avoidance.dynamics.deviation_dynamics")
    cont = c10.container("plain", [c10.obstacle("E", 2, 1, 1), c10.obstacle("S", 2, 2, 0)])
    return mod.ObstacleRotatedDynamics(cont, c10.Turned([1.0, -1.0], 0.8, maximum=1.0)), (
        "evaluate",)


MOTIONS = {"wavy": (wavy, (2,)), "local": (local, (2, 3)), "path": (path, (2,)),
           "circle": (circle, (2, 3)), "turning": (turning, (2,)),
           "drifting": (drifting, (2, 3)), "helix": (helix, (3,)), "constant": (constant, (2, 3)),
           "flow": (flow, (2, 3)), "perpendicular": (perpendicular, (2, 3)),
           "around": (around, (2,))}
N_METHODS = {"path": 3, "drifting": 2, "constant": 2, "flow": 5, "perpendicular": 4}


def motion_cases(tier):
    out = []
    for name, (_, dims) in MOTIONS.items():
        nops = 4 * N_METHODS.get(name, 1)
        depth = 2 if nops > 8 else 3
        for dim in dims:
            for nn in range(1, depth + (tier != "quick") + 1):
                out += [{"motion": name, "dim": dim, "path": list(pp), "tier": tier}
                        for pp in itertools.product(range(nops), repeat=nn)]
    return sorted(out, key=lambda cc: len(cc["path"]))


def motion_run(ctx, case):
    maker = MOTIONS[case["motion"]][0]
    dim = case["dim"]
    dyn, methods = ctx.call(case["motion"], maker, ctx, dim)
    moves = []

    def evaluate(one, op, spoiled):
        method, spot = methods[op % len(methods)], PLACES[dim][op // len(methods)]
        if case["motion"] == "around" and not np.any(spot):
            spot = (0.6, -0.3)  # no direction of the motion to turn at the attractor
        pos = np.array(spot)
        out = ctx.call(method, getattr(one, method), pos)
        ctx.close(pos, spot, "the position is left as it is", 0)
        vec = out
        if hasattr(out, "get_end_vector"):
            out = out.get_end_vector()
        keep = np.zeros(1) if out is None else np.array(out, dtype=float)
        if spoiled:
            spoil(pos, vec)
        return keep
    for op in case["path"]:
        ctx.visit(case["motion"], dim, op)
        evaluate(dyn, op, True)
        if methods[op % len(methods)] == "update_base":
            moves.append(op)
    other, _ = maker(ctx, dim)
    for op in moves:
        evaluate(other, op, False)
    for op in range(4 * len(methods)):
        if methods[op % len(methods)] == "update_base":
            continue
        got, want = evaluate(dyn, op, True), evaluate(other, op, False)
        ctx.finite(got, "velocity")
        ctx.close(got, want, "as if newly built", 1e-9)
        ctx.outcome(case["motion"], *np.round(want, 2))


# ----------------------------------------------------------------- obstacles added and removed
def container_cases(tier):
    out = []
    for nn in range(1, 4 if tier == "quick" else 5):
        for ops in itertools.product(("add", "remove0", "remove-1", "replace0", "replace-1",
                                      "renew"), repeat=nn):
            size, good = 0, True
            for op in ops:
                good &= size > 0 or op in ("add", "renew")
                size += (op == "add") - op.startswith("remove")
            if good:
                for dyn in ("limited", "turned", "constant"):
                    out.append({"ops": list(ops), "dyn": dyn, "dim": 2 + (dyn == "turned"),
                                "tier": tier})
    return sorted(out, key=lambda cc: len(cc["ops"]))


def container_run(ctx, case):
    """The motions towards which each obstacle converges belong to the obstacles in the list."""
    ctx.load("nonlinear_avoidance.rotation_container")
    dim = case["dim"]
    dyn, _ = c11.dynamics(case["dyn"], dim)
    if not hasattr(dyn, "attractor_position"):
        dyn.attractor_position = None
    cont = c10.container("rotation", [])
    model, known = [], []  # obstacles, and whether their motions have been set
    new = iter([(kind, idx, ori) for ori in range(3) for kind, idx in (("E", 0), ("B", 1), ("S", 2))])
    for op in case["ops"]:
        ind = -1 if op.endswith("-1") else 0
        if op == "add":
            model.append(next(new))
            known.append(False)
            ctx.call("append", cont.append, c10.obstacle(model[-1][0], dim, *model[-1][1:]))
        elif op.startswith("remove"):
            del model[ind], known[ind]
            ctx.call("del", cont.__delitem__, ind)
        elif op.startswith("replace"):
            model[ind] = next(new)
            known[ind] = False
            ctx.call("set", cont.__setitem__, ind, c10.obstacle(model[ind][0], dim,
                                                                *model[ind][1:]))
        else:
            ctx.call("set_convergence_directions", cont.set_convergence_directions, dyn)
            known = [True] * len(model)
        for ii, has in enumerate(known):
            try:
                got = cont.get_convergence_direction(np.array(SPOTS[dim][0]), ii)
            except (AttributeError, TypeError, ValueError, LookupError):
                got = None
            ctx.require(has == (got is not None), "motion of a new obstacle" if got is not None
                        else "motion of the obstacle is kept", f"obstacle {ii} after {op}: {got}")
        ctx.visit(case["dyn"], tuple(model), op)
        ctx.require(len(cont) == len(model), "number of obstacles", f"{len(cont)}")
    ctx.call("set_convergence_directions", cont.set_convergence_directions, dyn)
    fresh = c10.container("rotation", [c10.obstacle(kind, dim, *rest) for kind, *rest in model])
    fresh.set_convergence_directions(dyn)
    for ii in range(len(model)):
        ctx.close(cont[ii].center_position, fresh[ii].center_position, "obstacle in place", 0)
        for spot in SPOTS[dim]:
            got = ctx.call("get_convergence_direction", cont.get_convergence_direction,
                           np.array(spot), ii)
            ctx.close(got, fresh.get_convergence_direction(np.array(spot), ii),
                      "convergence of the obstacle in place", 1e-9)
            ctx.outcome(*np.round(got, 2))


FAMILIES = [Family("histories", cases, history_run),
            Family("motions", motion_cases, motion_run),
            Family("list of obstacles", container_cases, container_run)]
