"""C25: articulated bodies stay joined at their joints."""
import itertools
import math
import types

import numpy as np
from scipy.spatial.transform import Rotation

from mc import lib
from mc.core import Family
from mc.checks import c11
from mc.checks.c10 import scene_key

BODY = "nonlinear_avoidance.multi_body_human"

NAMES = ["trunk", "arm", "hand", "head", "finger"]
SHAPES = ["box", "ellipse", "box", "ellipse", "ellipse"]
AXES = [(0.5, 0.3, 0.8), (0.3, 0.2, 0.6), (0.2, 0.2, 0.3), (0.2, 0.3, 0.4), (0.1, 0.1, 0.2)]
# Joint in the frame of the component / in the frame of the one it hangs on
OWN = [None, (-0.1, 0.05, -0.2), (0.05, 0.0, -0.1), (0.0, 0.1, -0.15), (0.02, -0.03, -0.05)]
OTHER = [None, (0.2, 0.1, 0.3), (-0.1, 0.05, 0.2), (0.05, -0.1, 0.25), (0.08, 0.06, -0.1)]
TURNS = {2: [0.0, 0.8, -2.1],
         3: [(0.0, 0.0, 0.0), (0.4, -0.7, 1.1), (0.0, 2.0, -0.9)]}


def parents(count):
    """All hierarchies of the given number of components, each after the one it hangs on."""
    return [list(pp) for pp in itertools.product(*[range(kk) for kk in range(1, count)])]


def component(dim, idx, ori=None, scale=1.0):
    from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes
    cls = CuboidXd if SHAPES[idx] == "box" else EllipseWithAxes
    kwargs = {} if ori is None else {"orientation": lib.make_orientation(dim, ori)}
    return cls(center_position=np.array([0.3, -0.2, 0.1][:dim]) * idx,
               axes_length=scale * np.array(AXES[idx][:dim]), distance_scaling=1.0, **kwargs)


def ends(dim, table, idx, straight=False):
    if straight:
        return np.array([0.0, 0.0, table[idx][2]])
    return np.array(table[idx][:dim])


def body(ctx, dim, tree, turns=None, tracked=None, straight=False, **kwargs):
    """`tree`: index of the component each one (but the first) hangs on."""
    mod = ctx.load(BODY)
    human = mod.MultiBodyObstacle(**kwargs)
    human.dimension = dim
    count = len(tree) + 1
    turns = turns or [None] * count
    tracked = tracked or [None] * count
    ctx.call("set_root", human.set_root, component(dim, 0, turns[0]), name=NAMES[0],
             update_id=tracked[0])
    for kk in range(1, count):
        # The caller goes on using its vectors
        own, other = ends(dim, OWN, kk, straight), ends(dim, OTHER, kk, straight)
        ctx.call("add_component", human.add_component, component(dim, kk, turns[kk]),
                 name=NAMES[kk], reference_position=own, parent_name=NAMES[tree[kk - 1]],
                 update_id=tracked[kk], parent_reference_position=other)
        own += 5.0
        other -= 3.0
    return human



def joint(obstacle, local):
    return lib.pose_matrix(obstacle.pose) @ local + np.array(obstacle.pose.position)


def joined(ctx, human, dim, tree, straight=False):
    for kk in range(1, len(tree) + 1):
        ctx.close(joint(human[kk], ends(dim, OWN, kk, straight)),
                  joint(human[tree[kk - 1]], ends(dim, OTHER, kk, straight)),
                  "the joint on both of its sides", atol=1e-9)


def poses(human):
    return [(np.array(human[kk].pose.position), lib.pose_matrix(human[kk].pose))
            for kk in range(human.n_components)]


def same(ctx, human, expected, label, only=None):
    for kk, (position, rot) in enumerate(expected):
        if only is not None and kk not in only:
            continue
        ctx.close(human[kk].pose.position, position, f"position {label}", atol=1e-9)
        ctx.close(lib.pose_matrix(human[kk].pose), rot, f"orientation {label}", atol=1e-9)


def nearest(human, dim, position):
    """Smallest of the distance measures of the components, each at its actual pose."""
    return min(human[kk].get_gamma(position, in_global_frame=True)
               for kk in range(human.n_components))


POINTS = [(0.3, 0.1, 0.2), (-0.4, 0.6, 0.5), (0.1, -0.9, -0.3), (1.2, 0.4, 0.9), (0.0, 0.0, 0.0)]


def distances(ctx, human, dim, label):
    for pp in POINTS:
        position = np.array(pp[:dim])
        value = ctx.call("get_gamma", human.get_gamma, position, in_global_frame=True)
        ctx.close(value, nearest(human, dim, position), label, atol=1e-9)


# --- Histories of changes
def changes(dim, count):
    ops = [("move",), ("turn", 0)]
    for kk in range(1, count):
        ops += [("turn", kk), ("align", kk)]
    ops += [("replace", count - 1), ("update",)]
    return ops


def history_cases(tier):
    for dim in (2, 3):
        for count in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
            for tree in parents(count):
                depth = {1: 2, 2: 3, 3: 2, 4: 2, 5: 2}[count] + (tier == "thorough")
                for turn in range(3 if count < 4 or tier == "thorough" else 1):
                    for ops in itertools.product(changes(dim, count), repeat=min(depth, 3)):
                        if ops[0] == ("update",):
                            continue
                        yield {"dim": dim, "tree": tree, "turn": turn, "ops": [list(oo) for oo in ops]}


def history_run(ctx, case):
    dim, tree = case["dim"], case["tree"]
    count = len(tree) + 1
    turns = [TURNS[dim][(kk + case["turn"]) % 3] if kk else None for kk in range(count)]
    published = []
    robot = types.SimpleNamespace(publish_robot_transform=lambda: published.append(1))
    human = body(ctx, dim, tree, turns, robot=robot if case["turn"] == 1 else None)
    ctx.require(human.n_components == count, "number of components", f"{human.n_components}")
    ctx.call("update", human.update)
    ctx.require(len(published) == (case["turn"] == 1), "published poses", f"{len(published)}")
    joined(ctx, human, dim, tree)
    for nn, op in enumerate(case["ops"]):
        before = poses(human)
        if op[0] == "move":
            human[0].pose.position = np.array([0.7, -1.1, 0.4][:dim]) * (nn + 1)
        elif op[0] == "turn":
            human[op[1]].orientation = lib.make_orientation(dim, TURNS[dim][1 + nn % 2])
        elif op[0] == "replace":
            other = component(dim, op[1], TURNS[dim][2 - nn % 2], scale=1.6 + nn)
            other.set_reference_point(ends(dim, OWN, op[1]) if op[1] else np.zeros(dim),
                                      in_global_frame=False)
            human[op[1]] = other
            ctx.close(human[op[1]].axes_length, other.axes_length, "axes of the new component", 1e-12)
        elif op[0] == "align":
            ctx.call("align_position_with_parent", human.align_position_with_parent, op[1])
            same(ctx, human, before, "of the other components",
                 only=[kk for kk in range(count) if kk != op[1]])
            ctx.close(lib.pose_matrix(human[op[1]].pose), before[op[1]][1],
                      "orientation of the aligned component", atol=1e-9)
            ctx.close(joint(human[op[1]], ends(dim, OWN, op[1])),
                      joint(human[tree[op[1] - 1]], ends(dim, OTHER, op[1])),
                      "the joint on both of its sides", atol=1e-9)
        else:
            ctx.call("update", human.update)
        ctx.visit(scene_key(case), nn)
    before = poses(human)
    ctx.call("update", human.update)
    # Independent forward chain: orientations are trusted, positions follow
    expected = [before[0]]
    for kk in range(1, count):
        position, rot = expected[tree[kk - 1]]
        own = before[kk][1]
        expected.append((position + rot @ ends(dim, OTHER, kk) - own @ ends(dim, OWN, kk), own))
    same(ctx, human, expected, "after the update")
    joined(ctx, human, dim, tree)
    for kk in range(1, count):
        ctx.close(human[kk].get_reference_point(in_global_frame=True),
                  joint(human[tree[kk - 1]], ends(dim, OTHER, kk)), "reference point", atol=1e-9)
    ctx.call("update", human.update)
    same(ctx, human, expected, "after a second update")
    distances(ctx, human, dim, "distance to the body")


# --- Lookups
def name_cases(tier):
    for dim in (2, 3):
        for count in (1, 2, 3, 4, 5):
            for tree in parents(count):
                yield {"dim": dim, "tree": tree}


def name_run(ctx, case):
    dim, tree = case["dim"], case["tree"]
    count = len(tree) + 1
    tracked = [None if kk == 1 else 30 + 7 * ((3 * kk) % 5) for kk in range(count)]
    human = body(ctx, dim, tree, tracked=tracked)
    ctx.require(human.root_id == 0 and human.get_root() is human[0], "root", "")
    ctx.require(human.n_components == count, "number of components", f"{human.n_components}")
    for kk in range(count):
        ctx.require(human.get_component(kk) is human[kk], "component", f"{kk}")
        ctx.require(human.get_name(kk) == NAMES[kk], "name", lambda: human.get_name(kk))
        found = ctx.call("get_obstacle_id_from_name", human.get_obstacle_id_from_name, NAMES[kk])
        ctx.require(found == kk, "component of a name", f"{found}")
        parent = ctx.call("get_parent_idx", human.get_parent_idx, kk)
        ctx.require(parent == ([None] + tree)[kk], "component it hangs on", f"{kk}: {parent}")
        ctx.require(human.get_update_id(kk) == tracked[kk], "tracking id", f"{kk}")
        if tracked[kk] is not None:
            found = ctx.call("get_obstacle_id_from_optitrackid",
                             human.get_obstacle_id_from_optitrackid, tracked[kk])
            ctx.require(found == kk, "component of a tracking id", f"{found}")
        ctx.visit(scene_key(case), kk)
    ctx.require(human.get_pose() is human[0].pose
                or np.allclose(human.get_pose().position, human[0].pose.position), "pose", "")


# --- Frames
def frame_cases(tier):
    for dim in (2, 3):
        for count in (2, 3, 4):
            for tree in parents(count):
                for turn in range(3):
                    for rot in (1, 2):
                        yield {"dim": dim, "tree": tree, "turn": turn, "rot": rot}


def frame_run(ctx, case):
    dim, tree = case["dim"], case["tree"]
    count = len(tree) + 1
    turns = [TURNS[dim][(kk + case["turn"]) % 3] for kk in range(count)]
    first = body(ctx, dim, tree, turns)
    ctx.call("update", first.update)
    rot = lib.matrix_of(dim, TURNS[dim][case["rot"]])
    shift = np.array([2.3, -1.7, 0.8][:dim])
    second = body(ctx, dim, tree, turns)
    second[0].pose.position = rot @ first[0].pose.position + shift
    for kk in range(count):
        if dim == 2:
            second[kk].orientation = turns[kk] + TURNS[dim][case["rot"]]
        else:
            second[kk].orientation = Rotation.from_matrix(rot) * lib.make_orientation(dim, turns[kk])
    ctx.call("update", second.update)
    same(ctx, second, [(rot @ pp + shift, rot @ mm) for pp, mm in poses(first)], "in another frame")
    for pp in POINTS:
        position = np.array(pp[:dim])
        ctx.close(second.get_gamma(rot @ position + shift, in_global_frame=True),
                  first.get_gamma(position, in_global_frame=True), "distance in another frame",
                  atol=1e-8)
        ctx.visit(scene_key(case), pp)


# --- Tracking
MEASURED = {"up": (0.1, 0.0, 1.3), "side": (0.9, 0.5, 0.5), "down": (0.2, -0.4, -0.9),
            "below": None, "above": None}
ROOTS = {"none": None, "upright": ((0.6, -0.4, 1.0), (0.0, 0.0, 0.9)),
         "tilted": ((-0.5, 0.3, 0.7), (0.2, -0.3, 0.5))}


def tracking_cases(tier):
    for count in (1, 2, 3, 4):
        for tree in parents(count):
            for followed in itertools.product((False, True), repeat=count - 1):
                for root in ROOTS:
                    for robot in ("none", "still", "seen"):
                        if count == 4 and tier != "thorough" and (robot == "still" or root == "tilted"):
                            continue
                        for where in itertools.product(MEASURED, repeat=sum(followed)):
                            yield {"tree": tree, "followed": followed, "root": root,
                                   "robot": robot, "where": where}


def tracking_run(ctx, case):
    from nonlinear_avoidance.rigid_body import RigidBody
    from vartools.states import ObjectPose
    tree = case["tree"]
    count = len(tree) + 1
    tracked = [11 if case["root"] != "none" else None]
    tracked += [20 + kk if ff else None for kk, ff in enumerate(case["followed"])]
    shown, published, messages = [], [], []
    robot = None
    base = (np.zeros(3), np.eye(3))
    if case["robot"] != "none":
        turn = Rotation.from_rotvec([0.0, 0.0, 0.7])
        base = (np.array([0.4, 0.2, -0.1]), turn.as_matrix())
        robot = types.SimpleNamespace(pose=ObjectPose(base[0], turn), optitrack_id=99,
                                      publish_robot_transform=lambda: published.append(1))
        if case["robot"] == "seen":
            base = (np.array([-0.3, 0.5, 0.2]), base[1])
    human = body(ctx, 3, tree, tracked=tracked, straight=True, robot=robot,
                 pose_updater=types.SimpleNamespace(get_messages=lambda: list(messages)),
                 visualization_handler=types.SimpleNamespace(update=lambda obs: shown.append(len(obs))))

    def message(idx, position, rot):
        """Frame of the robot -> frame of the measurements."""
        return RigidBody(idx, base[1] @ position + base[0], Rotation.from_matrix(base[1] @ rot))

    # Expected positions and vertical axes (all joints are on these axes), parents first
    twist = lib.matrix_of(3, TURNS[3][1])
    position, axis = np.array(human[0].pose.position), np.array([0, 0, 1.0])
    seen = []
    if case["root"] != "none":
        place, ori = ROOTS[case["root"]]
        seen.append(message(11, np.array(place), lib.matrix_of(3, ori)))
        # Persons stand on the ground, upright, whatever was measured
        position = np.array([place[0], place[1], 0.2])
    expected = [(position, axis)]
    where = list(case["where"])
    for kk in range(1, count):
        position, axis = expected[tree[kk - 1]]
        link = position + OTHER[kk][2] * axis
        if case["followed"][kk - 1]:
            place = where.pop(0)
            measured = (np.array(MEASURED[place]) if MEASURED[place] is not None else
                        link + np.array([0, 0, 0.7]) * (1 if place == "above" else -1))
            seen.append(message(20 + kk - 1, measured, twist))
            axis = lib.unit(measured - link)
        expected.append((link - OWN[kk][2] * axis, axis))
    for order in (1, -1, 0):
        if not order:
            # Given in the frame of the robot already
            messages[:] = [RigidBody(oo.obs_id, base[1].T @ (oo.position - base[0]),
                                     Rotation.from_matrix(base[1].T @ oo.rotation.as_matrix()))
                           for oo in seen]
            ctx.call("update_using_optitrack", human.update_using_optitrack,
                     transform_to_robot_frame=False)
            ctx.visit(scene_key(case), order)
            for kk, (position, axis) in enumerate(expected):
                ctx.close(human[kk].pose.position, position, "tracked position, local", atol=1e-7)
                ctx.close(lib.pose_matrix(human[kk].pose)[:, 2], axis, "tracked axis, local", atol=1e-7)
            continue
        messages[:] = seen + [RigidBody(57, np.array([9.0, 9.0, 9.0]), Rotation.identity())]
        if case["robot"] == "seen":
            messages.append(RigidBody(99, base[0], Rotation.identity()))
            robot.pose.position = np.zeros(3)
        messages[:] = messages[::order]
        ctx.call("update", human.update)
        ctx.visit(scene_key(case), order)
        for kk, (position, axis) in enumerate(expected):
            ctx.close(human[kk].pose.position, position, "tracked position", atol=1e-7)
            ctx.close(lib.pose_matrix(human[kk].pose)[:, 2], axis, "tracked axis", atol=1e-7)
            if kk and not case["followed"][kk - 1]:
                ctx.close(lib.pose_matrix(human[kk].pose), lib.pose_matrix(human[tree[kk - 1]].pose),
                          "orientation of what is not tracked", atol=1e-9)
        if case["root"] == "upright":
            ctx.close(lib.pose_matrix(human[0].pose), lib.matrix_of(3, ROOTS["upright"][1]),
                      "heading", atol=1e-9)
        joined(ctx, human, 3, tree, True)
    ctx.require(shown == [count] * 2, "shown components", f"{shown}")
    ctx.require(len(published) == (2 if robot else 0), "published poses", f"{len(published)}")
    # Lost out of sight: still one body
    messages[:] = messages[:1]
    ctx.call("update", human.update)
    joined(ctx, human, 3, tree, True)


# --- Conversion to an obstacle
def convert_cases(tier):
    for dim in (2, 3):
        for count in (1, 2, 3, 4):
            for tree in parents(count):
                for turn in range(3):
                    for base in ("default", "moved"):
                        yield {"dim": dim, "tree": tree, "turn": turn, "base": base}


def converted(ctx, mod, human, dim, base):
    if base == "default":
        return ctx.call("transform_from_multibodyobstacle_to_multiobstacle",
                        mod.transform_from_multibodyobstacle_to_multiobstacle, human), \
            np.zeros(dim), np.eye(dim)
    pose = lib.make_pose([0.5, -1.2, 0.3][:dim], TURNS[dim][1])
    return ctx.call("transform_from_multibodyobstacle_to_multiobstacle",
                    mod.transform_from_multibodyobstacle_to_multiobstacle, human, pose), \
        np.array(pose.position), lib.pose_matrix(pose)


def chain_of(ctx, human, obstacle):
    """Same hierarchy and joints."""
    for kk in range(human.n_components):
        ctx.require(obstacle.get_parent_idx(kk) == human.get_parent_idx(kk), "component it hangs on",
                    f"{kk}")


def convert_run(ctx, case):
    mod = ctx.load(BODY)
    dim, tree = case["dim"], case["tree"]
    count = len(tree) + 1
    human = body(ctx, dim, tree, [TURNS[dim][(kk + case["turn"]) % 3] for kk in range(count)])
    ctx.call("update", human.update)
    before = poses(human)
    values = [human.get_gamma(np.array(pp[:dim]), in_global_frame=True) for pp in POINTS]
    obstacle, shift, rot = converted(ctx, mod, human, dim, case["base"])
    ctx.require(obstacle.n_components == count and obstacle.dimension == dim, "number of components", "")
    chain_of(ctx, human, obstacle)
    for step in range(2):
        for kk, (position, own) in enumerate(before):
            part = obstacle.get_component(kk)
            ctx.close(part.pose.position, rot @ position + shift, "converted position", atol=1e-8)
            ctx.close(lib.pose_matrix(part.pose), rot @ own, "converted orientation", atol=1e-8)
            if kk:
                ctx.close(part.get_reference_point(in_global_frame=True),
                          rot @ joint_of(before, tree, kk, dim) + shift, "reference point", atol=1e-8)
        for pp, value in zip(POINTS, values):
            ctx.close(obstacle.get_gamma(rot @ np.array(pp[:dim]) + shift, in_global_frame=True), value,
                      "distance to the converted body", atol=1e-8)
        ctx.visit(scene_key(case), step)
        pose = lib.make_pose([-0.8, 0.4, 1.1][:dim], TURNS[dim][2])
        ctx.call("update_pose", obstacle.update_pose, pose)
        shift, rot = np.array(pose.position), lib.pose_matrix(pose)


def joint_of(before, tree, kk, dim):
    position, rot = before[tree[kk - 1]]
    return position + rot @ ends(dim, OTHER, kk)


# --- Persons
def person_cases(tier):
    turns = TURNS[3][1:]
    for dim in (2, 3):
        yield {"dim": dim, "turn": None}
        for kk in range(1, 10):
            for turn in range(len(turns)):
                yield {"dim": dim, "turn": [kk, turn]}


LINKS = {"neck": "body", "head": "neck", "upperarm1": "body", "lowerarm1": "upperarm1",
         "upperarm2": "body", "lowerarm2": "upperarm2", "leg1": "body", "leg2": "body"}


def person_run(ctx, case):
    mod = ctx.load(BODY)
    dim = case["dim"]
    human = ctx.call("create", mod.create_3d_human if dim == 3 else
                     mod.create_2d_human_with_multibodyobstacle)
    links = {kk: vv for kk, vv in LINKS.items() if dim == 3 or not kk.startswith("leg")}
    ctx.require(human.n_components == len(links) + 1, "number of components", f"{human.n_components}")
    if case["turn"]:
        idx, turn = case["turn"]
        if idx >= human.n_components:
            return
        human[idx].orientation = lib.make_orientation(dim, TURNS[dim][1 + turn])
        ctx.call("update", human.update)

    def linked(get, label):
        for name, parent in links.items():
            part, other = (get(human.get_obstacle_id_from_name(nn)) for nn in (name, parent))
            link = part.get_reference_point(in_global_frame=True)
            for side in (part, other):
                ctx.require(side.get_gamma(link, in_global_frame=True) <= 1 + 1e-9,
                            f"joint inside of {label}", f"{name} at {parent}")
            ctx.visit(scene_key(case), name)

    linked(human.get_component, "both parts")
    # Both sides are alike, seen from the front
    if case["turn"] is None:
        side = [human[human.get_obstacle_id_from_name(nn)].get_reference_point(in_global_frame=True)
                for nn in ("upperarm1", "upperarm2")]
        side[0][0] *= -1
        ctx.close(side[0], side[1], "shoulders", atol=1e-9)
    distances(ctx, human, dim, "distance to the person")
    if dim == 2 and not case["turn"]:
        person = ctx.call("create_2d_human", mod.create_2d_human)
        linked(person.get_component, "both parts of the obstacle")
        chain_of(ctx, human, person)
        for step in range(3):
            person.update_pose(lib.make_pose([0.4 * step, -0.7], TURNS[2][step]))
            linked(person.get_component, "both parts of the moved obstacle")


# --- The person as an obstacle
def avoided_cases(tier):
    for frame in range(3):
        for dyn in ("limited", "turned", "constant", "weave"):
            for radius in (math.pi / 2, 0.75 * math.pi):
                if tier == "quick" and (frame + len(dyn) + (radius > 2)) % 2:
                    continue
                yield {"dim": 2, "scene": "person", "frame": frame, "dyn": dyn, "radius": radius,
                       "tier": tier}


FAMILIES = [Family("names", name_cases, name_run),
            Family("history", history_cases, history_run),
            Family("frames", frame_cases, frame_run),
            Family("tracking", tracking_cases, tracking_run),
            Family("conversion", convert_cases, convert_run),
            Family("persons", person_cases, person_run),
            Family("avoided", avoided_cases, c11.field_run),
            Family("surface", avoided_cases, c11.surface_run)]
