"""C20: recorded trajectories and the measures they are compared with."""
import contextlib
import io
import itertools
import json
import math
import os
import shutil
import tempfile

import numpy as np

from mc import lib
from mc.core import Family

MEASURES = ("nonlinear_avoidance.comparison.evaluation_trajectories",
            "nonlinear_avoidance.comparison.evaluation_trajectories_with_std")
RECORD = "nonlinear_avoidance.comparison.comparison_multiobstacle_vectorfield"

STEPS = [(0.0, 0.0), (0.3, 0.0), (-0.3, 0.0), (0.0, 0.1), (0.2, 0.4)]
STEPS_3D = [(0.0, 0.0, 0.0), (0.3, 0.0, 0.1), (0.0, 0.2, 0.0), (-0.3, 0.0, -0.1), (0.0, 0.0, 0.4)]


def motions(dim):
    """Reference motions a trajectory is compared with (some of them at rest somewhere)."""
    rot = np.eye(dim)
    rot[:2, :2] = lib.rot2(0.7)
    return {
        "constant": lambda x: np.arange(1.0, dim + 1),
        "turned": lambda x: rot @ (np.ones(dim) - x),
        "rest": lambda x: np.zeros(dim),
        "half": lambda x: (1.0 if x[0] > 0.35 else 0.0) * (rot @ np.ones(dim)),
    }


# --- reference measures -----------------------------------------------------------------
def moving(traj):
    """(position, direction) of all steps in which the trajectory moves."""
    out = []
    for ii in range(traj.shape[1] - 1):
        step = traj[:, ii + 1] - traj[:, ii]
        if np.linalg.norm(step) > 0:
            out.append((traj[:, ii], step / np.linalg.norm(step)))
    return out


def ref_path(traj, center, radius):
    return np.mean([abs(np.linalg.norm(xx - center) ** 2 - radius ** 2) for xx in traj.T])


def ref_acceleration(traj, dt):
    acc = [(traj[:, ii + 1] - 2 * traj[:, ii] + traj[:, ii - 1]) / dt ** 2
           for ii in range(1, traj.shape[1] - 1)]
    return np.mean([aa @ aa for aa in acc])


def ref_turn(traj):
    dirs = [dd for _, dd in moving(traj)]
    return np.mean([aa @ bb for aa, bb in zip(dirs[1:], dirs[:-1])])


def ref_deviation(traj, motion):
    return np.mean([np.sum((dd - motion(xx)) ** 2) for xx, dd in moving(traj)])


def ref_alignment(traj, motion):
    out = []
    for xx, dd in moving(traj):
        vel = motion(xx)
        norm = np.linalg.norm(vel)
        out.append(dd @ vel / norm if norm else 0.0)
    return np.mean(out)


# --- measures ---------------------------------------------------------------------------
def measure_cases(tier):
    out = []
    lengths = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5)
    for module in MEASURES:
        for dim in (2, 3):
            for nn in lengths:
                for first in range(len(STEPS)):
                    out.append({"module": module, "dim": dim, "n": nn, "first": first})
    return out


def run_measures(ctx, case):
    mod = ctx.load(case["module"])
    dim, nn = case["dim"], case["n"]
    steps = STEPS if dim == 2 else STEPS_3D
    center, radius = 0.1 * np.arange(1.0, dim + 1), 0.8
    ways = motions(dim)
    for rest in itertools.product(range(len(steps)), repeat=nn - 1):
        ids = (case["first"],) + rest
        traj = np.zeros((dim, nn + 1))
        traj[:, 0] = 0.25
        for ii, jj in enumerate(ids):
            traj[:, ii + 1] = traj[:, ii] + np.array(steps[jj])
        keep = traj.copy()
        ctx.visit(case["module"][-12:], dim, ids)
        got = ctx.call("mean_squared_error_to_path", mod.mean_squared_error_to_path, traj, center,
                       radius)
        ctx.close(got, ref_path(traj, center, radius), "deviation from the path", 1e-9)
        for dt in (0.01, 0.5):
            got = ctx.call("mean_squared_acceleration", mod.mean_squared_acceleration, traj, dt)
            ref = ref_acceleration(traj, dt)
            ctx.close(got, ref, "mean squared acceleration", 1e-7 * max(ref, 1))
            moves = moving(traj)
            if not moves:
                continue  # there is no direction to compare
            if len(moves) > 1:
                got = ctx.call("dot_product_acceleration", mod.dot_product_acceleration, traj, dt)
                ctx.close(got, ref_turn(traj), "mean alignment of successive steps", 1e-9)
                ctx.require(-1 - 1e-9 <= got <= 1 + 1e-9, "alignment is within minus one and one")
            for name, motion in ways.items():
                got = ctx.call(f"mean_squared_velocity_deviation {name}",
                               mod.mean_squared_velocity_deviation, traj, motion, dt)
                ctx.close(got, ref_deviation(traj, motion), "mean squared deviation of velocity",
                          1e-9, 1e-9)
                got = ctx.call(f"dot_product_velocity_deviation {name}",
                               mod.dot_product_velocity_deviation, traj, motion, dt)
                ctx.close(got, ref_alignment(traj, motion), "mean alignment with the motion", 1e-9)
                ctx.outcome(round(float(got), 6))
        ctx.close(traj, keep, "trajectory unchanged", 0)


# --- record trajectories ----------------------------------------------------------------
def fields(dim):
    rot = np.eye(dim)
    rot[:2, :2] = lib.rot2(0.9)
    goal = np.full(dim, 0.35)

    def stop(pos):  # the motion stops behind a line
        return np.zeros(dim) if pos[0] > 0.6 else np.ones(dim)

    return {
        "constant": lambda x: 3.0 * np.eye(dim)[0],
        "linear": lambda x: goal - x,
        "spiral": lambda x: rot @ (goal - x),
        "slow": lambda x: 1e-3 * (goal - x),
        "stop": stop,
    }


def record_cases(tier):
    out = []
    grid = (-0.5, 0.25, 0.7) if tier == "quick" else (-0.5, -0.2, 0.25, 0.35, 0.7)
    for dim in (2, 3):
        for name in fields(dim):
            for start in itertools.product(grid, repeat=dim):
                out.append({"dim": dim, "field": name, "start": list(start)})
    return out


def run_record(ctx, case):
    mod = ctx.load(RECORD)
    field = fields(case["dim"])[case["field"]]
    start = np.array(case["start"])
    walls = {"none": None, "wall": lambda x: bool(x[1] > 0.5), "open": lambda x: False}
    for it_max in (2, 3, 10, 40):
        for dt in (0.01, 0.1):
            for margin in (1e-3, 0.05, 0.5):
                for name, wall in walls.items():
                    keep = start.copy()
                    kwargs = {} if margin == 1e-3 else {"conv_margin": margin}
                    with contextlib.redirect_stdout(io.StringIO()):
                        got = ctx.call("integrate_trajectory", mod.integrate_trajectory, field,
                                       start, it_max, delta_time=dt, collision_functor=wall,
                                       **kwargs)
                    ctx.visit(case["dim"], case["field"], tuple(case["start"]), it_max, dt,
                              margin, name)
                    ctx.close(start, keep, "start unchanged", 0)
                    path, end = [start], "length"
                    while len(path) < it_max:
                        vel = field(path[-1])
                        if np.linalg.norm(vel) < margin:
                            end = "rest"
                            break
                        new = path[-1] + dt * vel / np.linalg.norm(vel)
                        if wall is not None and wall(new):
                            end = "wall"
                            break
                        path.append(new)
                    path = np.array(path).T
                    count = got.shape[1]
                    # whether the position of the rest itself is listed is a matter of taste
                    fine = count == path.shape[1] or (end == "rest" and
                                                      count == path.shape[1] - 1)
                    ctx.require(fine, "trajectory ends where it has to",
                                lambda: f"{end}: {count} {path.shape[1]}")
                    ctx.close(got, path[:, :count], "steps of the same length along the motion",
                              1e-9)
                    ctx.outcome(end, count)


# --- store, load and summarise ----------------------------------------------------------
def file_cases(tier):
    out = []
    for module in MEASURES:
        for sub in itertools.product((0, 1), repeat=3):
            if not any(sub):
                continue
            for it_max in (4, 9):
                for dt in (0.01, 0.2):
                    for limit in (0, -1, 99):
                        out.append({"module": module, "use": list(sub), "it_max": it_max,
                                    "dt": dt, "limit": limit})
    return out


def run_files(ctx, case):
    mod = ctx.load(case["module"])
    rec = ctx.load(RECORD)
    root = tempfile.mkdtemp(prefix="mc_c20_")
    try:
        data = os.path.join(root, "data")
        os.mkdir(data)
        with open(os.path.join(root, "comparison_parameters.json"), "w") as out:
            json.dump({"it_max": case["it_max"], "conv_margin": 1e-2, "delta_time": case["dt"]}, out)
        starts = np.array([[1.0, 0.5], [-2.5, 0.25], [0.3, -2.2]])
        starts = starts[np.array(case["use"], dtype=bool)]
        if len(starts) < 2:  # a list of positions
            starts = np.vstack((starts, [[0.1, 2.0]]))
        np.savetxt(os.path.join(data, "initial_positions.csv"), starts, header="x, y", delimiter=",")

        # turn around the center, stuck behind a line on the right
        def motion(pos):
            return np.zeros(2) if pos[0] > 1.05 else np.array([1.0, 0.3])

        def wall(pos):
            return pos[1] > 0.3 and pos[0] < -2

        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call("evaluate_trajectories", rec.evaluate_trajectories, data, motion, "runs",
                     collision_functor=wall)
        folder = os.path.join(data, "runs")
        names = sorted(os.listdir(folder))
        ctx.require(len(names) == len(starts), "one file per start", lambda: f"{names}")
        trajs = []
        for name, start in zip(names, starts):
            traj = np.loadtxt(os.path.join(folder, name), delimiter=",", ndmin=2)
            with contextlib.redirect_stdout(io.StringIO()):
                ref = rec.integrate_trajectory(motion, start, case["it_max"], case["dt"], 1e-2,
                                               wall)
            ctx.close(traj, ref.T, "stored trajectory", 1e-9)
            trajs.append(traj.T)
        # too short to tell anything about them
        for name, traj in zip(names, trajs):
            if traj.shape[1] < 4:
                os.remove(os.path.join(folder, name))
        trajs = [traj for traj in trajs if traj.shape[1] >= 4]
        if not trajs:
            return
        limit = case["limit"] if case["limit"] < 1 else len(trajs)
        evaluator = mod.TrajectoryEvaluator(data_folder="runs", data_path=data, n_runs=limit)
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call("run", evaluator.run)
        ctx.visit(case["module"][-12:], tuple(case["use"]), case["it_max"], case["dt"],
                  case["limit"])

        def circle(pos):
            return rec.create_initial_dynamics().evaluate(pos)

        full = sum(traj.shape[1] >= case["it_max"] for traj in trajs)
        ctx.require(evaluator.n_converged == full, "number of full runs",
                    lambda: f"{evaluator.n_converged} {full}")
        ctx.require(evaluator.n_local_minima == len(trajs) - full, "number of runs which got stuck")
        ctx.require(evaluator.n_runs == len(trajs), "number of runs")
        expected = {
            "dist_to_path": [ref_path(tt, np.zeros(2), 2.0) for tt in trajs],
            "squared_acceleration": [ref_acceleration(tt, case["dt"]) for tt in trajs],
            "squared_error_velocity": [ref_deviation(tt, circle) for tt in trajs],
            "dotprod_err_velocity": [ref_alignment(tt, circle) for tt in trajs],
            "dotprod_acceleration": [ref_turn(tt) for tt in trajs],
        }
        for name, values in expected.items():
            ctx.close(getattr(evaluator, name), np.mean(values), f"mean of {name}", 1e-7, 1e-7)
            if hasattr(evaluator, name + "_std"):
                ctx.close(getattr(evaluator, name + "_std"), np.std(values), f"std of {name}", 1e-7,
                          1e-7)
            ctx.outcome(name, round(float(np.mean(values)), 6))
        # the table lists one column per evaluation
        if hasattr(mod, "print_table"):
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                ctx.call("print_table", mod.print_table, [evaluator, evaluator])
            for line in text.getvalue().strip().split("\n"):
                ctx.require(line.count("&") == 2, "table has a column per evaluation", lambda: line)
            ctx.require(f"{100 * full / len(trajs):.0f}" in text.getvalue(), "table lists full runs")
    finally:
        shutil.rmtree(root)


# --- the environment the algorithms are compared in -------------------------------------
def scene_cases(tier):
    num = 7 if tier == "quick" else 15
    out = []
    for xx in np.linspace(-4, 4, num):
        for yy in np.linspace(-3, 3, num):
            out.append({"start": [float(xx), float(yy)], "steps": 220 if tier == "quick" else 900})
    return out


def run_scene(ctx, case):
    mod = ctx.load(RECORD)
    multi = ctx.load("nonlinear_avoidance.multi_obstacle_avoider")
    tree = ctx.load("nonlinear_avoidance.multi_obstacle")
    from vartools.states import Pose

    environment = ctx.call("create_six_obstacle_environment", mod.create_six_obstacle_environment)
    start = np.array(case["start"])

    def gamma(pos):
        return min(obs.get_gamma(pos, in_global_frame=True) for obs in environment)

    if gamma(start) <= 1.05:
        return
    motion = mod.create_initial_dynamics()
    container = multi.MultiObstacleContainer()
    for obs in environment:
        multi_obs = tree.MultiObstacle(Pose(np.zeros(2)))
        multi_obs.set_root(obs)
        container.append(multi_obs)
    avoider = ctx.call("create_with_convergence_dynamics",
                       multi.MultiObstacleAvoider.create_with_convergence_dynamics,
                       obstacle_container=container, initial_dynamics=motion,
                       create_convergence_dynamics=True)
    with contextlib.redirect_stdout(io.StringIO()):
        traj = ctx.call("integrate_trajectory", mod.integrate_trajectory, avoider.evaluate, start,
                        case["steps"], delta_time=0.02, conv_margin=1e-3,
                        collision_functor=lambda x: gamma(x) <= 1)
    ctx.visit(tuple(case["start"]))
    if np.linalg.norm(start) < 1e-9:
        return  # the center of the circular motion
    ctx.require(traj.shape[1] == case["steps"], "moves on without touching the obstacles",
                lambda: f"{traj.shape} {traj[:, -1] if traj.shape[1] else ''}")
    ctx.outcome(tuple(np.round(traj[:, -1], 3)))


# --- start positions --------------------------------------------------------------------
def start_cases(tier):
    out = []
    for num in (2, 3, 5, 8) + ((13, 21) if tier != "quick" else ()):
        for x_lim in ((-4, 4), (0.5, 2.5), (-3, -1)):
            for y_lim in ((-3, 3), (-2.2, 0)):
                out.append({"n": num, "x": x_lim, "y": y_lim})
    return out


def run_starts(ctx, case):
    mod = ctx.load(RECORD)
    environment = mod.create_six_obstacle_environment()
    root = tempfile.mkdtemp(prefix="mc_c20_")
    try:
        ctx.call("create_start_positions", mod.create_start_positions, case["n"], case["x"],
                 case["y"], environment, root, store_to_file=True)
        got = np.loadtxt(os.path.join(root, "initial_positions.csv"), delimiter=",", skiprows=1,
                         ndmin=2)
    finally:
        shutil.rmtree(root)
    free = set()
    for xx in np.linspace(*case["x"], case["n"]):
        for yy in np.linspace(*case["y"], case["n"]):
            gam = min(obs.get_gamma(np.array([xx, yy]), in_global_frame=True)
                      for obs in environment)
            ctx.visit(case["n"], float(xx), float(yy))
            if gam > 1:
                free.add((round(float(xx), 6), round(float(yy), 6)))
    listed = [tuple(np.round(pos, 6)) for pos in got]
    ctx.require(len(listed) == len(set(listed)), "every start once")
    ctx.require({(float(xx) + 0.0, float(yy) + 0.0) for xx, yy in listed} ==
                {(xx + 0.0, yy + 0.0) for xx, yy in free}, "starts are the free grid positions")
    ctx.outcome(len(free))


FAMILIES = [
    Family("starts", start_cases, run_starts),
    Family("measures", measure_cases, run_measures),
    Family("record", record_cases, run_record),
    Family("files", file_cases, run_files),
    Family("scene", scene_cases, run_scene),
]
