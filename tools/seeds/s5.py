"""Planted bugs from s37 on."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import seed as tool  # noqa: E402

WANTED = sys.argv[1:]
R = "nonlinear_avoidance/"


def seed(sid, *args):
    if not WANTED or any(sid.startswith(ww + "_") for ww in WANTED):
        tool.seed(sid, *args)


seed("s37_fewest_regions", "C27", [(R + "multi_hull_and_obstacle.py",
"""            source=obs_hash_source,
            target=closest_elems[ind_min],
            weight="distance",
""",
"""            source=obs_hash_source,
            target=closest_elems[ind_min],
""")], """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes
from nonlinear_avoidance.multi_hull_and_obstacle import MultiHullAndObstacle

def hull(center, axes):
    return EllipseWithAxes(center_position=np.array(center), axes_length=np.array(axes), is_boundary=True)

# A short way through three regions, and a detour over a far away one
inner = [hull([-1.5, 0.0], [1.2, 2.6]), hull([-0.5, -0.8], [1.6, 0.8]), hull([0.5, -0.8], [1.2, 0.8]),
         hull([0.0, 3.0], [5.0, 5.0]), hull([1.5, 0.0], [1.4, 2.6])]
obs = MultiHullAndObstacle(inner_obstacles=inner, outer_obstacle=CuboidXd(
    center_position=np.zeros(2), axes_length=np.array([20.0, 20.0])))
obs.evaluate_hirarchy_and_reference_points()
obs.set_attractor(np.array([1.8, 0.2]))
obs.evaluate(np.array([-1.7, 0.0]))
local = list(obs.local_attractor_iterator())[0]
assert local[1] < 0, local
""", "two ways to the attractor, the longer one of which leads through fewer regions",
"the longer way is taken")

seed("s38_old_way_outside", "C27", [(R + "multi_hull_and_obstacle.py",
"""            # => since the behavior outside should be consistent
            self._local_outside_attractor = None
            self._attractor_is_outside = False
""",
"""            # => since the behavior outside should be consistent
            if self._attractor_is_outside is None:
                self._local_outside_attractor = None
            self._attractor_is_outside = False
""")], """
import numpy as np
from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes
from nonlinear_avoidance.multi_hull_and_obstacle import MultiHullAndObstacle

def build():
    obs = MultiHullAndObstacle(
        outer_obstacle=CuboidXd(center_position=np.zeros(2), axes_length=np.array([2.0, 2.0])),
        inner_obstacles=[EllipseWithAxes(center_position=np.array([0.8, 0.0]),
                                         axes_length=np.array([1.5, 1.0]), is_boundary=True)])
    obs.evaluate_hirarchy_and_reference_points()
    return obs

first, second = build(), build()
first.set_attractor(np.array([-3.0, 1.0]))
first.evaluate(np.array([2.0, 2.0]))
for obs in (first, second):
    obs.set_attractor(np.array([0.7, 0.1]))
position = np.array([3.0, 0.5])
assert np.allclose(first.evaluate(position), second.evaluate(position))
""", "an attractor outside followed by one in a pocket", "the motion outside still goes to the first one")
