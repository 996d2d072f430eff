"""Setup: the stand-ins of the third-party packages import and agree with closed forms."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from mc import core  # noqa: E402

core.setup()
import numpy as np  # noqa: E402
from vartools.states import Pose  # noqa: E402
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes, CuboidXd  # noqa: E402

pose = Pose(np.array([1.0, 2.0]), 0.5 * np.pi)
assert np.allclose(pose.transform_position_from_relative(np.array([1.0, 0.0])), [1, 3])
assert np.allclose(pose.transform_position_to_relative(np.array([1.0, 3.0])), [1, 0])
obs = EllipseWithAxes(center_position=np.zeros(2), axes_length=np.array([2.0, 2.0]))
assert abs(obs.get_gamma(np.array([1.0, 0]), in_global_frame=True) - 1) < 1e-9
assert obs.get_gamma(np.array([0.5, 0]), in_global_frame=True) < 1
cub = CuboidXd(center_position=np.zeros(2), axes_length=np.array([2.0, 2.0]))
assert abs(cub.get_gamma(np.array([2.0, 0]), in_global_frame=True) - 2) < 1e-9
print("stand-ins ok")
