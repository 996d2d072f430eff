from vartools.dynamical_systems import *  # noqa
from vartools.dynamical_systems import (  # noqa
    LinearSystem, ConstantValue, QuadraticAxisConvergence, WavyRotatedDynamics, LocallyRotated)
from vartools.dynamical_systems._base import DynamicalSystem


class Dynamics(DynamicalSystem):
    pass
