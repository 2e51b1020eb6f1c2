"""A small simulated experiment for the demonstrations."""
import os
import sys
import warnings
import logging
sys.path.insert(0, os.getcwd())
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import qtune
assert os.path.realpath(qtune.__file__).startswith(os.path.realpath(os.getcwd()))
from qtune.experiment import Experiment, Measurement
from qtune.evaluator import Evaluator
from qtune.parameter_tuner import SubsetTuner, SensingDotTuner
from qtune.solver import NewtonSolver, ForwardingSolver, NelderMeadSolver, make_target
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.autotuner import Autotuner


class Exp(Experiment):
    def __init__(self, **voltages):
        self.v = pd.Series(voltages, dtype=float)
        self.fail_set = False

    def read_gate_voltages(self):
        return self.v.copy()

    def set_gate_voltages(self, new_gate_voltages):
        new = new_gate_voltages
        if self.fail_set:
            raise RuntimeError('set')
        self.v[new.index] = new
        return self.v.copy()


class Ev(Evaluator):
    """measures the functions of the voltages given as keywords"""
    def __init__(self, experiment, functions, name='Ev', variance=.01, raw_y_data=None):
        self.functions, self.variance, self.n = functions, variance, 0
        super().__init__(experiment, (), tuple(functions), None, raw_y_data, name)

    def evaluate(self):
        self.n += 1
        self._raw_y_data = np.array([self.n])
        v = self.experiment.read_gate_voltages()
        values = pd.Series({p: float(f(v)) for p, f in self.functions.items()})
        var = self.variance if isinstance(self.variance, dict) else {p: self.variance for p in self.functions}
        return values, pd.Series(var)[values.index]

    def to_hdf5(self):
        return dict(experiment=self.experiment, name=self.name, raw_x_data=None, raw_y_data=self._raw_y_data)


def kalman(position, gradient, cov=1e-4, max_cov=np.inf, eps=.5, alpha=1., value=None):
    n = len(position)
    g = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=gradient,
                       initial_covariance_matrix=np.eye(n) * cov if np.ndim(cov) == 0 else cov,
                       measurement_covariance_matrix=np.eye(1), alpha=alpha)
    return KalmanGradientEstimator(g, current_position=position.copy(), maximum_covariance=max_cov, epsilon=eps,
                                   current_value=value)


def subset(exp, functions, gates, gradients, desired, tolerance, estimators=None, variance=.01, **kw):
    """group with a Newton solver"""
    pos = exp.read_gate_voltages()[gates]
    pars = list(functions)
    target = make_target(desired=pd.Series(desired, index=pars, dtype=float),
                         tolerance=pd.Series(tolerance, index=pars, dtype=float), **kw.pop('target', {}))
    est = estimators or [kalman(pos, gradients[p]) for p in target.index]
    solver = NewtonSolver(target, est, pos.copy())
    return SubsetTuner([Ev(exp, functions, variance=variance)], gates, solver=solver,
                       last_voltage=exp.read_gate_voltages(), **kw)


def check(condition, text):
    if not condition:
        print('FAILED:', text)
        sys.stdout.flush()
        os._exit(1)


def done():
    print('ok')
    sys.stdout.flush()
    os._exit(0)
