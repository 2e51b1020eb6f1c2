B = []


def bug(id, property, file, old, new, needs, breaks, demo):
    B.append(dict(id=id, property=property, edits=[(file, old, new)], needs=needs, breaks=breaks, demo=demo))


AT, PT, SO, GR, KG, ST, HI, EV, GUI, MP, SM, QQ, UT = ['qtune/%s.py' % n for n in (
    'autotuner', 'parameter_tuner', 'solver', 'gradient', 'kalman_gradient', 'storage', 'history', 'evaluator', 'gui',
    'mat2py', 'sm', 'sm_tune_qqd', 'util')]

bug('apply-no-step-keeps-index', 'A01', AT,
    "            self._experiment.set_gate_voltages(self._voltages_to_set)\n            self._current_tuner_index = 0\n",
    "            self._experiment.set_gate_voltages(self._voltages_to_set)\n"
    "            if voltage_state_change['step'].any():\n                self._current_tuner_index = 0\n",
    'a group above the lowest suggests exactly the present voltages',
    'after applying voltages the tuning does not start again at the lowest group',
    '''
exp = Exp(A=1., B=2.)
f = subset(exp, {'p': lambda v: 0.}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': 1.})
noisy = iter([5., 0., 0., 0.])
g = subset(exp, {'q': lambda v: next(noisy)}, ['B'], {'q': [1.]}, {'q': 0.}, {'q': 1.})
g.solver.suggest_next_position = lambda tuned_parameters=None: pd.Series({'B': 2.})
at = Autotuner(exp, [f, g])
for i in range(4):
    at.iterate()
check(at.current_tuner_index == 0, 'after the voltages are applied the tuning starts at the bottom')
''')

bug('pending-dropped-before-set', 'A04', AT,
    "            self._experiment.set_gate_voltages(self._voltages_to_set)\n            self._current_tuner_index = 0\n"
    "            self._voltages_to_set = None\n",
    "            voltages_to_set, self._voltages_to_set = self._voltages_to_set, None\n"
    "            self._current_tuner_index = 0\n            self._experiment.set_gate_voltages(voltages_to_set)\n",
    'the experiment raises while the voltages are set',
    'the pending voltages are lost and can not be applied again',
    '''
exp = Exp(A=1.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
at = Autotuner(exp, [f])
at.iterate()
at.iterate()
exp.fail_set = True
try:
    at.iterate()
    check(False, 'raises')
except RuntimeError:
    pass
check(at.voltages_to_set is not None, 'pending voltages are kept')
exp.fail_set = False
at.iterate()
check(abs(exp.v['A']) < 1e-9, 'applied on the second try')
''')

bug('tuned-parameters-incomplete-target', 'A06', AT,
    "axis='columns').dropna().index\n            tuned_parameters",
    "axis='columns').dropna(how='all').index\n            tuned_parameters",
    'a lower group has a parameter with a tolerance but without a desired value',
    'a parameter without a target is reported as tuned',
    '''
exp = Exp(A=1., B=2.)
f = subset(exp, {'p': lambda v: 0., 'x': lambda v: 0.}, ['A', 'B'], {'p': [1., 0.], 'x': [0., 1.]},
           {'p': 0., 'x': np.nan}, {'p': 1., 'x': 1.})
g = subset(exp, {'q': lambda v: v['B']}, ['B'], {'q': [1.]}, {'q': 0.}, {'q': 1.})
told = []
orig = g.solver.suggest_next_position
g.solver.suggest_next_position = lambda tuned_parameters=None: (told.append(set(tuned_parameters)), orig(tuned_parameters))[1]
at = Autotuner(exp, [f, g])
for i in range(3):
    at.iterate()
check(told == [{'p'}], 'told %s' % told)
''')

bug('step-size-by-largest-gate', 'T02', PT,
    "        if np.linalg.norm(step) > self._maximal_step_size:\n",
    "        if np.max(np.abs(step)) > self._maximal_step_size:\n",
    'a step of several gates of which none exceeds the maximal step size alone',
    'the voltage step exceeds the maximal step size',
    '''
exp = Exp(A=.9, B=.9)
f = subset(exp, {'p': lambda v: v['A'], 'q': lambda v: v['B']}, ['A', 'B'], {'p': [1., 0.], 'q': [0., 1.]},
           {'p': 0., 'q': 0.}, {'p': .1, 'q': .1}, maximal_step_size=1.)
check(not f.is_tuned(exp.read_gate_voltages()), 'not tuned')
step = f.get_next_voltages() - exp.v
check(np.linalg.norm(step) <= 1 + 1e-9, 'step %s' % np.linalg.norm(step))
''')

bug('recovery-prefers-tuned-voltages', 'T03', PT,
    "            return 0.5 * (self._evaluatable_voltages[-1] + self._last_voltage)\n",
    "            return 0.5 * ((self._tuned_voltages or self._evaluatable_voltages)[-1] + self._last_voltage)\n",
    'the group was tuned before and measured successfully at other voltages since',
    'the recovery does not move to the most recent known-good voltages',
    '''
exp = Exp(A=4.)
values = iter([0., 3., np.nan])
f = subset(exp, {'p': lambda v: next(values)}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
check(f.is_tuned(pd.Series({'A': 4.})), 'tuned')
f.is_tuned(pd.Series({'A': 1.}))
f.is_tuned(pd.Series({'A': 0.}))
check(f.get_next_voltages()['A'] == .5, 'recovery to %s' % f.get_next_voltages()['A'])
''')

bug('newton-keeps-value-without-target', 'S02', SO,
    "            if not math.isnan(self.target.desired[value_index]):\n",
    "            if self.target.desired[value_index]:\n",
    'a parameter with the desired value zero (or without one)',
    'the estimator of a parameter whose desired value is zero is never updated, the one without desired value is',
    '''
pos = pd.Series({'A': 0., 'B': 0.})
target = make_target(desired=pd.Series({'p': 0., 'q': 1.}))
s = NewtonSolver(target, [kalman(pos, [0., 0.], cov=1.), kalman(pos, [0., 0.], cov=1.)], pos)
var = pd.Series(1e-6, index=['p', 'q'])
s.update_after_step(pos, pd.Series({'p': 0., 'q': 0.}), var)
s.update_after_step(pos + [1., 0.], pd.Series({'p': 1., 'q': 0.}), var)
check(abs(s.gradient_estimators[list(target.index).index('p')].estimate()['A'] - 1) < .1, 'p')
''')

bug('nelder-mead-contract-vs-best', 'S03', SO,
    "            elif new_cost >= costs[-2]:\n                if new_cost < costs[-1]:\n",
    "            elif new_cost >= costs[-2]:\n                if new_cost <= costs[-1]:\n",
    'the reflected point is exactly as bad as the worst point',
    'an outer contraction is performed instead of the inner one',
    '''
target = pd.DataFrame({'desired': pd.Series({'p': 0.})})
pos = pd.Series({'A': 0., 'B': 0.})
s = NelderMeadSolver.from_scratch(target, pd.Series({'A': 1., 'B': 1.}), pos, pd.Series({'p': 1.}))
var = pd.Series({'p': 0.})
for value in (2., 3.):
    s.update_after_step(s.suggest_next_position(), pd.Series({'p': value}), var)
worst = s.simplex[-1][0]
m = pd.DataFrame([p for p, _ in s.simplex[:-1]]).mean()
s.update_after_step(s.suggest_next_position(), pd.Series({'p': 3.}), var)
check(np.allclose(s.suggest_next_position(), m + (worst - m) / 2), 'inner contraction')
''')

bug('fd-covariance-of-other-end', 'G01', GR,
    "                                                                         variances=variances[::-1])\n",
    "                                                                         variances=variances)\n",
    'one sided differences whose measurements have different variances',
    'the covariance of the gradient is propagated from the wrong variances',
    '''
e = FiniteDifferencesGradientEstimator(current_position=pd.Series({'A': 0., 'B': 0.}), epsilon=1.)
for var in (1., 2., 8.):
    e.update(e.require_measurement(), 0., var)
p, v, var = zip(*e._stored_measurements)
D = np.stack([p[1] - p[2], p[0] - p[2]])
want = np.linalg.inv(D) @ np.diag([2. + 8., 1. + 8.]) @ np.linalg.inv(D).T
check(np.allclose(e.covariance(), want), 'covariance')
''')

bug('kalman-position-not-updated-when-close', 'G03', GR,
    "        if is_new_position:\n            self._current_value = value\n",
    "        if is_new_position and diff_values != 0:\n            self._current_value = value\n",
    'two measurements with exactly the same value at different positions',
    'the next difference is taken to the wrong position',
    '''
pos = pd.Series({'A': 0.})
e = kalman(pos, [0.], cov=1., value=5.)
e.update(pos + 1, 5., 1., is_new_position=True)
check(e.current_position['A'] == 1., 'position %s' % e.current_position['A'])
''')

bug('kalman-threshold-inclusive', 'G02', GR,
    "            if np.any(lengths > 1):\n",
    "            if np.any(lengths >= 1):\n",
    'an uncertainty that is exactly the allowed one',
    'a measurement is required although the uncertainty does not exceed the allowed one',
    '''
pos = pd.Series({'A': 0., 'B': 0.})
e = kalman(pos, [0., 0.], cov=.25, max_cov=.25)
check(e.require_measurement() is None, 'no measurement required')
''')

bug('series-strings-shared-index', 'H01', ST,
    "        serialized[id(obj)] = hdf5_group\n        return\n\n    if type(obj).__name__ in serializables:",
    "        if isinstance(obj, list):\n            serialized[id(obj)] = hdf5_group\n        return\n\n"
    "    if type(obj).__name__ in serializables:",
    'the same tuple is referenced twice',
    'a tuple that was shared when saved is reloaded as two objects',
    '''
from qtune.storage import to_hdf5, from_hdf5
path = os.path.join(os.environ['SCRATCH'], 'x.hdf5')
t = ([1., 2.], 'a')
to_hdf5(path, 'x', dict(a=t, b=t))
d = from_hdf5(path, reserved={})['x']
check(d['a'] is d['b'], 'the same tuple')
''')

bug('writer-join-drops-late-tasks', 'H04', ST,
    "            if task is None:\n                return\n            else:\n                name, file_name, obj, reserved = task\n",
    "            if task is None or not threading.main_thread().is_alive():\n                return\n"
    "            else:\n                name, file_name, obj, reserved = task\n",
    'the program ends while snapshots are still queued', 'snapshots that were accepted are not written',
    '''
import subprocess
scratch = os.environ['SCRATCH']
code = """
import sys, os, time
sys.path.insert(0, os.getcwd())
import numpy as np
import qtune.storage as s
orig = s.to_hdf5
def slow(*a, **k):
    time.sleep(.3)
    return orig(*a, **k)
s.to_hdf5 = slow
w = s.AsynchronousHDF5Writer(reserved={}, multiprocess=False)
for i in range(4):
    w.write(np.arange(i + 1.), file_name=%r + '/%%d.hdf5' %% i, name='x')
import threading
t = threading.Timer(.5, w.join)
t.start()
""" % scratch
subprocess.run([sys.executable, '-c', code], timeout=60)
files = sorted(f for f in os.listdir(scratch) if f.endswith('.hdf5'))
check(files == ['%d.hdf5' % i for i in range(4)], 'files %s' % files)
''')

bug('history-start-after-pending', 'Y01', HI,
    "        if autotuner.voltages_to_set is not None or autotuner.current_tuner_status:\n",
    "        if autotuner.current_tuner_status:\n",
    'a snapshot of the compute step is the only one of its row, or carries new gradients',
    'parameters of the group that failed last are missing if only the state with pending voltages is appended',
    '''
from qtune.history import History
exp = Exp(A=1., B=0.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
g = subset(exp, {'q': lambda v: v['B'] + 7}, ['B'], {'q': [1.]}, {'q': 0.}, {'q': .1})
at = Autotuner(exp, [f, g])
h = History(None)
for i in range(3):
    at.iterate()
    h.append_autotuner(at)
at.iterate()
at.iterate()
at.iterate()
h.append_autotuner(at)
check(len(h._data_frame) == 2, 'two rows')
check(h.get_parameter_values('q').iloc[-1] == 7., 'q is in the row')
''')

bug('gradient-variances-prefix', 'Y03', HI,
    "        return self._data_frame[self._parameter_variance_name.format(parameter_name=parameter_name)].apply(np.sqrt)\n",
    "        return self._data_frame.filter(like=self._parameter_variance_name.format(\n"
    "            parameter_name=parameter_name)).iloc[:, 0].apply(np.sqrt)\n",
    'the name of a parameter ends with the name of another one',
    'the standard deviation of another parameter is returned',
    '''
from qtune.history import History
exp = Exp(A=1., B=0.)
f = subset(exp, {'p': lambda v: v['A'], 'fast p': lambda v: v['B']}, ['A', 'B'], {'p': [1., 0.], 'fast p': [0., 1.]},
           {'p': 0., 'fast p': 0.}, {'p': .1, 'fast p': .1}, variance={'p': 4., 'fast p': 9.})
at = Autotuner(exp, [f])
h = History(None)
at.iterate()
h.append_autotuner(at)
check(h.get_parameter_std('p').iloc[0] == 2., 'std %s' % h.get_parameter_std('p').iloc[0])
''')

BUGS = B
