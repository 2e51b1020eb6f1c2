B = []


def bug(id, property, file, old, new, needs, breaks, demo):
    B.append(dict(id=id, property=property, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs,
                  breaks=breaks, demo=demo))


AT, PT, SO, GR, KG, ST, HI, EV, GUI, MP, SM, QQ, UT = ['qtune/%s.py' % n for n in (
    'autotuner', 'parameter_tuner', 'solver', 'gradient', 'kalman_gradient', 'storage', 'history', 'evaluator', 'gui',
    'mat2py', 'sm', 'sm_tune_qqd', 'util')]

bug('pass-skips-known-voltages', 'A02', AT,
    "                self._current_tuner_index += 1\n",
    "                self._current_tuner_index = self._current_tuner_index + 1\n"
    "                present = self.tuning_hierarchy[self._current_tuner_index - 1].last_voltages\n"
    "                while (self._current_tuner_index + 1 < len(self._tuning_hierarchy) and\n"
    "                       any(present.equals(v) for v in self.get_current_tuner().tuned_voltages[-1:])):\n"
    "                    self._current_tuner_index += 1\n",
    'three groups and a way back to voltages at which the middle group was tuned before',
    'a group is passed without having been evaluated',
    '''
exp = Exp(A=0., B=0., C=0.)
seen = []
f = subset(exp, {'p': lambda v: 0.}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': 1.})
m_values = iter([0., 9., 0., 0., 0., 0.])
g = subset(exp, {'q': lambda v: (seen.append(1), next(m_values))[1]}, ['B'], {'q': [1.]}, {'q': 0.}, {'q': 1.})
h_values = iter([9., 9., 9.])
h = subset(exp, {'r': lambda v: next(h_values)}, ['C'], {'r': [1.]}, {'r': 0.}, {'r': 1.})
h.solver.suggest_next_position = lambda tuned_parameters=None: pd.Series({'C': 0.})
at = Autotuner(exp, [f, g, h])
for i in range(5):
    at.iterate()
check(at.current_tuner_index == 0 and len(seen) == 1, 'third group voted for (the same) voltages')
at.iterate()
at.iterate()
check(len(seen) == 2, 'the second group is evaluated again')
''')

bug('apply-only-changed-gates', 'A03', AT,
    "            self._experiment.set_gate_voltages(self._voltages_to_set)\n",
    "            changed = voltage_state_change['step'] != 0\n"
    "            self._experiment.set_gate_voltages(self._voltages_to_set[changed[changed].index])\n",
    'the lowest group has seen other voltages than the experiment has (changed manually between two iterations)',
    'suggested voltages are not set',
    '''
exp = Exp(A=1., B=2.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
at = Autotuner(exp, [f])
at.iterate()
at.iterate()
told = []
orig = exp.set_gate_voltages
exp.set_gate_voltages = lambda v: (told.append(dict(v)), orig(v))[1]
exp.v['B'] = 5.
at.iterate()
check(len(told) == 1 and set(told[0]) == {'A', 'B'} and exp.v['B'] == 2., 'the suggested voltages are set: %s' % told)
''')

bug('change-targets-resumes', 'A05', AT,
    "            self.tuning_hierarchy[i].target = target_change\n        self._current_tuner_index = 0\n",
    "            self.tuning_hierarchy[i].target = target_change\n"
    "        changed = [i for i, target_change in enumerate(target_changes) if target_change]\n"
    "        self._current_tuner_index = min(changed + [self._current_tuner_index])\n",
    'the targets of a higher group only are changed',
    'the tuning does not begin at the lowest group after a change of the targets',
    '''
exp = Exp(A=0., B=0.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': 1.})
g = subset(exp, {'q': lambda v: v['B']}, ['B'], {'q': [1.]}, {'q': 0.}, {'q': 1.})
at = Autotuner(exp, [f, g])
at.iterate()
at.iterate()
check(at.is_tuning_complete(), 'complete')
at.change_targets([{}, {'desired': pd.Series({'q': 5.})}])
check(at.current_tuner_index == 0, 'begins at the bottom')
''')

bug('target-change-ignores-nan', 'A05', SO,
    "            self.target.loc[changes[category].index, category] = changes[category]",
    "            self.target.loc[changes[category].dropna().index, category] = changes[category].dropna()",
    'a desired value is removed (set to NaN) by a change of the targets',
    'a removed target is still tuned',
    '''
exp = Exp(A=3., B=0.)
f = subset(exp, {'p': lambda v: v['A'], 'q': lambda v: v['B']}, ['A', 'B'], {'p': [1., 0.], 'q': [0., 1.]},
           {'p': 0., 'q': 0.}, {'p': 1., 'q': 1.})
at = Autotuner(exp, [f])
at.change_targets([{'desired': pd.Series({'p': np.nan})}])
check(np.isnan(f.target.desired['p']), 'the target is removed')
at.iterate()
check(at.is_tuning_complete(), 'nothing to tune')
''')

bug('tolerance-from-construction', 'T01', [
    (PT, "        self._maximal_step_size = maximal_step_size\n        self._maximal_step_number = maximal_step_number\n",
      "        self._tolerance = self.target['tolerance'].fillna(np.inf)\n"
      "        self._maximal_step_size = maximal_step_size\n        self._maximal_step_number = maximal_step_number\n"),
     (PT, "        if ((self.target.desired - current_parameters).abs().fillna(0.) < self.target['tolerance'].fillna(\n"
          "                np.inf)).all():\n",
      "        if ((self.target.desired - current_parameters).abs().fillna(0.) < self._tolerance).all():\n")], None, None,
    'the tolerance is changed while the program runs',
    'the group is judged by an outdated tolerance',
    '''
exp = Exp(A=.5)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': 1.})
f.target = {'tolerance': pd.Series({'p': .1})}
check(not f.is_tuned(exp.read_gate_voltages()), 'out of the tolerance')
f.target = {'tolerance': pd.Series({'p': .9})}
check(f.is_tuned(exp.read_gate_voltages()), 'in the tolerance')
''')

bug('sensing-dot-stale-expensive', 'T04', PT,
    "        if current_parameter.le(self.target[\"minimum\"]).any():\n            self.cheap_evaluation_only = True\n"
    "            if current_parameter.le(",
    "        if self._last_parameter_values.le(self.target[\"minimum\"]).any():\n"
    "            self.cheap_evaluation_only = True\n            if current_parameter.le(",
    'an expensive evaluator measured a value below its minimum before',
    'the sensing dot is not tuned although the cheap measurement is good',
    '''
exp = Exp(A=0.)
cheap_values = iter([0., 5.])
cheap = Ev(exp, {'signal': lambda v: next(cheap_values)}, name='cheap')
expensive = Ev(exp, {'position_A': lambda v: 1., 'contrast': lambda v: 0.}, name='expensive')
index = ['contrast', 'position_A', 'signal']
target = make_target(desired=pd.Series(np.nan, index=index), minimum=pd.Series([1., np.nan, 1.], index=index),
                     cost_threshold=pd.Series([np.nan, np.nan, .5], index=index))
solver = ForwardingSolver(target, pd.Series({'position_A': 'A'}), pd.Series({'A': 0.}))
t = SensingDotTuner([cheap], [expensive], ['A'], solver=solver, last_voltage=exp.read_gate_voltages())
check(not t.is_tuned(exp.read_gate_voltages()), 'signal too low')
check(t.is_tuned(exp.read_gate_voltages()), 'signal sufficient')
''')

bug('expensive-not-rescaled', 'T05', PT,
    "                current_parameter, variances = self.evaluate(cheap=False)\n"
    "                self.solver.rescale_values(current_parameter, variances)\n",
    "                cheap_parameters = current_parameter.index\n"
    "                current_parameter, variances = self.evaluate(cheap=False)\n"
    "                if not current_parameter.index.equals(cheap_parameters):\n"
    "                    self.solver.rescale_values(current_parameter, variances)\n",
    'the expensive evaluators measure the same parameters as the cheap ones and they are rescaled',
    'values are compared, stored and forwarded in the wrong unit',
    '''
exp = Exp(A=0.)
cheap = Ev(exp, {'position_A': lambda v: 2., 'signal': lambda v: 4.}, name='cheap')
expensive = Ev(exp, {'position_A': lambda v: 6., 'signal': lambda v: 8.}, name='expensive')
index = ['position_A', 'signal']
target = make_target(desired=pd.Series(np.nan, index=index), minimum=pd.Series([np.nan, 9.], index=index),
                     cost_threshold=pd.Series([np.nan, 8.], index=index),
                     rescaling_factor=pd.Series([2., 4.], index=index))
solver = ForwardingSolver(target, pd.Series({'position_A': 'A'}), pd.Series({'A': 0.}))
t = SensingDotTuner([cheap], [expensive], ['A'], solver=solver, last_voltage=exp.read_gate_voltages())
t.is_tuned(exp.read_gate_voltages())
values, variances = t.last_parameters_and_variances
check(values['position_A'] == 3. and values['signal'] == 2., 'values are rescaled')
check(t.get_next_voltages()['A'] == 6., 'position in volts')
''')

bug('newton-large-rcond', 'S01', SO,
    "        rcond = np.finfo(float).eps * max(jacobian.shape)\n",
    "        rcond = np.sqrt(np.finfo(float).eps * max(jacobian.shape)) * 1e4\n",
    'gradients of quite different magnitude (a factor of ten thousand)',
    'small gradients are treated as zero: the parameter is not tuned',
    '''
exp = Exp(A=1., B=1.)
f = subset(exp, {'p': lambda v: v['A'], 'q': lambda v: 1e-4 * v['B']}, ['A', 'B'],
           {'p': [1., 0.], 'q': [0., 1e-4]}, {'p': 0., 'q': 0.}, {'p': 1e-6, 'q': 1e-9})
f.is_tuned(exp.read_gate_voltages())
v = f.get_next_voltages()
check(np.allclose(v, 0., atol=1e-8), 'Newton step %s' % dict(v))
''')

bug('forwarding-keeps-old-suggestion', 'S04', SO,
    "        self._next_position[position.index.intersection(self._next_position.index)] = \\\n"
    "            position[position.index.intersection(self.current_position.index)]\n",
    "        unmapped = self._next_position.index.difference(self._values_to_position)\n"
    "        self._next_position[position.index.intersection(unmapped)] = position[position.index.intersection(unmapped)]\n",
    'a value that is mapped to a gate is not measured in one evaluation after it was in an earlier one',
    'the suggestion contains the outdated value instead of the present voltage',
    '''
target = make_target(desired=pd.Series(np.nan, index=['x', 'y']))
s = ForwardingSolver(target, pd.Series({'x': 'A', 'y': 'B'}), pd.Series({'A': 0., 'B': 0.}))
s.update_after_step(pd.Series({'A': 0., 'B': 0.}), pd.Series({'x': 1., 'y': 2.}), pd.Series({'x': 1., 'y': 1.}))
check(dict(s.suggest_next_position()) == {'A': 1., 'B': 2.}, 'forwarded')
s.update_after_step(pd.Series({'A': 1., 'B': 7.}), pd.Series({'x': 4.}), pd.Series({'x': 1.}))
check(dict(s.suggest_next_position()) == {'A': 4., 'B': 7.}, 'present voltage %s' % dict(s.suggest_next_position()))
''')

bug('handover-position-of-differences', 'G04', GR,
    "                                                             current_position=position[initial_estimate.index],\n",
    "                                                             current_position=self._finite_difference_estimator."
    "current_position,\n",
    'the last point of the finite differences is not the point around which they are taken, then a Kalman update',
    'differences of position and value belong to different measurements: wrong gradient',
    '''
pos = pd.Series({'A': 0., 'B': 0.})
e = SelfInitializingKalmanEstimator.from_scratch(pos.copy(), pd.Series({'A': 1., 'B': 1.}), np.inf)
f = lambda v: 2 * v['A'] + 3 * v['B']
e.update(pos, f(pos), 1e-6, True)
for i in range(5):
    p = e.require_measurement(['A', 'B'])
    if p is None:
        break
    e.update(p, f(p), 1e-6, True)
check(np.allclose(e.estimate()[['A', 'B']], [2., 3.]), 'gradient')
p = pd.Series({'A': 5., 'B': -2.})
e.update(p, f(p), 1e-6, True)
check(np.allclose(e.estimate()[['A', 'B']], [2., 3.], atol=1e-3), 'gradient %s' % dict(e.estimate()))
''')

bug('queued-steps-not-saved', 'H02', PT,
    "                    maximal_step_number=self._maximal_step_number,\n"
    "                    number_queued_steps=self._number_queued_steps)\n",
    "                    maximal_step_number=self._maximal_step_number,\n"
    "                    number_queued_steps=min(self._number_queued_steps, 1))\n",
    'a crash and reload while two or more steps are queued',
    'the reloaded program continues differently',
    '''
import tempfile, h5py, qtune.storage
exp = Exp(A=9.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1}, maximal_step_size=1.,
           maximal_step_number=5)
f.is_tuned(exp.read_gate_voltages())
f.get_next_voltages()
d = f.to_hdf5()
check(d['number_queued_steps'] == 4, 'queued steps %s' % d['number_queued_steps'])
''')

bug('copy-in-writer-thread', 'Y02', [
    (ST, "                to_hdf5(file_name, name, obj, reserved=reserved)\n",
      "                obj, reserved = copy.deepcopy((obj, reserved))\n"
      "                to_hdf5(file_name, name, obj, reserved=reserved)\n"),
     (ST, "        obj, reserved = copy.deepcopy((obj, self.reserved))\n\n        self._queue.put((name, file_name, obj, reserved))",
      "        self._queue.put((name, file_name, obj, self.reserved))")], None, None,
    'the object is changed before the writer thread gets to its task',
    'a snapshot shows a later state than the one it was asked to store',
    '''
import h5py, qtune.storage, threading
S = os.environ['SCRATCH']
gate = threading.Event()
orig = qtune.storage.to_hdf5
def slow(*a, **k):
    gate.wait(20)
    return orig(*a, **k)
qtune.storage.to_hdf5 = slow
w = qtune.storage.AsynchronousHDF5Writer(reserved={}, multiprocess=False)
data = {'n': [1]}
w.write({'n': [0]}, S + '/0.hdf5', 'x')
w.write(data, S + '/1.hdf5', 'x')
data['n'][0] = 2
gate.set()
w.join()
check(qtune.storage.from_hdf5(S + '/1.hdf5', {})['x']['n'] == [1], 'the state at the time of the call')
''')

bug('lead-transition-reads-again', 'E01', EV,
    "        for measurement, shift_gate in zip(self.measurements, self._shifting_gates):\n"
    "            shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])\n",
    "        for measurement, shift_gate in zip(self.measurements, self._shifting_gates):\n"
    "            if measurement is self.measurements[-1]:\n"
    "                current_gate_voltages = current_gate_voltages[list(self._shifting_gates)]\n"
    "            shift = pd.Series(-2. * self._charge_diagram_width if self.experiment.read_gate_voltages()[shift_gate] < 0\n"
    "                              else -1. * self._charge_diagram_width, [shift_gate])\n",
    'a gate with a negative voltage',
    'the transition is measured at other voltages than the edge of the charge diagram',
    '''
from qtune.evaluator import LeadTransition
at = []
class E(Exp):
    def measure(self, m):
        at.append(dict(self.v))
        return np.arange(320.)
exp = E(RFA=-1., RFB=2., X=0.)
LeadTransition(exp).evaluate()
check([round(v['RFB'], 6) for v in at] == [1.996, 2.] and [round(v['RFA'], 6) for v in at] == [-1., -1.004], str(at))
''')

bug('load-time-keeps-last-fit', 'E02', EV,
    "            self.logger.error('The following evaluator could not fit its data:' + str(self))\n"
    "            fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])\n"
    "            residual = np.nan\n        self._fit_results = fitresult\n"
    "        self._raw_y_data = data[0, :]\n",
    "            self.logger.error('The following evaluator could not fit its data:' + str(self))\n"
    "            fitresult = self._fit_results\n"
    "            if fitresult is None:\n"
    "                fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])\n"
    "            residual = np.nan\n        self._fit_results = fitresult\n"
    "        self._raw_y_data = data[0, :]\n",
    'a fit fails after an earlier one succeeded',
    'the failure is hidden: the old value is returned',
    '''
from qtune.evaluator import NewLoadTime
x = np.linspace(0, 100, 60)
datas = [np.stack([1 + 2 * np.exp(-x / 20.), x]), np.stack([np.full(60, np.nan), x])]
class E(Exp):
    def measure(self, m):
        return datas.pop(0)
ev = NewLoadTime(E(A=1.))
v, _ = ev.evaluate()
check(abs(v['parameter_time_load'] - 20) < .1, 'load time')
v, _ = ev.evaluate()
check(np.isnan(v['parameter_time_load']), 'a failed fit gives NaN')
''')

bug('averaging-variance-of-all', 'E03', EV,
    "            outer_error[parameter] = np.nanvar(par_list) / np.count_nonzero(~np.isnan(par_list))\n",
    "            outer_error[parameter] = np.nanvar(par_list) / len(par_list)\n",
    'some of the repeated evaluations fail',
    'the variance of the mean is too small',
    '''
from qtune.evaluator import AveragingEvaluator
exp = Exp(A=0.)
vals = iter([1., np.nan, 3., np.nan])
ev = AveragingEvaluator(Ev(exp, {'p': lambda v: next(vals)}), 4)
v, var = ev.evaluate()
check(v['p'] == 2. and abs(var['p'] - .5) < 1e-9, 'variance of the mean %s' % var['p'])
''')

bug('sensing-dot-without-cutoff', 'E04', EV,
    "        self.optimal_position = raw_x_data[steepest_point + cutoff]\n",
    "        self.optimal_position = raw_x_data[steepest_point + (cutoff if self._rising_flank else 0)]\n",
    'the falling flank is used',
    'the position of the steepest point is shifted by the cut-off',
    '''
from qtune.evaluator import SensingDot1D
x = np.linspace(-.004, .004, 1280) + 1.
class E(Exp):
    def measure(self, m):
        return -np.tanh((x - 1.001) / .0015)
ev = SensingDot1D(E(SDB2=1.), rising_flank=False)
v, _ = ev.evaluate()
check(abs(v['position_SDB2'] - 1.001) < .0003, 'position %s' % v['position_SDB2'])
''')

GUI_HEAD = '''
import IPython, time, threading
class Shell:
    def magic(self, *a): pass
    run_line_magic = magic
IPython.get_ipython = lambda: Shell()
import qtune.gui as gui
from pyqtgraph.Qt import QtWidgets, QtCore
app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(['x'])
def wait(condition, seconds=20):
    end = time.time() + seconds
    while not condition() and time.time() < end:
        app.processEvents()
        time.sleep(.01)
    return condition()
class AT:
    def __init__(self, n=1000, fail=()):
        self.n, self.i, self.fail, self.last_save_file = n, 0, fail, None
        self.hold = threading.Event(); self.hold.set()
        self.inside = threading.Event()
    def is_tuning_complete(self): return self.i >= self.n
    def iterate(self):
        self.inside.set()
        self.hold.wait(20)
        self.i += 1
        if self.i in self.fail:
            raise RuntimeError('iteration')
'''

bug('gui-step-survives-pause', 'U01', GUI,
    "        self._continuous = False\n        self._stepped = False\n        self._start_btn.setEnabled(True)\n"
    "        self._step_btn.setEnabled(True)\n        self._stop_btn.setEnabled(False)\n\n    def close(self):",
    "        self._continuous = False\n        self._start_btn.setEnabled(True)\n"
    "        self._step_btn.setEnabled(True)\n        self._stop_btn.setEnabled(False)\n\n    def close(self):",
    'a pause between the request of a step and the moment the worker sees it',
    'a step that was revoked is executed',
    GUI_HEAD + '''
at = AT()
at.hold.clear()
g = gui.GUI(at, None)
g.start()
check(wait(at.inside.is_set), 'first iteration begins')
at2 = AT()
class Slow:
    pass
# the worker is in the first iteration: step and pause before it ends
g.pause()
at.hold.set()
check(wait(lambda: at.i == 1), 'first iteration ends')
time.sleep(.3)
check(at.i == 1, 'paused')
# step and pause faster than the worker polls
real_sleep = time.sleep
block = threading.Event()
def slow_sleep(t):
    if threading.current_thread() is g._thread:
        block.wait(10)
    real_sleep(t)
gui.time.sleep = slow_sleep
real_sleep(.3)
g.step()
g.pause()
block.set()
real_sleep(.5)
check(at.i == 1, 'the step was revoked')
''')

bug('gui-history-skips-steps', 'U02', GUI,
    "                            if self.history:\n                                self.history.append_autotuner(auto_tuner)\n",
    "                            if self.history and not self._stepped:\n"
    "                                self.history.append_autotuner(auto_tuner)\n",
    'single steps',
    'iterations are missing in the history',
    GUI_HEAD + '''
class H:
    def __init__(self): self.n = 0
    def append_autotuner(self, at): self.n += 1
at, h = AT(), H()
g = gui.GUI(at, h)
g.step()
check(wait(lambda: at.i == 1), 'one iteration')
time.sleep(.2)
check(h.n == 1, 'the history contains the iteration')
''')

bug('gui-reload-same-voltages', 'U03', GUI,
    "        if self.auto_tuner:\n            self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)\n"
    "            self.auto_tuner.restart()\n",
    "        if self.auto_tuner:\n            if not voltages.equals(self.auto_tuner._experiment.read_gate_voltages()"
    ".reindex(voltages.index)):\n"
    "                self.auto_tuner._experiment.set_gate_voltages(new_gate_voltages=voltages)\n"
    "                self.auto_tuner.restart()\n",
    'the voltages of the chosen row are the present ones and the tuning is in the middle of a cycle',
    'the program is not restarted: a pending suggestion is applied after the voltages have been loaded',
    GUI_HEAD + '''
from qtune.history import History
exp = Exp(A=3.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
at = Autotuner(exp, [f])
h = History(None)
for i in range(2):
    at.iterate()
    h.append_autotuner(at)
check(at.voltages_to_set is not None, 'pending')
w = gui.ReloadWidget(h, at)
w.reload_voltages()
check(at.voltages_to_set is None, 'the tuning begins again')
''')

MAT_HEAD = '''
import types
m = types.ModuleType('matlab'); m.engine = types.ModuleType('matlab.engine')
m.engine.MatlabExecutionError = type('MatlabExecutionError', (Exception,), {})
m.engine.MatlabEngine = object
sys.modules['matlab'], sys.modules['matlab.engine'] = m, m.engine
'''

bug('matlab-empty-slice', 'M01', MP,
    "    elif python_slice.stop < 0:\n",
    "    elif python_slice.stop <= 0:\n",
    'a slice that stops at index 0',
    'an empty slice selects everything',
    MAT_HEAD + '''
from qtune.mat2py import transform_index
n = 7
def ev(text):
    a, s, b = [eval(p.replace('end', str(n))) for p in text.split(':')]
    r, x = [], a
    while (x <= b) if s > 0 else (x >= b):
        r.append(x - 1); x += s
    return r
for sl in (slice(5, 2, -1), slice(6, 1, -2), slice(1, 4), slice(None, None, -1), slice(0, 0), slice(4, 0, -1)):
    check(ev(transform_index(sl)) == list(range(n))[sl], sl)
''')

bug('matlab-fortran-order', 'M02', SM,
    "            raw = bytes(obj)\n",
    "            raw = obj.tobytes('A')\n",
    'an array in column major order (for example a transposed one)',
    'MATLAB receives a scrambled array',
    MAT_HEAD + '''
from qtune.sm import SpecialMeasureMatlab
class Eng:
    def typecast(self, raw, t): return np.frombuffer(raw, {'double': 'f8'}[t])
    def reshape(self, a, *s): return a.reshape(s, order='F')
    def transpose(self, a): return a.T
s = SpecialMeasureMatlab.__new__(SpecialMeasureMatlab)
s._engine = Eng()
a = np.arange(6.).reshape(2, 3)
check(np.array_equal(s.to_matlab(a), a), 'C order')
check(np.array_equal(s.to_matlab(a.T), a.T), 'F order')
''')

bug('matlab-registry-by-argument', 'M03', SM,
    "        cls.connected_engines[engine.matlab.engine.engineName()] = engine\n        return engine\n",
    "        cls.connected_engines[connect] = engine\n        return engine\n",
    'a connection to any engine followed by a connection to the same engine by its name',
    'the second connection to the same session is attempted, which fails',
    MAT_HEAD + '''
from qtune.sm import SpecialMeasureMatlab
class Eng:
    def __init__(self, name):
        self.matlab = types.SimpleNamespace(engine=types.SimpleNamespace(engineName=lambda: name))
connected = set()
def connect(name='E1'):
    if name in connected:
        raise RuntimeError('already connected')
    connected.add(name)
    return Eng(name)
m.engine.connect_matlab = connect
a = SpecialMeasureMatlab._connect_to_engine(True)
b = SpecialMeasureMatlab._connect_to_engine('E1')
check(a is b, 'same session')
''')

bug('qqd-line-limit-of-each-scan', 'M04', QQ,
    "        if value < self._minimal_value or value > self._maximal_value:\n            value = np.nan\n"
    "        return value, variance\n",
    "        if value < self._minimal_value or width.max() > self._maximal_value:\n            value = np.nan\n"
    "        return value, variance\n",
    'several line scans of which one exceeds the maximum while the mean does not',
    'a valid value is discarded',
    MAT_HEAD + '''
import qtune.sm_tune_qqd as q
NS = types.SimpleNamespace
raw = {'data': NS(ana=[NS(width=1.), NS(width=4.)], args=NS(fullFile='f'))}
exp = Exp(A=1.)
exp.measure = lambda m: raw
ev = q.QQDLine(exp, [Measurement('line')], ['w'], 'line', maximal_value=3., minimal_value=0.)
v, var = ev.evaluate()
check(v['w'] == 2.5 and abs(var['w'] - 2.25 / 2) < 1e-9, 'mean %s' % dict(v))
''')

BUGS = B
