B = []


def bug(id, property, file, old, new, needs, breaks, demo):
    B.append(dict(id=id, property=property, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs,
                  breaks=breaks, demo=demo))


AT, PT, SO, GR, KG, ST, HI, EV, GUI, MP, SM, QQ, UT, BD = ['qtune/%s.py' % n for n in (
    'autotuner', 'parameter_tuner', 'solver', 'gradient', 'kalman_gradient', 'storage', 'history', 'evaluator', 'gui',
    'mat2py', 'sm', 'sm_tune_qqd', 'util', 'basic_dqd')]

bug('apply-restarts-at-affected-group', 'A07', AT,
    "            self._current_tuner_index = 0\n            self._voltages_to_set = None\n        elif",
    "            changed = voltage_state_change.index[voltage_state_change['step'] != 0]\n"
    "            # groups which do not tune any of these gates are still tuned\n"
    "            self._current_tuner_index = min([i for i, par_tuner in enumerate(\n"
    "                self._tuning_hierarchy[:self._current_tuner_index + 1])\n"
    "                if len(changed.intersection(par_tuner.solver.current_position.index)) > 0], default=0)\n"
    "            self._voltages_to_set = None\n        elif",
    'a parameter of a lower group that depends on the gates of a higher group (crosstalk)',
    'the tuning reports its completion although a lower group left its tolerance when the voltages were changed',
    '''
exp = Exp(A=0., B=0.)
f = subset(exp, {'p': lambda v: v['A'] + v['B']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
g = subset(exp, {'q': lambda v: v['B']}, ['B'], {'q': [1.]}, {'q': 5.}, {'q': .1})
at = Autotuner(exp, [f, g])
for i in range(60):
    if at.is_tuning_complete():
        break
    at.iterate()
check(at.is_tuning_complete(), 'completes')
check(abs(exp.v['A'] + exp.v['B']) < .1 and abs(exp.v['B'] - 5) < .1, 'on target: %s' % dict(exp.v))
''')

bug('detune-scan-changes-measurement', 'E05', BD,
    "    parameters = measurement.options.copy()\n",
    "    parameters = measurement.options\n",
    'a detuning scan followed by a look at (or a reload of) the options of the measurement',
    'a simulated scan changes the options of the measurement it was asked for',
    '''
from qtune.basic_dqd import TestExperiment, Simulator, detune_simulation
m = Measurement('detune_scan', center=0., range=2e-3, N_points=100, N_average=5)
s = Simulator(detune_simulation, central_upper_gate='T', central_lower_gate='N', left_gate='A', right_gate='B')
exp = TestExperiment(pd.Series({'T': 0., 'N': 0., 'A': 0., 'B': 0.}), [m], {id(m): s})
before = dict(m.options)
exp.measure(m)
check(m.options == before, 'options are those of before: %s' % m.options)
''')

bug('plot-voltage-legend-sorted', 'Y04', HI,
    "    voltage_ax.legend(voltage_data_frame.columns)\n",
    "    voltage_ax.legend(sorted(voltage_data_frame.columns))\n",
    'voltages that are requested in another than the alphabetical order',
    'the lines are labeled with the names of other gates',
    '''
import matplotlib
matplotlib.use('Agg')
from qtune.history import History
exp = Exp(A=1., B=2.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
at = Autotuner(exp, [f])
h = History(None)
for i in range(3):
    at.iterate()
    h.append_autotuner(at)
_, (ax, _, _) = h.plot_tuning(voltage_indices=['B', 'A'])
labels = [t.get_text() for t in ax.get_legend().get_texts()]
for line, label in zip(ax.get_lines(), labels):
    check(np.allclose(line.get_ydata(), h.get_gate_values(label)), 'line of ' + label)
''')

bug('plot-evaluator-first-row', 'Y04', HI,
    "                plot_data = self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]\n"
    "                if not plot_data != plot_data:\n                    plot",
    "                plot_data = self._evaluator_data.loc[self._evaluator_data.index[start], evaluator]\n"
    "                if not plot_data != plot_data:\n                    plot",
    'raw data of more than one iteration is plotted',
    'each figure shows the data of the first iteration',
    '''
import matplotlib
matplotlib.use('Agg')
from qtune.history import History
from qtune.evaluator import SensingDot1D
class Dot(Exp):
    def measure(self, m):
        return np.sin(np.linspace(0, 3, m.options['N_points'])) + self.v['A']
exp = Dot(A=1.)
ev = SensingDot1D(exp, 'A', parameters=('position_A', 'current_signal', 'optimal_signal'), measurements=(
    Measurement('line_scan', center=None, range=1., gate='A', N_points=64),))
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 0.}, {'p': .1})
f._evaluators = f._evaluators + (ev,)
at = Autotuner(exp, [f])
h = History(None)
for i in range(4):
    at.iterate()
    h.append_autotuner(at)
check(h.number_of_stored_iterations == 2, 'two rows')
_, axes = h.plot_evaluator_data(start=0, end=2, evaluator_names=['SensingDot1D'])
for i in range(2):
    want = h.evaluator_data['SensingDot1D'].iloc[i]['raw_y_data']
    check(any(len(l.get_ydata()) == len(want) and np.allclose(l.get_ydata(), want) for l in axes[i][0].get_lines()),
          'data of row %d' % i)
''')

bug('kalman-covariance-persists', 'G03', KG,
    "        self.filter.update(diff_values, R=measurement_covariance, H=self.__createMatrixH(diff_position))\n",
    "        if measurement_covariance is not None:\n"
    "            self.filter.R = np.eye(self.n_values) * measurement_covariance\n"
    "        self.filter.update(diff_values, H=self.__createMatrixH(diff_position))\n",
    'an update with its own covariance followed by one without',
    'the covariance of one measurement is used for the following ones',
    '''
k = KalmanGradient(n_pos_dim=2, n_values=1, initial_gradient=[0., 0.], initial_covariance_matrix=np.eye(2),
                   measurement_covariance_matrix=np.eye(1))
k.update([1., 0.], [1.], measurement_covariance=np.array([[9.]]))
check(abs(k.grad[0, 0] - .1) < 1e-9, 'first update')
k.update([0., 1.], [1.])
check(abs(k.grad[0, 1] - .5) < 1e-9, 'second update uses the covariance of the filter: %s' % k.grad)
''')

bug('snapshot-names-predecessor', 'H03', AT,
    "            self.last_save_file = os.path.join(self._hdf5_storage_path, time_string() + \".hdf5\")\n"
    "            self.asynchrone_writer.write(self, file_name=self.last_save_file, name='autotuner')\n",
    "            save_file = os.path.join(self._hdf5_storage_path, time_string() + \".hdf5\")\n"
    "            self.asynchrone_writer.write(self, file_name=save_file, name='autotuner')\n"
    "            self.last_save_file = save_file\n",
    'a reload of a snapshot',
    'the snapshot names the file before as the one the state is stored in: not the state after the iteration',
    '''
import tempfile, shutil
from qtune.storage import from_hdf5
tmp = tempfile.mkdtemp()
try:
    exp = Exp(A=1.)
    f = SubsetTuner([Ev(exp, {'p': lambda v: v['A']})], ['A'], solver=NewtonSolver(
        make_target(desired=pd.Series({'p': 0.}), tolerance=pd.Series({'p': .1})),
        [kalman(exp.read_gate_voltages(), [1.])], exp.read_gate_voltages()), last_voltage=exp.read_gate_voltages())
    at = Autotuner(exp, [f], hdf5_storage_path=tmp)
    for e in f.evaluators:
        type(e).to_hdf5 = lambda self: dict(functions={}, experiment=self.experiment, name=self.name)
    for i in range(2):
        at.iterate()
    at.asynchrone_writer.join()
    import h5py
    with h5py.File(at.last_save_file, 'r') as file:
        back = from_hdf5(file, {'experiment': exp})['autotuner']
    check(back.last_save_file == at.last_save_file, '%s is not %s' % (back.last_save_file, at.last_save_file))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

bug('history-keeps-expensive-data', 'Y01', PT,
    "        else:\n            self.cheap_evaluation_only = True\n            self._tuned_voltages.append(voltages)\n",
    "        else:\n            self._tuned_voltages.append(voltages)\n",
    'a sensing dot that needed an expensive measurement and is tuned at the voltages it found',
    'the history shows the expensive measurement of other voltages in the row of the new ones',
    '''
from qtune.history import History
class Dot(Evaluator):
    def __init__(self, experiment, function, name):
        self.function = function
        super().__init__(experiment, (), tuple(function(experiment.read_gate_voltages())), None, None, name)
    def evaluate(self):
        v = self.experiment.read_gate_voltages()
        self._raw_y_data = np.array([v['A']])
        values = pd.Series(self.function(v))
        return values, values * 0 + .01
    def to_hdf5(self):
        return dict(experiment=self.experiment, name=self.name, raw_x_data=None, raw_y_data=self._raw_y_data)
exp = Exp(A=1.)
cheap = Dot(exp, lambda v: {'signal': 10. - 9 * abs(v['A'] - 2)}, 'cheap')
dear = Dot(exp, lambda v: {'position_A': 2.}, 'dear')
solver = ForwardingSolver(make_target(minimum=pd.Series({'signal': 5.}), cost_threshold=pd.Series({'signal': 3.})),
                          pd.Series({'position_A': 'A'}), exp.read_gate_voltages())
at = Autotuner(exp, [SensingDotTuner([cheap], [dear], ['A'], solver=solver, last_voltage=exp.read_gate_voltages())])
h = History(None)
for i in range(20):
    if at.is_tuning_complete():
        break
    at.iterate()
    h.append_autotuner(at)
check(at.is_tuning_complete() and exp.v['A'] == 2. and h.number_of_stored_iterations == 2, 'tuned in two rows')
rows = h.evaluator_data
check(rows['dear'].iloc[0]['raw_y_data'][0] == 1., 'expensive measurement in the first row')
check(rows['dear'].iloc[1] != rows['dear'].iloc[1], 'no expensive measurement in the second row')
''')

bug('sensing-dot-recovers-to-first', 'T03', PT,
    "            return 0.5 * (self.tuned_voltages[-1] + self._last_voltage)\n",
    "            return 0.5 * (self.tuned_voltages[0] + self._last_voltage)\n",
    'a failure after the dot was tuned at two different voltages',
    'the recovery does not move to the most recent known-good voltages',
    '''
exp = Exp(A=0.)
values = iter([9., 9., np.nan])
class Dot(Ev):
    def evaluate(self):
        return pd.Series({'signal': next(values)}), pd.Series({'signal': .1})
    def to_hdf5(self):
        return {}
d = Dot(exp, {'signal': lambda v: 0.})
solver = ForwardingSolver(make_target(minimum=pd.Series({'signal': 5.}), cost_threshold=pd.Series({'signal': 3.})),
                          pd.Series({'position_A': 'A'}), exp.read_gate_voltages())
t = SensingDotTuner([d], [], ['A'], solver=solver, last_voltage=exp.read_gate_voltages())
check(t.is_tuned(pd.Series({'A': 0.})) and t.is_tuned(pd.Series({'A': 8.})), 'tuned twice')
check(not t.is_tuned(pd.Series({'A': 10.})), 'fails')
check(t.get_next_voltages()['A'] == 9., 'half way to the last good voltages: %s' % t.get_next_voltages()['A'])
''')

bug('jacobian-by-position', 'S01', SO,
    "        return pd.concat(gradients, axis=1, keys=self._target.index).T\n",
    "        return pd.DataFrame([gradient.values for gradient in gradients], index=self._target.index,\n"
    "                            columns=gradients[0].index)\n",
    'gradient estimators that know the gates in different orders',
    'the entries of a gradient are used for the wrong gates',
    '''
pos = pd.Series({'A': 0., 'B': 0.})
target = make_target(desired=pd.Series({'p': 1., 'q': 0.}), tolerance=pd.Series({'p': .1, 'q': .1}))
e = {'p': kalman(pos, [1., 0.]), 'q': kalman(pos[['B', 'A']], [1., 0.])}
s = NewtonSolver(target, [e[p] for p in target.index], pos.copy(), pd.Series({'p': 0., 'q': 0.}))
new = s.suggest_next_position()
check(abs(new['A'] - 1) < 1e-6 and abs(new['B']) < 1e-6, 'suggestion %s' % dict(new))
''')

bug('directory-by-modification-time', 'Y02', HI,
    "            directory_content = [os.path.join(path, file)\n"
    "                                 for file in sorted(os.listdir(path))\n"
    "                                 if os.path.isfile(os.path.join(path, file))]\n",
    "            directory_content = sorted((os.path.join(path, file)\n"
    "                                        for file in os.listdir(path)\n"
    "                                        if os.path.isfile(os.path.join(path, file))), key=os.path.getmtime)\n",
    'files that were copied (in another order than they were written)',
    'the iterations of the history are in the wrong order',
    '''
import tempfile, shutil
from qtune.history import History
class REv(Ev):
    def __init__(self, experiment, name='REv', raw_x_data=None, raw_y_data=None):
        super().__init__(experiment, {'p': lambda v: v['A']}, name=name, raw_y_data=raw_y_data)
    def to_hdf5(self):
        return super().to_hdf5()
tmp = tempfile.mkdtemp()
try:
    exp = Exp(A=8.)
    solver = NewtonSolver(make_target(desired=pd.Series({'p': 0.}), tolerance=pd.Series({'p': .1})),
                          [kalman(exp.read_gate_voltages(), [1.])], exp.read_gate_voltages())
    t = SubsetTuner([REv(exp)], ['A'], solver=solver, last_voltage=exp.read_gate_voltages(), maximal_step_size=3.)
    at = Autotuner(exp, [t], hdf5_storage_path=tmp)
    h = History(None)
    for i in range(7):
        at.iterate()
        h.append_autotuner(at)
    at.asynchrone_writer.join()
    path = os.path.dirname(at.last_save_file)
    for i, name in enumerate(sorted(os.listdir(path), reverse=True)):
        os.utime(os.path.join(path, name), (1e9 + i, 1e9 + i))
    back = History(path, exp)
    check(list(back.get_gate_values('A')) == list(h.get_gate_values('A')),
          '%s is not %s' % (list(back.get_gate_values('A')), list(h.get_gate_values('A'))))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

bug('fd-epsilon-by-position', 'G01', GR,
    "        self._epsilon = epsilon[self._current_position.index]\n\n        self._current_estimate = current_estimate\n",
    "        self._epsilon = pd.Series(epsilon.values, index=self._current_position.index)\n\n"
    "        self._current_estimate = current_estimate\n",
    'step sizes given in another order of the gates than the position',
    'the step of another gate is taken',
    '''
f = FiniteDifferencesGradientEstimator(current_position=pd.Series({'A': 0., 'B': 0.}),
                                       epsilon=pd.Series({'B': 5., 'A': 1.}))
f.update(f.current_position, 0., .01)
for i in range(2):
    r = f.require_measurement()
    check(abs(r['A']) <= 1. + 1e-9 and abs(r['B']) <= 5. + 1e-9, 'step %s' % dict(r))
    f.update(r, r['A'] + r['B'], .01)
check(f.epsilon['A'] == 1. and f.epsilon['B'] == 5., 'epsilon %s' % dict(f.epsilon))
''')

bug('handover-forgets-new-position', 'G04', GR,
    "            self.kalman_estimator.update(position, value, covariance, is_new_position)\n",
    "            self.kalman_estimator.update(position, value, covariance)\n",
    'several measurements of a nonlinear parameter after the finite differences',
    'all further differences are taken to the position of the handover',
    '''
s = SelfInitializingKalmanEstimator.from_scratch(pd.Series({'A': 0.}), epsilon=pd.Series({'A': 1.}),
                                                 maximum_covariance=1e9)
s.update(pd.Series({'A': 0.}), 0., 1e-6, True)
s.update(s.require_measurement(), 1., 1e-6, True)
check(s.kalman_estimator is not None, 'handed over')
at = s.kalman_estimator.current_position['A']
s.update(pd.Series({'A': at + 2.}), 5., 1e-6, True)
check(s.current_position['A'] == at + 2., 'position is the last measured one: %s' % s.current_position['A'])
''')

bug('long-lists-reordered', 'H01', ST,
    "            for idx in range(len(hdf5_obj.keys())):\n"
    "                result.append(_from_hdf5(root, hdf5_obj[str(idx)], deserialized))\n            return result\n",
    "            for entry in hdf5_obj.values():\n"
    "                result.append(_from_hdf5(root, entry, deserialized))\n            return result\n",
    'a list with more than ten entries',
    'the entries of the reloaded list are in another order',
    '''
import tempfile, shutil
from qtune.storage import to_hdf5, from_hdf5
tmp = tempfile.mkdtemp()
try:
    import h5py
    with h5py.File(tmp + '/a.hdf5', 'w') as file:
        to_hdf5(file, 'x', [float(i) for i in range(12)])
    with h5py.File(tmp + '/a.hdf5', 'r') as file:
        back = from_hdf5(file, {})['x']
    check(list(back) == [float(i) for i in range(12)], 'list %s' % back)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

bug('nelder-mead-second-shrink', 'S03', SO,
    "                self._shrunk_points = []\n",
    "",
    'two shrinks of the same simplex',
    'the second shrink uses the points of the first one',
    '''
rng = np.random.RandomState(0)
pos = pd.Series({'A': 0., 'B': 0.})
target = make_target(desired=pd.Series({'p': 0.}), tolerance=pd.Series({'p': .1}))
s = NelderMeadSolver.from_scratch(target, pd.Series({'A': 1., 'B': 1.}), pos, pd.Series({'p': 0.}))
best = (pos['A'], pos['B'])
def value(x):
    # only the best point is good: everything fails but shrinks
    return 0. if (x['A'], x['B']) == best else 10. + rng.rand() + len(seen)
seen = []
for i in range(2):
    x = s.suggest_next_position()
    s.update_after_step(x, pd.Series({'p': value(x)}), pd.Series({'p': .01}))
sizes = []
for i in range(30):
    x = s.suggest_next_position()
    seen.append(x)
    s.update_after_step(x, pd.Series({'p': value(x)}), pd.Series({'p': .01}))
    points = np.array([p.values for p in s.get_positions()])
    check(len(points) == 3, '%d points' % len(points))
    sizes.append(np.abs(points[1:] - points[:1]).max())
check(sizes[-1] < sizes[0] / 8, 'the simplex shrinks again and again: %s' % sizes)
''')

bug('writer-restart-does-not-wait', 'H04', ST,
    "    def restart(self):\n        self.join()\n\n        self._initialize()\n",
    "    def restart(self):\n        if self._worker.is_alive():\n            self._queue.put(None)\n\n"
    "        self._initialize()\n",
    'a restart while objects are queued, followed by the next one',
    'the objects are not written in the order they were accepted',
    '''
import tempfile, shutil, time
from qtune.storage import AsynchronousHDF5Writer, HDF5Serializable
order = []
class Slow(metaclass=HDF5Serializable):
    def __init__(self, n):
        self.n = n
    def to_hdf5(self):
        if self.n == 0:
            time.sleep(.5)
        order.append(self.n)
        return dict(n=self.n)
tmp = tempfile.mkdtemp()
try:
    w = AsynchronousHDF5Writer(reserved={}, multiprocess=False)
    w.write(Slow(0), tmp + '/a.hdf5', 'x')
    w.write(Slow(1), tmp + '/b.hdf5', 'x')
    w.restart()
    w.write(Slow(2), tmp + '/c.hdf5', 'x')
    w.join()
    time.sleep(1.)
    check(order == [0, 1, 2], 'order %s' % order)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

bug('qqd-resp-visibility-of-first', 'M04', QQ,
    "            if raw_data['data'].ana[i].visiblity < self._min_transition_height:\n",
    "            if raw_data['data'].ana[0].visiblity < self._min_transition_height:\n",
    'two transitions of which only the second is too weak',
    'a position that was not found reliably is reported',
    '''
import types
try:
    import matlab.engine
except ImportError:
    matlab = types.ModuleType('matlab'); matlab.engine = types.ModuleType('matlab.engine')
    matlab.engine.MatlabExecutionError = type('MatlabExecutionError', (Exception,), {})
    matlab.engine.MatlabEngine = object
    sys.modules['matlab'] = matlab; sys.modules['matlab.engine'] = matlab.engine
from qtune.sm_tune_qqd import QQDResp
N = types.SimpleNamespace
class Q(Exp):
    def measure(self, m):
        return {'data': N(ana=[N(position=1., visiblity=5.), N(position=2., visiblity=1.)], args=N(fullFile='f'))}
e = QQDResp(Q(A=0.), (Measurement('resp'),), ['a', 'b'], 'resp', min_transition_height=3.)
v, _ = e.evaluate()
check(v['a'] == 1. and v['b'] != v['b'], 'values %s' % dict(v))
''')

bug('fit-uses-first-line-only', 'E04', EV,
    "            if len(data.shape) == 2:\n                data = data.mean(0)\n",
    "            if len(data.shape) == 2:\n                data = data[0]\n",
    'a transition scan with several repetitions of which the first one is disturbed',
    'the position is that of a single repetition instead of that of their mean',
    '''
from qtune.evaluator import LeadTransition
x = np.linspace(-4e-3, 4e-3, 400)
good = np.tanh((x - 1e-3) / 2e-4)
bad = np.tanh((x + 1e-3) / 2e-4)
class D(Exp):
    def measure(self, m):
        return np.array([bad] + [good] * 8)
e = LeadTransition(D(BA=0., RFA=0.), shifting_gates=('BA',), measurements=(
    Measurement('line_scan', center=0., range=4e-3, gate='RFA', N_points=400),), parameters=('position_RFA',))
v, _ = e.evaluate()
check(abs(v['position_RFA'] - 1e-3) < 3e-4, 'position %s' % v['position_RFA'])
''')

BUGS = B
