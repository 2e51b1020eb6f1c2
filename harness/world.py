"""Simulated experiments, scripted and recorded tuners used by several drivers."""
from common import *
from qtune.experiment import Experiment, Measurement
from qtune.evaluator import Evaluator
from qtune.parameter_tuner import ParameterTuner, SubsetTuner, SensingDotTuner
from qtune.solver import Solver, NewtonSolver, ForwardingSolver, NelderMeadSolver, make_target
from qtune.gradient import (GradientEstimator, FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.autotuner import Autotuner


class Injected(RuntimeError):
    """the error injected by the driver"""


class Log:
    def __init__(self):
        self.calls = []
        self.out = {}
        self.judging = False

    def clear(self, **out):
        self.calls = []
        self.out = out


LOG = Log()


class SimExperiment(Experiment):
    """voltages in memory; sets only multiples of `quantum`"""

    def __init__(self, gates, values, quantum=None, model=None):
        self.gates = list(gates)
        self.v = pd.Series(np.array(values, dtype=float), index=self.gates)
        self.quantum = quantum
        self.model = model or {}
        self.hidden = set()
        self.values = {}
        self.functions = {}
        self.fail_read = False
        self.n_eval = 0
        self.log = LOG

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.gates)

    def read_gate_voltages(self):
        if self.log.out.get('read') == 'raise':
            raise Injected('read')
        return self.v[[g for g in self.gates if g not in self.hidden]].copy()

    def set_gate_voltages(self, new_gate_voltages):
        new = new_gate_voltages
        call = dict(k='set', g=0, v=vec(new, self.gates), ps=[], r='ok', sg=[], x=extra(new, self.gates))
        self.log.calls.append(call)
        if self.log.out.get('set') == 'raise':
            call['r'] = 'raise'
            raise Injected('set')
        for g in new.index:
            x = float(new[g])
            if self.quantum:
                x = round(x / self.quantum) * self.quantum
            self.v[g] = x
        return self.v.copy()

    def measure(self, measurement):
        return np.zeros(3)

    # values of parameters -------------------------------------------------------------------------------------
    def value(self, parameter):
        """(value, variance) of a parameter at the present voltages"""
        if parameter in self.functions:
            return self.functions[parameter](self.v), .0625
        if parameter in self.values:
            return self.values[parameter]
        p0, row, var = self.model[parameter]
        return p0 + sum(row[g] * self.v[g] for g in row), var


class ScriptEvaluator(Evaluator):
    """returns what the experiment has for the declared parameters"""

    def __init__(self, experiment, parameters, name='ScriptEvaluator', measurements=(), raw_x_data=None,
                 raw_y_data=None):
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)

    def evaluate(self):
        LOG.calls.append(dict(k='evaluate', name=self.name, g=0, v=[], ps=[], r='ok', sg=[], x=0))
        fail = LOG.out.get('evaluate')
        if fail == 'raise' or fail == self.name:
            raise Injected('evaluate')
        data = [self.experiment.value(p) for p in self.parameters]
        self.experiment.n_eval += 1
        self._raw_x_data = (np.arange(2.),)
        self._raw_y_data = (np.array([float(self.experiment.n_eval), 1.]),)
        return (pd.Series([float(d[0]) for d in data], index=list(self.parameters)),
                pd.Series([float(d[1]) for d in data], index=list(self.parameters)))

    def to_hdf5(self):
        return dict(experiment=self.experiment, parameters=self.parameters, name=self.name,
                    measurements=self.measurements, raw_x_data=self._raw_x_data, raw_y_data=self._raw_y_data)


class PlainSolver(Solver):
    """a solver that only knows target and position"""

    def __init__(self, target, current_position):
        self._target = target
        self._current_position = current_position

    def suggest_next_position(self, tuned_parameters=None):
        raise NotImplementedError()

    def update_after_step(self, position, values, variances):
        raise NotImplementedError()

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position)


class _RecordCalls:
    """records the calls of the autotuner; mixed into tuners"""

    def _gates(self):
        return LOG.gates

    def is_tuned(self, voltages):
        call = dict(k='judge', g=LOG.number(self), v=vec(voltages, self._gates()), ps=[], r='raise', sg=[],
                    x=extra(voltages, self._gates()))
        LOG.calls.append(call)
        LOG.judging = True
        try:
            res = super().is_tuned(voltages)
        finally:
            LOG.judging = False
        call['r'] = {1: 'tuned', 0: 'not', 7: 'odd'}[as_bool(res)]
        return res

    def get_next_voltages(self, tuned_parameters=None):
        ps = sorted(LOG.params.index(p) + 1 if p in LOG.params else 0 for p in (tuned_parameters or ()))
        call = dict(k='next', g=LOG.number(self), v=[], ps=ps, r='raise', sg=[], x=0)
        LOG.calls.append(call)
        res = super().get_next_voltages(tuned_parameters=tuned_parameters)
        call['r'] = 'ok'
        call['sg'] = vec(res, self._gates())
        call['x'] = extra(res, self._gates())
        return res

    def restart(self, new_voltages):
        LOG.calls.append(dict(k='restart', g=LOG.number(self), v=vec(new_voltages, self._gates()), ps=[], r='ok',
                              sg=[], x=0))
        return super().restart(new_voltages)


class _Script(ParameterTuner):
    def is_tuned(self, voltages):
        self.last_voltages = voltages
        out = LOG.out.get('judge', 'not')
        if out == 'raise':
            raise Injected('judge')
        if out == 'tuned':
            self.tuned_voltages.append(voltages)
            return True
        return False

    def get_next_voltages(self, tuned_parameters=None):
        out = LOG.out.get('next')
        if isinstance(out, str):
            raise Injected('next')
        return out

    def to_hdf5(self):
        return super().to_hdf5()


class ScriptTuner(_RecordCalls, _Script):
    def to_hdf5(self):
        return super().to_hdf5()


class RecSubsetTuner(_RecordCalls, SubsetTuner):
    def to_hdf5(self):
        return super().to_hdf5()


class RecSensingTuner(_RecordCalls, SensingDotTuner):
    def to_hdf5(self):
        return super().to_hdf5()


def use_world(autotuner, gates, params):
    """tell the log how groups, gates and parameters are numbered"""
    LOG.gates = list(gates)
    LOG.params = list(params)
    LOG.autotuner = autotuner

    def number(tuner):
        for i, t in enumerate(LOG.autotuner.tuning_hierarchy):
            if t is tuner:
                return i + 1
        return 0
    LOG.number = number


def attempt(func, *args, **kwargs):
    """('none' | 'injected' | 'raised', exception)"""
    try:
        func(*args, **kwargs)
        return 'none', None
    except Injected as e:
        return 'injected', e
    except Exception as e:
        return 'raised', e


# ---------------------------------------------------------------------------------------------------------------
# random tunings built from library components

class World:
    """an autotuner with everything around it"""

    def __init__(self):
        self.groups = []

    @property
    def hierarchy(self):
        return self.at.tuning_hierarchy


CATEGORIES = ['desired', 'minimum', 'maximum', 'tolerance', 'cost_threshold', 'rescaling_factor']


def dy(rng, lo=-2, hi=2, den=8):
    """random dyadic number"""
    return rng.randint(lo * den, hi * den) / den


def build_gradient(rng, kind, gates, row, position):
    if kind == 'kalman':
        return KalmanGradientEstimator(
            KalmanGradient(n_pos_dim=len(gates), n_values=1, initial_gradient=[row[g] for g in gates],
                           initial_covariance_matrix=np.eye(len(gates)) * .0625, alpha=rng.choice([1., 1.0625])),
            current_position=position.copy(), maximum_covariance=rng.choice([.03125, .125, 1.]), epsilon=.25)
    if kind == 'fd':
        return FiniteDifferencesGradientEstimator(current_position=position.copy(), epsilon=.25, symmetric=False)
    if kind == 'sym':
        return FiniteDifferencesGradientEstimator(current_position=position.copy(), epsilon=.25, symmetric=True)
    if kind == 'self':
        return SelfInitializingKalmanEstimator.from_scratch(current_position=position.copy(),
                                                            epsilon=pd.Series(.25, index=gates),
                                                            maximum_covariance=1., symmetric=rng.random() < .3)
    if kind == 'exact':
        return KalmanGradientEstimator(
            KalmanGradient(n_pos_dim=len(gates), n_values=1, initial_gradient=[row[g] for g in gates],
                           initial_covariance_matrix=np.eye(len(gates)) * .0009765625),
            current_position=position.copy(), maximum_covariance=1., epsilon=.25)
    raise KeyError(kind)


def make_world(rng, kinds=None, storage=None, n_groups=None, quantum=None, gates=None, rescale=True,
               nan_desired=True, rec=True, names=None, settled=False, separate=False,
               stepwise=False, cross=0.):
    """names: other names for the parameters; settled: all parameters are functions of the voltages;
    separate: every group has gates of its own; stepwise: most suggestions need several steps;
    cross: parameters of lower groups depend on the gates of higher groups, too"""
    w = World()
    pool = list(names or ())

    def named(name):
        return pool.pop() if pool else name
    LOG.clear()
    Sub = RecSubsetTuner if rec else SubsetTuner
    Sen = RecSensingTuner if rec else SensingDotTuner
    gates = list(gates or rng.choice([['B', 'A'], ['A', 'B', 'C'], ['T', 'N', 'S', 'G']]))
    w.gates = gates
    w.exp = SimExperiment(gates, [dy(rng) for _ in gates], quantum=quantum)
    w.params = []
    hierarchy = []
    n_groups = n_groups or rng.choice([1, 2, 2, 3])
    kinds = list(kinds or ['exact', 'exact', 'kalman', 'fd', 'sym', 'self', 'sensing', 'neldermead'])
    free = rng.sample(gates, len(gates))

    def choose(lo, hi):
        if not separate:
            return rng.sample(gates, rng.randint(lo, hi))
        n = min(rng.randint(lo, hi), len(free) - (n_groups - 1 - gi))
        return [free.pop() for _ in range(n)]
    for gi in range(n_groups):
        kind = rng.choice(kinds)
        volts = w.exp.v
        if kind == 'sensing':
            cheap = [named('s%d' % gi)]
            own = choose(1, 2)
            exp_p = [named(n) for n in ['x%d' % gi, 'y%d' % gi][:len(own)]]
            g = dict(kind=kind, cheap=cheap, expensive=exp_p, gates=own, params=cheap + exp_p)
            for p in cheap:
                w.exp.values[p] = (dy(rng, 0, 4), .0625)
            for p in exp_p:
                w.exp.values[p] = (dy(rng), .0625)
            if settled:
                # the signal is best where the expensive measurement says
                best = {x: w.exp.values[p][0] for p, x in zip(exp_p, own)}
                del w.exp.values[cheap[0]]
                w.exp.functions[cheap[0]] = lambda v, best=best: 8. - 16. * sum(abs(v[x] - b) for x, b in best.items())
            index = sorted(cheap + exp_p)
            target = make_target(desired=pd.Series(np.nan, index=index),
                                 minimum=pd.Series([2. if p in cheap else np.nan for p in index], index=index),
                                 cost_threshold=pd.Series([(2. if settled else 1.) if p in cheap else np.nan for p in index], index=index),
                                 rescaling_factor=pd.Series([rng.choice([1., 2., .5]) if rescale else 1.
                                                             for _ in index], index=index))
            solver = ForwardingSolver(target=target,
                                      values_to_position=pd.Series(own, index=exp_p),
                                      current_position=volts[own].copy())
            tuner = Sen(cheap_evaluators=[ScriptEvaluator(w.exp, cheap, 'cheap%d' % gi)],
                        expensive_evaluators=[ScriptEvaluator(w.exp, exp_p, 'expensive%d' % gi)],
                        gates=own, solver=solver,
                        last_voltage=volts.copy() if rng.random() < .5 else None)
        else:
            own = choose(1, len(gates))
            n = rng.randint(1, min(2, len(own)))
            ps = [named('p%d%s' % (gi, c)) for c in rng.sample('abz', n)]
            rows = []
            for i, p in enumerate(ps):
                row = {x: rng.choice([-2., -1., 1., 2., .5]) if j == i else rng.choice([0., 0., .5, -.5])
                       for j, x in enumerate(own)}
                rows.append(row)
                w.exp.model[p] = (dy(rng), row, rng.choice([.0625, .25]))
            rf = {p: rng.choice([1., 1., 2., .5, 4.]) if rescale else 1. for p in ps}
            desired = pd.Series([dy(rng) for p in ps], index=ps)
            if nan_desired and len(ps) > 1 and rng.random() < .3 and kind != 'neldermead':
                desired[ps[-1]] = np.nan
            tolerance = pd.Series(rng.choice([.25, .0625]), index=ps)
            if nan_desired and len(ps) > 1 and rng.random() < .15:
                # this parameter is always in tolerance
                tolerance[ps[0]] = np.nan
            target = make_target(desired=desired, tolerance=tolerance,
                                 rescaling_factor=pd.Series(rf))
            pos = volts[own].copy()
            if kind == 'neldermead':
                vals = pd.Series([w.exp.value(p)[0] / rf[p] for p in ps], index=ps)
                solver = NelderMeadSolver.from_scratch(target=target, span=pd.Series(.5, index=own),
                                                       current_position=pos, current_values=vals)
            else:
                # the gradient of a parameter without desired value is not tracked and has to be known
                ests = [build_gradient(rng, kind if desired[p] == desired[p] else 'exact', own, {k: v / rf[p] for k, v in row.items()}, volts[own])
                        for p, row in zip(ps, rows)]
                solver = NewtonSolver(target=target, gradient_estimators=ests, current_position=pos)
            cut = rng.randint(0, len(ps))
            evs = [ScriptEvaluator(w.exp, part, 'eval%d_%d' % (gi, i))
                   for i, part in enumerate([ps[:cut], ps[cut:]]) if part]
            if nan_desired and rng.random() < .2:
                extra_p = 'e%d' % gi
                w.exp.values[extra_p] = (dy(rng), .0625)
                evs.append(ScriptEvaluator(w.exp, [extra_p], 'extra%d' % gi))
            g = dict(kind=kind, params=ps, gates=own, desired=desired)
            tuner = Sub(evs, own, solver=solver,
                        maximal_step_size=.25 if stepwise else rng.choice([np.nan, .5, 1. if settled else .25]),
                        maximal_step_number=rng.choice([2, 3, 4] if stepwise else [1, 1, 2, 3]),
                        last_voltage=volts.copy() if rng.random() < .5 else None)
        w.groups.append(g)
        w.params += g['params']
        hierarchy.append(tuner)
    for gi, g in enumerate(w.groups):
        for p in g['params'] if cross else ():
            if p in w.exp.model:
                above = {x for other in w.groups[gi + 1:] for x in other['gates']} - set(g['gates'])
                c, row, var = w.exp.model[p]
                row = {**row, **{x: rng.choice([-cross, cross, 2 * cross]) for x in sorted(above)}}
                w.exp.model[p] = (c, row, var)
    w.at = Autotuner(w.exp, hierarchy, hdf5_storage_path=storage, append_time_to_path=False)
    use_world(w.at, w.gates, w.params)
    return w


def targets_of(at, params):
    """[[ [parameter number, [six entries]] per row ] per group]"""
    return [[[params.index(p) + 1 if p in params else 0, [enc(t.target.loc[p, c]) for c in CATEGORIES]]
             for p in t.target.index] for t in at.tuning_hierarchy]


def members_of(at, gates):
    """voltages known to every member of the autotuner"""
    out = []
    for t in at.tuning_hierarchy:
        out.append(vec(t.last_voltages, gates))
        out.append(vec(t.solver.current_position, gates))
        for e in getattr(t.solver, 'gradient_estimators', ()):
            subs = [getattr(e, 'finite_difference_estimator', None), getattr(e, 'kalman_estimator', None)]
            for s in ([e] if subs == [None, None] else [e] + [s for s in subs if s is not None]):
                out.append(vec(s.current_position, gates))
    return out


def books_of(at, gates):
    """records of passed and measured voltages of every group"""
    out = []
    for t in at.tuning_hierarchy:
        d = t.to_hdf5()
        out.append([[vec(v, gates) for v in d['tuned_voltages']],
                    [vec(v, gates) for v in d['evaluatable_voltages']]])
    return out


def loop_state(at, exp, gates):
    p = at.voltages_to_set
    return dict(idx=int(at.current_tuner_index), status=as_bool(at.current_tuner_status),
                hasPend=int(p is not None), pend=vec(p, gates) if p is not None else [],
                complete=as_bool(at.is_tuning_complete()), volts=[enc(exp.v[g]) for g in gates])


def removable_of(w):
    """per group the categories of which entries may be removed"""
    return [('desired', 'tolerance') if g['kind'] in ('exact', 'kalman') else
            () if g['kind'] == 'sensing' else ('tolerance',) for g in w.groups]


def random_changes(rng, at, known=None):
    """changes of entries of the targets; entries may be removed or given for the first time
    known: per group the categories which may be removed"""
    changes = []
    for i, t in enumerate(at.tuning_hierarchy[:rng.randint(0, len(at.tuning_hierarchy))]):
        d = {}
        used = [c for c in ('desired', 'tolerance', 'minimum', 'cost_threshold') if not t.target[c].isna().all()]
        for c in rng.sample(used, rng.randint(0, len(used))):
            removable = c in ('desired', 'tolerance') if known is None else c in known[i]
            names = [p for p in t.target.index if not math.isnan(t.target.loc[p, c]) or c in ('desired', 'tolerance')]
            names = rng.sample(names, rng.randint(0, len(names)))
            ser = pd.Series([dy(rng) if c == 'desired' else rng.choice([.125, .5, 1., 2.]) for _ in names],
                            index=names, dtype=float)
            if removable and len(ser) and rng.random() < .4:
                p = rng.choice(names)
                # at least one remains
                if (t.target[c].drop(p).notna() & ~t.target.index.drop(p).isin(names)).any() or len(names) > 1:
                    ser[p] = np.nan
            d[c] = ser
        changes.append(d)
    return changes
