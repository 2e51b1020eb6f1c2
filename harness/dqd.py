"""The double dot of the tutorial: a simulated experiment of the library, its evaluators, and three groups
(sensing dot, charge diagram, parameters) of which the two upper ones share their gradient estimators."""
from world import *
import qtune.basic_dqd as basic_dqd
from qtune.evaluator import (SensingDot1D, SensingDot2D, LeadTransition, InterDotTCByLineScan, NewLoadTime)

GATES = ['SA', 'T', 'SDB1', 'SDB2', 'SB', 'N', 'BA', 'BB', 'RFA', 'RFB']
TUNING = sorted(['BA', 'BB', 'N', 'SA', 'SB', 'T'])
CD = ['position_RFA', 'position_RFB']
PAR = ['parameter_tunnel_coupling', 'parameter_time_load']


class DqdExperiment(basic_dqd.TestExperiment):
    """records what is asked of it"""

    def __init__(self, voltages, measurements, simulators):
        super().__init__(initial_voltages=voltages, measurements=measurements, simulator_dict=simulators)
        self.gates = list(voltages.index)
        self.known = tuple(measurements)
        self.hidden = set()
        self.values = {}

    @property
    def v(self):
        return self._state()

    def _state(self):
        return basic_dqd.TestExperiment.read_gate_voltages(self)

    def read_gate_voltages(self):
        if LOG.out.get('read') == 'raise':
            raise Injected('read')
        return self._state()[[g for g in sorted(self.gates) if g not in self.hidden]].copy()

    def set_gate_voltages(self, new_gate_voltages):
        # evaluators shift voltages and restore them
        call = dict(k='shift' if LOG.judging else 'set', g=0, v=vec(new_gate_voltages, self.gates), ps=[], r='ok', sg=[],
                    x=extra(new_gate_voltages, self.gates))
        LOG.calls.append(call)
        if LOG.out.get('set') == 'raise':
            call['r'] = 'raise'
            raise Injected('set')
        return super().set_gate_voltages(new_gate_voltages)

    def measure(self, measurement):
        LOG.calls.append(dict(k='evaluate', name=measurement.name, g=0, v=[], ps=[], r='ok', sg=[], x=0))
        if LOG.out.get('evaluate') in ('raise', measurement.name):
            raise Injected('evaluate')
        # measurements of reloaded evaluators are other objects
        known = [m for m in self.known if m.name == measurement.name and
                 all(m.options[o] == x for o, x in measurement.options.items() if o != 'center')]
        hidden, self.hidden, out = self.hidden, set(), LOG.out
        LOG.out = {}
        try:
            return super().measure(known[0])
        finally:
            self.hidden, LOG.out = hidden, out

    def put(self, new):
        """somebody turns the knobs"""
        super().set_gate_voltages(pd.Series(new, dtype=float))

    def clone(self):
        return DqdExperiment(self._state().copy()[self.gates], self.known, self.simulator_dict)


def make_dqd(rng, storage=None, rec=True, shared=True, jitter=1.):
    w = World()
    LOG.clear()
    Sub = RecSubsetTuner if rec else SubsetTuner
    Sen = RecSensingTuner if rec else SensingDotTuner
    sim = basic_dqd.Simulator
    load, detune = Measurement('load_scan'), Measurement(
        'detune_scan', center=0., range=2e-3, N_points=100, ramptime=.02, N_average=10, AWGorDecaDAC='AWG')
    s1 = Measurement('line_scan', center=0., range=4e-3, gate='SDB2', N_points=1280, ramptime=.0005, N_average=1,
                     AWGorDecaDAC='DecaDAC')
    s2 = Measurement('ss2d', center=[0, 0], gate1='SDB1', gate2='SDB2', range=15e-3, n_lines=20, n_points=104)
    ra, rb = [Measurement('line_scan', center=0., range=4e-3, gate=g, N_points=1280, ramptime=.0005, N_average=3,
                          AWGorDecaDAC='DecaDAC') for g in ('RFA', 'RFB')]
    v0 = pd.Series(dict(SA=-3., T=-1., SDB1=0., SDB2=0., SB=-2., N=0., BA=-4., BB=-2., RFA=0., RFB=0.))[GATES]
    for g in TUNING:
        v0[g] += jitter * rng.randint(-8, 8) / 64
    w.exp = exp = DqdExperiment(v0, (detune, load, s1, s2, ra, rb), {
        id(detune): sim(basic_dqd.detune_simulation, central_upper_gate='T', central_lower_gate='N',
                        left_gate='SB', right_gate='SA'),
        id(load): sim(basic_dqd.load_simulation, gate1='T', gate2='SA'),
        id(s1): sim(basic_dqd.ss1d_simulation),
        id(s2): sim(basic_dqd.ss2d_simulation, gate1='SDB1', gate2='SDB2'),
        id(ra): sim(basic_dqd.transition_simulation, gate_lead='SA', gate_opposite='BA'),
        id(rb): sim(basic_dqd.transition_simulation, gate_lead='SB', gate_opposite='BB')})
    w.gates = GATES
    sensing = ['current_signal', 'optimal_signal', 'position_SDB2', 'position_SDB1']
    ss_target = make_target(
        minimum=pd.Series([2e-3, -np.inf, -np.inf], index=sensing[:3]),
        cost_threshold=pd.Series([-np.inf, 2e-3, -np.inf], index=sensing[:3]),
        rescaling_factor=pd.Series(1., index=sensing))
    ss = Sen(cheap_evaluators=[SensingDot1D(exp, measurements=(s1,), parameters=(
                 'position_SDB2', 'current_signal', 'optimal_signal'), name='SensingDot1D')],
             expensive_evaluators=[SensingDot2D(exp, measurements=(s2,), parameters=('position_SDB1', 'position_SDB2'),
                                                name='SensingDot2D')],
             gates=['SDB1', 'SDB2'],
             solver=ForwardingSolver(target=ss_target, values_to_position=pd.Series(
                 ['SDB1', 'SDB2'], index=['position_SDB1', 'position_SDB2']),
                 current_position=exp.read_gate_voltages()))
    volts = exp.read_gate_voltages()[TUNING]

    def estimator(noise):
        kw = dict(process_noise=1e-2 * np.eye(6)) if noise else {}
        return KalmanGradientEstimator(KalmanGradient(n_pos_dim=6, n_values=1, initial_gradient=None,
                                                      initial_covariance_matrix=1e4 * np.eye(6), **kw),
                                       current_position=volts.copy(), current_value=1., maximum_covariance=1.,
                                       epsilon=.1)
    ests = [estimator(True), estimator(True), estimator(False), estimator(False)]
    other = ests if shared else [estimator(True), estimator(True), estimator(False), estimator(False)]
    names = CD + PAR
    rf = pd.Series([1e-3, 1e-3, 1e-4, 10.], index=names)
    cd_target = make_target(desired=pd.Series([rng.randint(-8, 8) / 64, rng.randint(-8, 8) / 64, np.nan, np.nan], names),
                            tolerance=pd.Series([.05, .05, np.nan, np.nan], names), rescaling_factor=rf)
    par_target = make_target(desired=pd.Series([np.nan, np.nan, 2.2, 1.55], names),
                             tolerance=pd.Series([np.nan, np.nan, .05, .5], names), rescaling_factor=rf)
    cd = Sub([LeadTransition(exp, shifting_gates=('RFB',), sweeping_gates=('RFA',), parameters=('position_RFA',),
                             measurements=(ra,), name='LeadTransitionRFA'),
              LeadTransition(exp, shifting_gates=('RFA',), sweeping_gates=('RFB',), parameters=('position_RFB',),
                             measurements=(rb,), name='LeadTransitionRFB')],
             TUNING, solver=NewtonSolver(target=cd_target, current_position=volts.copy(), gradient_estimators=ests),
             maximal_step_size=.5, maximal_step_number=rng.choice([1, 1, 2]))
    par = Sub([InterDotTCByLineScan(experiment=exp, measurements=(detune,)),
               NewLoadTime(experiment=exp, measurements=(load,))],
              TUNING, solver=NewtonSolver(target=par_target, current_position=volts.copy(), gradient_estimators=other),
              maximal_step_size=.5, maximal_step_number=1)
    w.groups = [dict(kind='sensing', params=sensing, gates=['SDB1', 'SDB2'], cheap=['current_signal'], expensive=[]),
                dict(kind='kalman', params=CD, gates=TUNING), dict(kind='kalman', params=PAR, gates=TUNING)]
    w.params = sensing + CD + PAR
    w.at = Autotuner(exp, [ss, cd, par], hdf5_storage_path=storage, append_time_to_path=False)
    use_world(w.at, w.gates, w.params)
    return w
