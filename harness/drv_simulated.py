"""Driver of the simulated experiment: paths through the state graph of SimulatedMC, random use, and the data of
the library's simulators."""
from common import *
from world import Injected, attempt, dy
import qtune.basic_dqd as basic
from qtune.experiment import Measurement
from qtune.evaluator import LeadTransition, NewLoadTime, InterDotTCByLineScan, SensingDot1D

CALLS = []
FAIL = []


class Lab:
    """experiments built from the same voltages, with simulators that record what they are asked"""

    def __init__(self, rec, rng, name, gates, given, own, sim):
        self.gates, self.rng, self.rec = gates, rng, rec
        self.given = pd.Series(given, index=gates)
        self.types = type(given[0])
        n = max([m for o in own for m in o] + [len(s) for s in sim])
        # the measurements are only told apart by their identity
        self.ms = [Measurement('line_scan', center=0., gate='RFA') for _ in range(n + 1)]
        self.snap = [(m.name, dict(m.options)) for m in self.ms]
        self.own, self.sim = own, sim
        used = sorted({k for s in sim for k in s if k})
        self.sims = {k: basic.Simulator(self.answer, number=k) for k in used}
        self.exps = [None] * len(own)
        self.t = rec.new(name, dict(sim=[list(s) for s in sim], own=[list(o) for o in own]),
                         dict(given=vec(self.given, gates)))

    def answer(self, voltages, measurement, options):
        number = [i for i, m in enumerate(self.ms) if m is measurement]
        CALLS.append(dict(sim=options['number'], m=number[0] + 1 if number else 0, v=vec(voltages, self.gates)))
        try:
            voltages[self.gates[0]] += 1.
        except Exception:
            pass
        if FAIL:
            raise Injected('simulator')
        self.last = np.array([float(len(CALLS)), self.rng.random()])
        return self.last

    def all(self):
        return [[] if e is None else vec(e.read_gate_voltages(), self.gates) for e in self.exps]

    def ev(self, op, x, exc, **more):
        self.t.ev(op, x=x + 1, exc=exc, all=self.all(), given=vec(self.given, self.gates),
                  options=int([(m.name, m.options) for m in self.ms] == self.snap), **more)

    def build(self, x):
        own = tuple(self.ms[m - 1] for m in self.own[x])
        sims = {id(self.ms[m]): self.sims[k] for m, k in enumerate(self.sim[x]) if k}
        got = []
        exc, e = attempt(lambda: got.append(basic.TestExperiment(self.given, own, sims)))
        names, ms = [], []
        if got:
            self.exps[x] = got[0]
            try:
                names = sorted(self.gates.index(g) + 1 for g in got[0].gate_voltage_names)
                ms = [1 + [m is o for m in self.ms].index(True) for o in got[0].measurements]
            except Exception as err:
                exc = repr(err)
        self.ev('build', x, exc, names=names, ms=ms)
        return bool(got)

    def read(self, x):
        got = []
        exc, e = attempt(lambda: got.append(self.exps[x].read_gate_voltages()))
        before = vec(got[0], self.gates) if got else []
        more = extra(got[0], self.gates) if got else 0
        if got:
            # whoever reads may do with it what he wants
            got[0][self.rng.choice(self.gates)] += 3.
        self.ev('read', x, exc, got=before, more=more)

    def set(self, x, req):
        """req: dict"""
        names = list(req)
        self.rng.shuffle(names)
        new = pd.Series([req[g] for g in names], index=names, dtype=float)
        got = []
        exc, e = attempt(lambda: got.append(self.exps[x].set_gate_voltages(new)))
        ret = vec(got[0], self.gates) if got else []
        after = vec(new, self.gates)
        if got and self.rng.random() < .5:
            new[:] = 99.
        self.ev('set', x, exc, req=vec(pd.Series(req, dtype=float), self.gates), ret=ret, after=after)

    def measure(self, x, m, fail=False):
        CALLS.clear()
        FAIL[:] = [1] if fail else []
        got = []
        exc, e = attempt(lambda: got.append(self.exps[x].measure(self.ms[m - 1])))
        FAIL.clear()
        known = m <= len(self.sim[x]) and self.sim[x][m - 1] != 0
        self.ev('measure', x, exc, m=m, fail=int(fail), known=int(known), calls=[dict(c) for c in CALLS],
                data=int(bool(got) and np.array_equal(got[0], self.last)))


def replay(rec, rng, graph, tier):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=12)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    rng.shuffle(paths)
    if tier == 'quick':
        paths = paths[:400]
    for k, (start, path) in enumerate(paths):
        gates = rng.choice([['B', 'A'], ['A', 'B']])
        lab = Lab(rec, rng, 'graph%d' % k, gates, [0., 1.], [(1, 2, 3), (1, 2, 3)], [(1, 2, 3), (2, 1, 3)])
        lab.build(0)
        lab.build(1)
        for _, _, node in path:
            op = nodes[node]['op'].strip('"').split('_')
            rec.count('replayed_steps')
            x = int(op[1]) - 1
            if op[0] == 'set':
                lab.set(x, {g: float(v) for g, v in zip(gates, op[2:]) if int(v) != MISS})
            else:
                lab.measure(x, int(op[2]))


def use(rec, rng, name, steps):
    gates = rng.sample(['B', 'A', 'SDB1', 'N', 'T 1', 'x'], rng.randint(1, 6))
    n = rng.randint(1, 5)
    exps = rng.randint(1, 3)
    k = rng.randint(1, 4)
    sim = [[rng.randint(1, k) if rng.random() < .93 else 0 for _ in range(n)] for _ in range(exps)]
    own = [sorted(rng.sample(range(1, n + 1), rng.randint(1, n))) for _ in range(exps)]
    for o in own:
        rng.shuffle(o)
    given = [dy(rng) for _ in gates]
    if rng.random() < .25:
        given = [int(v) for v in given]
    lab = Lab(rec, rng, name, gates, given, own, sim)
    lab.build(0)
    for _ in range(steps):
        x = rng.randrange(exps)
        if lab.exps[x] is None or rng.random() < .02 and vec(lab.exps[x].read_gate_voltages(), gates) == vec(lab.given, gates):
            lab.build(x)
            rec.count('built')
            continue
        y = rng.random()
        if y < .2:
            lab.read(x)
        elif y < .55:
            lab.set(x, {g: dy(rng) for g in rng.sample(gates, rng.randint(0, len(gates)))})
        else:
            lab.measure(x, rng.randint(1, n + 1), rng.random() < .15)
        rec.count('uses')


# --------------------------------------------------------------------------------------- simulators of the library
class One(basic.TestExperiment):
    pass


def samples(rng, n, k=12):
    return sorted(rng.sample(range(n), min(k, n)))


def data(rec, rng, name):
    gates = ['SA', 'T', 'SDB1', 'SDB2', 'SB', 'N', 'BA', 'BB', 'RFA', 'RFB']
    v = pd.Series({g: dy(rng) for g in gates})
    kind = rng.choice(['load', 'detune', 'transition', 'ss1d', 'ss2d'])
    n = rng.choice([100, 320, 1280, 101, 100., 64])
    c, r = rng.choice([0., 0., 1e-3, -.5e-3]), rng.choice([4e-3, 2e-3, 3e-3])
    t = rec.new(name, dict(sim=[[1]], own=[[1]]), dict(given=vec(v, gates)))
    found, truth, tol, ev = [], [], 0, None
    if kind == 'load':
        m = Measurement('load_scan')
        a, b = rng.sample(gates, 2)
        v[[a, b]] = [dy(rng) - 1, dy(rng) - 1]
        s = basic.Simulator(basic.load_simulation, gate1=a, gate2=b)
        tau = 15 + math.exp(-v[a] - v[b])
        size = [2, 100]
        want = lambda: [(0, i, math.exp(-5 * i / tau)) for i in samples(rng, 100)] + [(1, i, 5. * i) for i in samples(rng, 100)]
        scale = 1.
        if tau < 100:
            ev = lambda exp: NewLoadTime(experiment=exp, measurements=(m,))
            truth, unit, tol = [tau], 1., SC // 2
    elif kind == 'detune':
        m = Measurement('detune_scan', center=c, range=r, N_points=n, ramptime=.02, N_average=10, AWGorDecaDAC='AWG')
        u, lo, le, ri = rng.sample(gates, 4)
        s = basic.Simulator(basic.detune_simulation, central_upper_gate=u, central_lower_gate=lo, left_gate=le, right_gate=ri)
        width = (math.exp(v[u] - v[ri]) + math.exp(v[lo] - v[le]) + 190) * 1e-6
        x = np.linspace(c - r, c + r, int(n))
        size = [int(n)]
        want = lambda: [(i, math.tanh(x[i] / width)) for i in samples(rng, int(n))]
    elif kind == 'transition':
        m = Measurement('line_scan', center=c, range=r, gate='RFA', N_points=int(n), ramptime=.0005, N_average=3,
                        AWGorDecaDAC='DecaDAC')
        a, b = rng.sample(gates, 2)
        s = basic.Simulator(basic.transition_simulation, gate_lead=a, gate_opposite=b)
        center = (v[a] - v[b]) * 1e-3
        x = np.linspace(c - r, c + r, int(n))
        size = [int(n)]
        want = lambda: [(i, math.tanh((x[i] - center) / r * 5)) for i in samples(rng, int(n))]
        step = 2 * r / (n - 1)
        if abs(center - c) < .6 * r and n >= 300:
            ev = lambda exp: LeadTransition(exp, shifting_gates=('RFB',), sweeping_gates=('RFA',), measurements=(m,),
                                            parameters=('position_RFA',), transition_width=.05 * r)
            truth, unit, tol = [center], step, 12 * SC
    elif kind == 'ss1d':
        m = Measurement('line_scan', center=0., range=4e-3, gate='SDB2', N_points=1280, ramptime=.0005)
        s = basic.Simulator(basic.ss1d_simulation)
        v['SDB2'] /= 1024
        size = [1280]
        x = np.arange(1280) * (8e-3 / 1280) - 4e-3
        f = (1 + 1e3 * v['SDB1']) * (1 + v['SDB1'] - v['N'])
        want = lambda: [(i, f * math.exp(-.5 * (x[i] + v['SDB2']) ** 2 / 2e-6)) for i in samples(rng, 1280)]
    else:
        m = Measurement('ss2d', center=[0, 0], gate1='SDB1', gate2='SDB2', range=15e-3, n_lines=20, n_points=104)
        g1, g2 = rng.sample(gates, 2)
        v[[g1, g2]] = [dy(rng) / 512, dy(rng) / 512]
        s = basic.Simulator(basic.ss2d_simulation, gate1=g1, gate2=g2)
        size = [20, 104]
        a, b = 1e3 * v[g1], 1e3 * v[g2]
        xs, ys = np.linspace(b - 5, b + 5, 104), np.linspace(a - 5, a + 5, 20)
        want = lambda: [(j, i, (1 + ys[j]) * (1 - .1 * abs(xs[i] - b) - .1 * abs(ys[j] - a)) * math.sin(xs[i] + ys[j]))
                        for j in samples(rng, 20, 5) for i in samples(rng, 104, 5)]
    options = dict(m.options)
    exp = basic.TestExperiment(v, (m,), {id(m): s})
    got = []
    exc, e = attempt(lambda: got.append(exp.measure(m)))
    w = want()
    kept = int(m.options == options and vec(exp.read_gate_voltages(), gates) == vec(v, gates))
    if ev is not None and exc == 'none':
        def go():
            vals, _ = ev(exp).evaluate()
            found.append(enc(float(vals.values[0]) / unit))
        exc, e = attempt(go)
        truth = [enc(x / unit) for x in truth]
        rec.count('evaluated_' + kind)
    else:
        truth = []
    d = np.asarray(got[0]) if got else np.zeros(0)
    ok = list(d.shape) == size
    t.ev('data', exc=exc if e is None else repr(e), size=list(d.shape), wantsize=size, got=[enc(d[x[:-1]]) if ok else WRONG for x in w],
         want=[enc(x[-1]) for x in w], found=found, truth=truth, tol=tol, options=kept)
    rec.count('data_' + kind)


def run(rec, rng, tier, pid, graphs):
    for g in graphs:
        rec.guard('replay', replay, rec, rng, g, tier, pids='E05')
    q = tier == 'quick'
    for k in range(40 if q else 800):
        rec.guard('use%d' % k, use, rec, rng, 'use%d' % k, 30, pids='E05')
    for k in range(120 if q else 3000):
        rec.guard('data%d' % k, data, rec, rng, 'data%d' % k, pids='E05')


if __name__ == '__main__':
    driver_main(run)
