"""Driver of the evaluators: lead scans with failures in every call, evaluations of good, bad and missing data in any
order, repetitions, positions of features."""
import copy
import os
import shutil
import tempfile
import types

from canon import *
from world import *

sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'))

import matplotlib.pyplot as plt  # noqa: E402
from qtune.evaluator import (LeadTransition, SensingDot1D, SensingDot2D, InterDotTCByLineScan, NewLoadTime,  # noqa: E402
                             LeadTunnelTimePrefitVersion, LeadTunnelTimeByLeadScan, AveragingEvaluator)
from qtune.storage import to_hdf5, from_hdf5  # noqa: E402


class Bank(Experiment):
    """returns prepared data; every call may be made to fail"""

    def __init__(self, gates, values):
        self.v = pd.Series(np.array(values, dtype=float), index=list(gates))
        self.evaluator = None
        self.data = {}
        self.calls = []
        self.plan = {}        # (kind, how often it was called before) -> outcome
        self.n = {}
        self.before = None
        self.part = 0

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.v.index)

    def outcome(self, kind):
        k = self.n.get(kind, 0)
        self.n[kind] = k + 1
        return self.plan.get((kind, k), 'ok')

    def call(self, k, m, r, req=None):
        self.calls.append(dict(k=k, m=m, r=r, req=vec(req, self.v.index) if req is not None else [],
                               volts=vec(self.v, self.v.index)))

    def read_gate_voltages(self):
        if self.outcome('read') != 'ok':
            self.call('read', 0, 'raise')
            raise Injected('read')
        self.call('read', 0, 'ok')
        return self.v.copy()

    def set_gate_voltages(self, new):
        asked = self.v.copy()
        for g in new.index:
            asked[g] = new[g]
        back = vec(asked, self.v.index) == vec(self.before, self.v.index)
        how = self.outcome('restore' if back else 'shift')
        if how == 'ok':
            self.v = asked.copy()
        elif how == 'part':
            for i, g in enumerate(self.v.index):
                if self.part >> i & 1:
                    self.v[g] = asked[g]
        self.call('set', 0, 'ok' if how == 'ok' else 'raise', asked)
        if how != 'ok':
            raise Injected('set')
        return self.v.copy()

    def number(self, measurement):
        for i, m in enumerate(self.evaluator.measurements):
            if m is measurement:
                return i + 1
        return 0

    def measure(self, measurement):
        m = self.number(measurement)
        if self.outcome('measure') != 'ok':
            self.call('measure', m, 'raise')
            raise Injected('measure')
        self.call('measure', m, 'ok')
        d = self.data[m]
        # the data belongs to the evaluator; what was returned is not used again
        return d.copy() if isinstance(d, np.ndarray) else d


def same(a, b):
    """equal data"""
    try:
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all((a == b) | (np.isclose(a, b, rtol=1e-12, atol=0)) | ((a != a) & (b != b))))
    except Exception:
        return False


class Desk:
    """runs evaluations and records them"""

    def __init__(self, rec, name, exp, ev, declared, unit=1.):
        self.rec, self.exp, self.ev = rec, exp, ev
        self.declared = list(declared)
        self.unit = unit
        self.t = rec.new(name, dict(none=0))
        exp.evaluator = ev

    def run(self, op, kind, given, want=(), tol=0, wantvar=(), stored=None, fits=None, plan=None, **more):
        exp, ev = self.exp, self.ev
        exp.data, exp.calls, exp.n, exp.plan = given, [], {}, dict(plan or {})
        exp.before = exp.v.copy()
        res = []
        exc, e = attempt(lambda: res.append(ev.evaluate()))
        plt.close('all')
        val, var, extras = [], [], 0
        if res:
            a, b = res[0]
            val = vec(a / self.unit, self.declared)
            var = vec(b if not wantvar else b / 1., self.declared)
            extras = extra(a, self.declared) + extra(b, self.declared) + abs(len(a) - len(set(a.index))) + \
                abs(len(b) - len(set(b.index)))
        fit, pos = [], []
        if fits is not None and res:
            f = ev.fit_results
            fit = vec(f / self.unit, list(f.index)) if f is not None else [WRONG]
            pos = [list(f.index).index(x) + 1 if x in f.index else 0 for x in fits]
        ok = 2
        if stored is not None and res:
            ok = int(same(ev.raw_data[0], stored[0]) and same(ev.raw_data[1], stored[1]))
        self.t.ev(op, exc=exc if e is None or exc == 'injected' else repr(e), kind=kind, np=len(self.declared), val=val, var=var,
                  more=extras, want=list(want), tol=tol, wantvar=list(wantvar), meas=[c['m'] for c in exp.calls if c['k'] == 'measure'],
                  nm=len(ev.measurements), stored=ok, fit=fit, fits=pos, before=vec(exp.before, exp.v.index),
                  after=vec(exp.v, exp.v.index), calls=exp.calls, **more)
        self.rec.count(op + ' ' + kind)
        return res[0] if res else None

    def reload(self, tmp):
        """the evaluator is stored and read again"""
        path = os.path.join(tmp, 'evaluator.hdf5')
        if os.path.exists(path):
            os.remove(path)
        got = []

        def go():
            to_hdf5(path, 'evaluator', self.ev, {'experiment': self.exp})
            got.append(from_hdf5(path, {'experiment': self.exp})['evaluator'])
        a = digest(self.ev, {'experiment': self.exp})
        exc, e = attempt(go)
        b = digest(got[0], {'experiment': self.exp}) if got else ''
        self.t.ev('reload', exc=exc if e is None else repr(e), a=a, b=b)
        if got:
            self.ev = self.exp.evaluator = got[0]
        self.rec.count('reloaded')


# -------------------------------------------------------------------------------------------------- lead scans
GATES = ['RFA', 'RFB', 'S A', 'N']


def lead_data(rng, measurement, width):
    o = measurement.options
    n = o['N_points']
    i = rng.randint(n // 4, 3 * n // 4)
    j = np.arange(n)
    y = rng.choice([-1., 1.]) * np.tanh((j - i) / rng.choice([.5, 1., 3.])) * rng.choice([.5, 1., 4.])
    y += rng.choice([0., .5]) + rng.choice([0., .002, -.002]) * j / n
    if rng.random() < .4:
        y = np.array([y * f for f in (1., .75, 1.25)])
        if rng.random() < .6:
            # disturbances of single repetitions that are not seen in the mean
            hit, k = rng.sample(range(3), 2), rng.choice([q for q in range(n // 8, 7 * n // 8) if abs(q - i) > n // 8])
            step = rng.choice([-2., 2.]) * np.ptp(y) * (j >= k)
            y[hit[0]] += step
            y[hit[1]] -= step
    return y, i


def lead_bench(rec, rng, name, sg, same_scans=False):
    gates = rng.sample(GATES, rng.randint(max(2, len(set(sg))), 4))
    gates = [g for g in gates]
    used = [gates[g - 1] for g in sg]
    # every gate is swept while another one is shifted
    swept = list(used)
    if rng.random() < .7:
        swept = used[1:] + used[:1] if len(set(used)) > 1 and rng.random() < .6 else rng.sample(gates, len(gates))[:1] * len(used)
    exp = Bank(gates, [dy(rng) for _ in gates])
    w = rng.choice([.25, .0625, 1., -.125])
    ms, scans = [], []
    base = (rng.choice([0., .5]), rng.choice([.25, 1.]), rng.choice([64, 96, 160]))
    for g in swept:
        c, r, n = base if same_scans else (rng.choice([0., .5, -1.25]), rng.choice([.25, 1., .5]), rng.choice([64, 96, 160]))
        ms.append(Measurement('line_scan', center=c, range=r, gate=g, N_points=n, ramptime=.001, N_average=7))
        scans.append((c, r, n))
    # the same width in volts covers at least two points of each scan
    tw = max(3 * r / n for c, r, n in scans) * rng.choice([1., 1., 1.5])
    if any(tw / r > .15 for c, r, n in scans):
        return lead_bench(rec, rng, name, sg, True)
    declared = list(dict.fromkeys('position_' + g for g in swept))
    ev = LeadTransition(exp, shifting_gates=used, sweeping_gates=swept, charge_diagram_width=w, measurements=ms,
                        parameters=tuple(declared), transition_width=tw)
    d = Desk(rec, name, exp, ev, declared)
    d.sg, d.w, d.swept, d.scans, d.tw = [gates.index(g) + 1 for g in used], w, swept, scans, tw
    return d


def lead_run(rng, d, plan):
    ms = d.ev.measurements
    data, centers = {}, []
    for i, m in enumerate(ms):
        data[i + 1], c = lead_data(rng, m, d.tw)
        centers.append(c)
    kind = 'raise' if plan else 'good'
    xs = [np.linspace(c - r, c + r, n) for c, r, n in d.scans]
    ys = [y.mean(0) if y.ndim == 2 else y for y in (data[i + 1] for i in range(len(ms)))]
    # the last of the scans with the same gate counts
    last = {'position_' + g: i for i, g in enumerate(d.swept)}
    res = None

    def judge():
        return [last[p] for p in d.declared]
    order = judge()
    out = d.run('scan', kind, data, stored=(xs, ys), plan=plan, sg=d.sg, w=enc(d.w), pos=[], wantpos=[], tolpos=0, sig=[],
                wantsig=[], tolsig=0)
    e = d.t.events[-1]
    if out is not None:
        steps = [xs[i][1] - xs[i][0] for i in order]
        e['pos'] = [enc((out[0][p] - xs[i][0]) / s) if p in out[0].index else MISS for p, i, s in zip(d.declared, order, steps)]
        e['wantpos'] = [enc(float(centers[i])) for i in order]
        # a step is found somewhere within a wide window
        wide = max(d.tw / d.scans[i][1] * d.scans[i][2] for i in order)
        e['tolpos'] = 3 * SC // 2 + (SC * int(wide / 2) if wide > 5.5 else 0)


def replay(rec, rng, graph, tier, tmp):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=40, max_paths=None)
    rng.shuffle(paths)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    if tier == 'quick':
        paths = paths[:260]
    for k, (start, path) in enumerate(paths):
        ops = [nodes[n]['op'].strip('"') for _, _, n in path]
        rec.count('replayed_steps', len(ops))
        sg = [int(x) for x in nodes[start]['s'].split('sg |-> <<')[1].split('>>')[0].split(',')]
        if any(o.startswith('fit_') for o in ops):
            fits = [o[4:] for o in ops if o.startswith('fit_')]
            make = FITS[k % len(FITS)]
            b = make(rec, rng, 'fits%d' % k)
            for o in fits:
                b.evaluate(rng, o)
        if 'begin' not in ops:
            continue
        d = lead_bench(rec, rng, 'lead%d' % k, sg)
        for round_ in ' '.join(ops).split('begin')[1:]:
            n, plan = {}, {}
            for o in round_.split():
                kind = o.split('_')[0]
                i = n.get(kind, 0)
                n[kind] = i + 1
                if o.endswith('_raises'):
                    plan[kind, i] = 'raise'
                elif o.endswith('_partly'):
                    plan[kind, i] = 'part'
            if 'over' not in nodes[path[-1][2]]['s'] and not plan and round_ == ' '.join(ops).split('begin')[-1]:
                # the path ends in the middle of a scan
                plan = {}
            d.exp.part = rng.randint(0, 2 ** len(d.exp.v) - 1)
            for g in d.exp.v.index:
                d.exp.v[g] = dy(rng)
            lead_run(rng, d, plan)
        if k % 9 == 0:
            d.reload(tmp)
            lead_run(rng, d, {})


def random_lead(rec, rng, k, tmp):
    gates = rng.randint(1, 3)
    sg = [rng.randint(1, 2) for _ in range(gates)]
    d = lead_bench(rec, rng, 'random lead%d' % k, sg, same_scans=rng.random() < .3)
    for _ in range(6):
        if rng.random() < .3:
            d.reload(tmp)
        if rng.random() < .5:
            d.exp.v[:] = [dy(rng) for _ in d.exp.v]
        plan = {}
        if rng.random() < .4:
            plan[rng.choice(['shift', 'measure', 'read']), rng.randint(0, 1)] = rng.choice(['raise', 'part'])
            plan = {k: 'raise' if k[0] != 'shift' else v for k, v in plan.items()}
            # the call may not exist
            if any(k[1] >= (1 if k[0] == 'read' else len(sg)) for k in plan):
                plan = {}
        d.exp.part = rng.randint(0, 15)
        lead_run(rng, d, plan)


# -------------------------------------------------------------------------------------------------- fits
def some_name(rng, n):
    return rng.sample(['parameter_time', 't_c', 'lead time', 'x', 'parameter_time_rise', 'ü'], n)


class FitBench:
    judged = True

    def __init__(self, rec, rng, name):
        self.exp = Bank(['A', 'B'], [dy(rng), dy(rng)])
        self.names = some_name(rng, self.n)
        self.desk = Desk(rec, name + ' ' + type(self).__name__, self.exp, self.make(rng), self.names, self.unit)

    def evaluate(self, rng, outcome):
        if outcome == 'raise':
            data = self.good(rng)[0]
            self.desk.run('fit', 'raise', {1: data}, plan={('measure', 0): 'raise'}, fits=self.fits)
            return
        if outcome == 'bad':
            data = self.bad(rng)
            want = ()
        elif outcome == 'any':
            data = self.anything(rng)
            want = ()
        else:
            data, want = self.good(rng)
        self.desk.run('fit', outcome if self.judged or outcome == 'bad' else 'any', {1: data},
                      want=[enc(x / self.unit) for x in want] if self.judged else (),
                      tol=max([int(abs(enc(x / self.unit)) * self.rel) + 2 for x in want] + [0]),
                      stored=self.stored(data), fits=self.fits)

    def anything(self, rng):
        d = self.good(rng)[0].copy()
        r = np.random.RandomState(rng.randint(0, 10 ** 6))
        d.reshape(-1)[:] = rng.choice([r.randn(d.size), np.zeros(d.size), np.ones(d.size), 1e6 * r.randn(d.size)])
        return self.keep(d, rng)

    def keep(self, d, rng):
        return d

    def bad(self, rng):
        d = self.good(rng)[0].copy()
        if rng.random() < .5:
            self.spoil(d, slice(None))
        else:
            i = rng.randrange(d.shape[-1] // 4, d.shape[-1])
            self.spoil(d, slice(i, i + 3))
        return d


class Load(FitBench):
    n, unit, rel, fits = 1, 1., 1e-3, ['curvature']

    def make(self, rng):
        return NewLoadTime(self.exp, parameters=tuple(self.names), **(dict(measurements=(Measurement('load_scan', x=1),))
                                                                     if rng.random() < .5 else {}))

    def good(self, rng):
        n = rng.choice([60, 100])
        t = np.arange(n) * 5.
        c = rng.uniform(5, 100)
        y = rng.uniform(-1, 1) + rng.choice([-1, 1]) * rng.uniform(.3, 3) * np.exp(-t / c)
        return np.array([y, t]), [c]

    def keep(self, d, rng):
        d[1] = np.arange(d.shape[1]) * 5.
        return d

    def spoil(self, d, where):
        d[0, where] = np.nan

    def stored(self, d):
        return d[1], d[0]


class Coupling(FitBench):
    n, unit, rel, fits = 1, 1e-6, 1e-3, ['width']

    def make(self, rng):
        self.c = rng.choice([0., 0., .5e-3])
        return InterDotTCByLineScan(self.exp, parameters=tuple(self.names),
                                    measurements=(Measurement('detune_scan', center=self.c, range=2e-3, N_points=100),))

    def good(self, rng):
        n = rng.choice([100, 160])
        x = np.linspace(self.c - 2e-3, self.c + 2e-3, n)
        w = rng.uniform(1e-4, 3e-4)
        y = rng.uniform(-1, 1) + rng.uniform(-20, 20) * x + .5 * rng.choice([-1, 1]) * rng.uniform(.5, 2) * \
            (1 + np.tanh((x - self.c - rng.uniform(-.4, .4) * 2e-3) / w))
        k = rng.random()
        if k < .3:
            y = np.array([y * f for f in (.5, 1., 1.5)])
            if k < .1:
                y[1] = np.nan
        elif k < .5:
            y = y.reshape((1, -1))
        return y, [w]

    def bad(self, rng):
        if rng.random() < .3:
            return np.zeros((3, 2, 40))
        return super().bad(rng)

    def spoil(self, d, where):
        d[..., where] = np.nan

    def stored(self, d):
        y = np.squeeze(d)
        if y.ndim > 2:
            return None
        n = y.shape[-1]
        return np.linspace(self.c - 2e-3, self.c + 2e-3, n), y


def lead_times(t, h, tf, tr, br, bf, off):
    """a signal relaxing between two levels, driven with a period of twice 2 us"""
    half = 2e-6
    y = np.empty(len(t))
    for i, u in enumerate(t):
        if br <= u < bf:
            y[i] = off + h / 2 * (np.cosh(half / 2 / tr) - np.exp((half / 2 - (u - br)) / tr)) / np.sinh(half / 2 / tr)
        else:
            u = u + t[-1] if u < br else u
            y[i] = off - h / 2 * (np.cosh(half / 2 / tf) - np.exp((half / 2 - (u - bf)) / tf)) / np.sinh(half / 2 / tf)
    return y


class Lead(FitBench):
    n, unit, rel, fits = 2, 1e-9, 1e-2, ['t_rise', 't_fall']
    cls = LeadTunnelTimePrefitVersion

    def make(self, rng):
        self.rate = 1e8
        return self.cls(self.exp, parameters=tuple(self.names), sample_rate=self.rate,
                        **(dict(measurements=(Measurement('lead_scan', gate='B'),)) if rng.random() < .5 else {}))

    def good(self, rng):
        n = 400
        t = np.arange(n) / self.rate
        tf, tr = rng.uniform(30e-9, 200e-9), rng.uniform(30e-9, 200e-9)
        br = rng.uniform(40e-9, 120e-9)
        y = lead_times(t, rng.choice([-1, 1]) * rng.uniform(.5, 2), tf, tr, br, br + 2e-6, rng.uniform(-.5, .5))
        ref = np.zeros(n) + rng.choice([0., 1., .25])
        return np.array([ref, y + ref]), [tr, tf]

    def evaluate(self, rng, outcome):
        # the result for arbitrary data is where the next fit starts
        super().evaluate(rng, 'bad' if outcome == 'any' else outcome)

    def spoil(self, d, where):
        d[rng_row(d), where] = np.nan

    def stored(self, d):
        return np.arange(d.shape[1]) / self.rate, d[1] - d[0]


def rng_row(d):
    return 1


class LeadLinear(Lead):
    # a model with jumps: whether the fit converges is not judged
    cls = LeadTunnelTimeByLeadScan
    judged = False


FITS = [Load, Coupling, Lead, LeadLinear]


def random_fits(rec, rng, k, tmp):
    b = FITS[k % len(FITS)](rec, rng, 'random fits%d' % k)
    for _ in range(7):
        if rng.random() < .25:
            b.desk.reload(tmp)
        b.evaluate(rng, rng.choices(['good', 'bad', 'any', 'raise'], [6, 3, 1, 2])[0])


# -------------------------------------------------------------------------------------------------- sensing dots
def sensing1d(rec, rng, k, tmp):
    gate = rng.choice(['SDB2', 'SDB1'])
    exp = Bank(['SDB1', 'SDB2', 'N'], [rng.choice([0., .25, -.5, .125]) for _ in range(3)])
    n, r = rng.choice([320, 640, 1280]), rng.choice([.0078125, .03125])
    flank = rng.choice([None, True, False])
    declared = ['position_' + gate, 'current_signal', 'optimal_signal']
    rng.shuffle(declared)
    ev = SensingDot1D(exp, sweeping_gate=gate, parameters=tuple(declared), rising_flank=flank,
                      measurements=(Measurement('line_scan', center=None, range=r, gate='to be set', N_points=n),))
    d = Desk(rec, 'sensing1d %d' % k, exp, ev, declared)
    for _ in range(5):
        if rng.random() < .25:
            d.reload(tmp)
        if rng.random() < .6:
            exp.v[gate] = rng.choice([0., .25, -.5, .125, .75])
        c = exp.v[gate]
        x = np.linspace(c - r, c + r, n)
        s, pk = rng.uniform(.35, .6) * r, c + rng.uniform(-.3, .3) * r
        y = rng.choice([-1, 1]) * rng.uniform(.5, 3) * np.exp(-.5 * ((x - pk) / s) ** 2) + rng.uniform(-1, 1)
        dv = np.diff(y)
        cut = n // 16
        inner = dv[cut:-cut]
        i = (np.argmin(inner) if flank is False else np.argmax(inner)) + cut
        scale = np.abs(dv).max()
        raw = y.reshape((1, -1)) if rng.random() < .3 else y
        bad = rng.random() < .12
        out = d.run('find', 'raise' if bad else 'good', {1: raw}, stored=(x, raw), plan={('measure', 0): 'raise'} if bad else None,
                    pos=[], wantpos=[], tolpos=0, sig=[], wantsig=[], tolsig=0)
        e = d.t.events[-1]
        o = d.ev.measurements[0].options
        if out is not None:
            v = out[0]
            step = x[1] - x[0]
            e['pos'] = [enc((v['position_' + gate] - x[0]) / step / n * 100) if 'position_' + gate in v.index else MISS,
                        enc(float(o['center']) if o['gate'] == gate else np.nan)]
            e['wantpos'] = [enc(float(i) / n * 100), enc(float(c))]
            e['tolpos'] = int(1.5 * SC) if n else 0
            e['sig'] = [enc(v[p] / scale) if p in v.index else MISS for p in ('current_signal', 'optimal_signal')]
            e['wantsig'] = [enc(dv[n // 2] / scale), enc((dv.min() if flank is False else dv.max()) / scale)]
            e['tolsig'] = int(.06 * SC)


def sensing2d(rec, rng, k, tmp):
    gates = rng.sample(['SDB1', 'SDB2', 'X'], 2)
    exp = Bank(['SDB1', 'SDB2', 'X'], [0., 0., 0.])
    r = rng.choice([.0078125, .03125])
    flank = rng.choice([None, True, False])
    nl, n = rng.choice([10, 20]), rng.choice([104, 150])
    declared = ['position_' + g for g in gates]
    rng.shuffle(declared)
    ms = {} if rng.random() < .4 else dict(measurements=(Measurement('2d_scan', center=[None, None], range=r, gate1=gates[0],
                                                                     gate2=gates[1], n_lines=nl, n_points=n),))
    ev = SensingDot2D(exp, sweeping_gates=tuple(gates), scan_range=r, parameters=tuple(declared), rising_flank=flank, **ms)
    d = Desk(rec, 'sensing2d %d' % k, exp, ev, declared)
    for _ in range(4):
        if rng.random() < .25:
            d.reload(tmp)
        centered = rng.random() < .5
        for g in gates:
            exp.v[g] = 0. if centered else rng.choice([.25, -.375, .0625])
        c = [exp.v[g] for g in gates]
        a, b = np.linspace(c[0] - r, c[0] + r, nl), np.linspace(c[1] - r, c[1] + r, n)
        li, pi = rng.randint(0, nl - 1), rng.randint(n // 4, 3 * n // 4)
        s = 1. if flank is False else -1.
        w = rng.uniform(.15, .3) * r
        y = np.array([s / (1 + .3 * abs(i - li)) * np.tanh((b - b[pi]) / w) for i in range(nl)])
        if rng.random() < .3:
            y = y.reshape((1,) + y.shape) if False else y
        bad = rng.random() < .12
        out = d.run('find', 'raise' if bad else 'good', {1: y}, stored=([a, b], y), plan={('measure', 0): 'raise'} if bad else None,
                    pos=[], wantpos=[], tolpos=0, sig=[], wantsig=[], tolsig=0)
        e = d.t.events[-1]
        if out is not None:
            v = out[0]
            x = [a, b]
            at = [enc((v['position_' + g] - x[i][0]) / (x[i][1] - x[i][0])) if 'position_' + g in v.index else MISS
                  for i, g in enumerate(gates)]
            # lines exactly, points nearly
            e['sig'], e['wantsig'], e['tolsig'] = at[:1], [enc(float(li))], SC // 4
            e['pos'], e['wantpos'] = at[1:], [enc(float(pi))]
            e['tolpos'] = (5 if centered else 10) * SC // 2


# -------------------------------------------------------------------------------------------------- repetitions
class Repeated(ScriptEvaluator):
    """delivers prepared values"""

    def __init__(self, experiment, parameters, name='repeated', measurements=(), raw_x_data=None, raw_y_data=None):
        super().__init__(experiment, parameters, name, measurements, raw_x_data, raw_y_data)

    def evaluate(self):
        exp = self.experiment
        if exp.outcome('evaluate') != 'ok':
            raise Injected('evaluate')
        exp.round += 1
        vals = exp.queue.pop(0) if exp.queue else [0.] * len(self.parameters)
        self._raw_x_data = [exp.round]
        self._raw_y_data = [exp.round * 10]
        order = list(range(len(vals)))
        exp.rng.shuffle(order)
        return (pd.Series([vals[i] for i in order], index=[self.parameters[i] for i in order]),
                pd.Series([.5] * len(vals), index=list(self.parameters)))

    def to_hdf5(self):
        return super().to_hdf5()


def repetitions(rec, rng, k, tmp):
    exp = Bank(['A'], [0.])
    exp.round, exp.queue, exp.rng = 0, [], rng
    ps = some_name(rng, rng.randint(1, 4))
    n = rng.choice([1, 2, 3, 5, 7])
    ev = AveragingEvaluator(Repeated(exp, ps, measurements=(Measurement('m'),)), n)
    d = Desk(rec, 'repetitions %d' % k, exp, ev, ps)
    for _ in range(6):
        if rng.random() < .2:
            d.reload(tmp)
        xs = [[rng.choice([rng.randint(-16, 16), rng.randint(-16, 16), rng.randint(-16, 16), NaN]) for _ in range(n)] for _ in ps]
        if rng.random() < .3:
            # no undefined values, or only undefined values
            u = rng.random() < .3
            xs = [[NaN if u else rng.randint(-16, 16) for _ in range(n)] for _ in ps]
        exp.queue = [[x[i] / 8 if x[i] != NaN else np.nan for x in xs] for i in range(n)]
        start = exp.round
        plan = {('evaluate', rng.randrange(n)): 'raise'} if rng.random() < .15 else {}
        out = d.run('repeat', 'raise' if plan else 'any', {}, plan=plan, xs=xs, n=n, rounds=0, data=[], wantdata=[])
        e = d.t.events[-1]
        e['rounds'] = exp.round - start
        if out is not None:
            try:
                e['data'] = [[int(x[0]) for x in d.ev.raw_data[0]], [int(y[0]) for y in d.ev.raw_data[1]]]
            except Exception:
                e['data'] = [[WRONG], [WRONG]]
        e['wantdata'] = [list(range(start + 1, start + n + 1)), [10 * x for x in range(start + 1, start + n + 1)]]


# -------------------------------------------------------------------------------------------------- MATLAB
def obj(**kw):
    return types.SimpleNamespace(**kw)


def qqd(rec, rng, k, tmp):
    """evaluators of results that were calculated by MATLAB"""
    from qtune import sm_tune_qqd as q
    exp = Bank(['A', 'B'], [0., 0.])
    kind = ['line', 'lead', 'sensor', 'sensor 2d', 'chrg', 'dist', 'resp'][k % 7]
    inf = float('inf')
    n = dict(line=1, lead=1, sensor=2, chrg=2, dist=1, resp=2).get(kind, 3)
    ps = some_name(rng, n)
    ms = [Measurement({'dist': 'chrg'}.get(kind, kind), index=1)]
    lo = [rng.choice([-inf, -1., 0.]) for _ in ps]
    hi = [rng.choice([inf, 1., 2.]) for _ in ps]
    args = (exp, ms, ps, 'evaluator')
    height = rng.choice([-inf, .5])
    err, ref = rng.choice([1., .25]), rng.choice([1., 2.])
    if kind == 'line':
        ev = q.QQDLine(*args, maximal_value=hi[0], minimal_value=lo[0])
    elif kind == 'lead':
        ev = q.QQDLead(*args, maximal_value=hi[0], minimal_value=lo[0], error=err, reference_residual_sum=ref)
    elif kind == 'sensor':
        ev = q.QQDSensor1D(*args)
    elif kind == 'sensor 2d':
        ev = q.QQDSensor2D(*args)
    elif kind == 'chrg':
        ev = q.QQDCharge(*args, error=err)
    elif kind == 'dist':
        ev = q.QQDDistTP(*args, error=err)
    else:
        order = rng.sample(range(2), 2)
        ev = q.QQDResp(*args, error=err, min_transition_height=height,
                       min_position=pd.Series([lo[i] for i in order], index=[ps[i] for i in order]),
                       max_position=pd.Series([hi[i] for i in order], index=[ps[i] for i in order]))
    if kind in ('sensor', 'sensor 2d', 'chrg', 'dist'):
        lo, hi = [-inf] * n, [inf] * n
    d = Desk(rec, 'qqd %s %d' % (kind, k), exp, ev, ps)
    for j in range(6):
        if rng.random() < .2 and kind != 'dist':
            d.reload(tmp)
        a = [dy(rng, -3, 3) for _ in range(3)]
        xs, var = a[:n], [NaN] * n
        if kind == 'line':
            m = rng.randint(1, 4)
            ws = [dy(rng, -3, 3) for _ in range(m)]
            ana = [obj(width=w) for w in ws]
            xs, var = [float(np.mean(ws))], [enc(float(np.var(ws) / m))]
        elif kind == 'lead':
            res = rng.choice([.5, 2.])
            ana = obj(fitParams=[[0.] * 5, [9., 9., 9., a[0], 9.]], sumResiduals=res)
            var = [enc(err * res / ref)]
        elif kind == 'sensor':
            ana = obj(xVal=a[0], minGradData=a[1])
            xs = [a[0], abs(a[1])]
        elif kind == 'sensor 2d':
            ana = obj(xVal=a[0], yVal=a[1], minGradData=a[2])
            xs = [a[0], a[1], abs(a[2])]
        elif kind == 'chrg':
            ana = obj(O=rng.choice([np.array([[a[0], a[1]]]), np.array([a[0], a[1]]), [[a[0]], [a[1]]]]))
            var = [enc(err)] * 2
        elif kind == 'dist':
            s = rng.choice([.25, .5, 1.])
            ana = obj(triplePointRight=[a[0] + 3 * s, a[1]], triplePointLeft=[a[0], a[1] + 4 * s])
            xs, var = [5 * s], [enc(err)]
        else:
            vis = [rng.choice([.25, .75]), rng.choice([.25, .75])]
            ana = [obj(position=a[i], visiblity=vis[i]) for i in range(2)]
            xs = [np.nan if vis[i] < height else a[i] for i in range(2)]
            var = [enc(err)] * 2
        bad = rng.random() < .1
        d.run('read', 'raise' if bad else 'any', {1: pd.Series({'data': obj(ana=ana, args=obj(fullFile='file %d' % j))})},
              plan={('measure', 0): 'raise'} if bad else None, wantvar=var, xs=[enc(float(x)) for x in xs],
              lo=[enc(x) for x in lo], hi=[enc(x) for x in hi])
    # names and options of measurements are kept
    m = q.QQDMeasurement('line', index=2, a=rng.random())
    holder = [m]
    path = os.path.join(tmp, 'm.hdf5')
    got = []

    def go():
        to_hdf5(path, 'm', holder, {})
        got.append(from_hdf5(path, {})['m'][0])
    exc, e = attempt(go)
    if os.path.exists(path):
        os.remove(path)
    d.t.ev('reload', exc=exc if e is None else repr(e), a=repr(sorted(dict(m.options, name=m.name).items())) if not e else '',
           b=repr(sorted(dict(got[0].options, name=got[0].name).items())) if got else '')


def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp()
    q = tier == 'quick'
    all_ = 'E01,E02,E03,E04,H02'
    try:
        if pid in ('E01', 'E02', 'E04', ''):
            for g in graphs:
                rec.guard('replay', replay, rec, rng, g, tier, tmp, pids=all_)
        for k in range(20 if q else 400):
            if pid in ('E01', 'E02', 'E04', 'H02', ''):
                rec.guard('lead%d' % k, random_lead, rec, rng, k, tmp, pids=all_)
        for k in range(24 if q else 240):
            if pid in ('E02', 'H02', ''):
                rec.guard('fits%d' % k, random_fits, rec, rng, k, tmp, pids=all_)
        for k in range(16 if q else 240):
            if pid in ('E02', 'E04', 'H02', ''):
                rec.guard('sensing1d%d' % k, sensing1d, rec, rng, k, tmp, pids=all_)
                rec.guard('sensing2d%d' % k, sensing2d, rec, rng, k, tmp, pids=all_)
        for k in range(40 if q else 800):
            if pid in ('E03', 'H02', ''):
                rec.guard('repetitions%d' % k, repetitions, rec, rng, k, tmp, pids=all_)
        for k in range(28 if q else 420):
            if pid in ('E02', 'H02', ''):
                rec.guard('qqd%d' % k, qqd, rec, rng, k, tmp, pids=all_)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    driver_main(run)
