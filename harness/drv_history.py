"""Driver of the history: live histories, histories rebuilt from the stored states, single states."""
import os
import shutil
import tempfile
import time

from canon import *
from world import *
from drv_store import clone
from dqd import make_dqd
from zlib import crc32
from qtune.autotuner import load_auto_tuner
from qtune.history import History
import qtune.history as history_module
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
plt.switch_backend('Agg')

GATE_NAMES = ['A', 'AA', 'RFA', 'RFB', 'SDB 1', 'SDB2', 'ü', 'A.A', 'B (mV)', '1', 'x^2', '[b]', 'N*', 'a|b', 'T\\w', '$a']
PARAM_NAMES = ['p', 'pp', 'p p', 'xp', 'p.', 'p+', '.*', 'parameter_time', 'parameter_time_load', 'time', '(p)', 'q|p', 'p$',
               '^p', 'ä', 'p1', 'p12', 'origin x', 'd/dx', '[p]', 'var', 'grad', 'cov']


class ForcedExperiment(SimExperiment):
    """the voltages that are really set are decided by the driver"""
    force = None

    def set_gate_voltages(self, new):
        if self.force is None:
            return super().set_gate_voltages(new)
        for g, x in self.force.items():
            self.v[g] = x
        return self.v.copy()


class Columns:
    """all quantities that are recorded for an autotuner"""

    def __init__(self, at):
        self.owner, self.kind, self.key = [], [], []
        self.grad_of = {}
        # which evaluators of sensing dots measured when their group was asked for the last time
        self.asked, self.count = {}, {}
        for t in at.tuning_hierarchy:
            if isinstance(t, SensingDotTuner):
                for e in t.evaluators:
                    self.watch(e)
        declared = [{p for e in t.evaluators for p in e.parameters} for t in at.tuning_hierarchy]
        for gi, t in enumerate(at.tuning_hierarchy):
            # parameters may be known to groups which do not measure them
            others = set().union(*declared[:gi], *declared[gi + 1:]) - declared[gi]
            for p in dict.fromkeys(list(t.target.index.difference(others, sort=False)) + sorted(declared[gi])):
                # the value is missing as long as the parameter has no complete target
                self.add(gi, 'value', p)
                self.add(gi, 'std', p)
            if isinstance(t.solver, NewtonSolver):
                for i, e in enumerate(t.solver.gradient_estimators):
                    p = t.solver.target.index[i]
                    if p in self.grad_of:
                        continue
                    self.grad_of[p] = (gi, i)
                    gates = list(e.current_position.index)
                    first = len(self.owner)
                    for g in gates:
                        self.add(gi, 'grad', (p, g))
                        self.add(gi, 'var', (p, g))
                        for h in gates:
                            self.add(gi, 'cov', (p, g, h))
                    # groups may share their estimators
                    sharing = [gj + 1 for gj, o in enumerate(at.tuning_hierarchy) if isinstance(o.solver, NewtonSolver)
                               and any(x is e for x in o.solver.gradient_estimators)]
                    self.owner[first:] = [sharing] * (len(self.owner) - first)
            for e in t.evaluators:
                self.add(gi, 'raw', e.name)
                for j in range(len(marks_of(e.to_hdf5())[0])):
                    self.add(gi, 'mark', (e.name, j))

    def watch(self, e):
        evaluate, name = e.evaluate, e.name
        self.count[name], self.asked[name] = 0, False

        def counted(*args, **kwargs):
            self.count[name] += 1
            return evaluate(*args, **kwargs)
        e.evaluate = counted

    def iterated(self, before, at, gi):
        """a group measured"""
        names = [e.name for e in at.tuning_hierarchy[gi].evaluators if e.name in self.asked]
        if any(self.count[m] != before[m] for m in names):
            self.asked.update({m: self.count[m] != before[m] for m in names})

    def add(self, gi, kind, key):
        self.owner.append([gi + 1])
        self.kind.append(kind)
        self.key.append(key)

    def current(self, at):
        """the present value of every quantity"""
        out = []
        for gi, kind, key in zip(self.owner, self.kind, self.key):
            t = at.tuning_hierarchy[gi[0] - 1]
            if kind in ('value', 'std'):
                s = t.last_parameters_and_variances[0 if kind == 'value' else 1]
                out.append(enc(s[key]) if key in s.index else MISS)
            elif kind in ('raw', 'mark'):
                e = [e for e in t.evaluators if e.name == (key if kind == 'raw' else key[0])][0]
                if isinstance(t, SensingDotTuner) and not self.asked.get(e.name, True):
                    out.append(MISS)
                else:
                    out.append(raw_of(e.to_hdf5()) if kind == 'raw' else mark_of(e.to_hdf5(), key[1]))
            else:
                e = t.solver.gradient_estimators[self.grad_of[key[0]][1]]
                m = e.estimate() if kind == 'grad' else e.covariance()
                if m is None:
                    out.append(MISS)
                else:
                    out.append(enc(m[key[1]] if kind == 'grad' else m.loc[key[1], key[1]] if kind == 'var' else
                                   m.loc[key[1], key[2]]))
        return out


def raw_of(d):
    try:
        y = d['raw_y_data']
        if y is None:
            return MISS
        y0 = np.asarray(y[0] if isinstance(y, tuple) else y)
        # scripted evaluators count their measurements
        return int(y0[0]) if y0.shape == (2,) else crc32(np.ascontiguousarray(y0).tobytes()) % 1000000007
    except Exception:
        return WRONG


def marks_of(d):
    """names and values of the positions an evaluator of the library found"""
    if 'transition_positions' in d:
        names = ['position_' + m.options['gate'] for m in d['measurements']]
        return names, d['transition_positions']
    if 'optimal_position' in d:
        return ['x'], dict(x=d['optimal_position'])
    if 'new_voltages' in d:
        names = ['position_' + d['measurements'][0].options[g] for g in ('gate1', 'gate2')]
        return names, d['new_voltages']
    return [], {}


def mark_of(d, j):
    names, values = marks_of(d)
    try:
        if d['raw_y_data'] is None:
            return MISS
        x = values[names[j]]
    except Exception:
        return WRONG
    return MISS if x is None else enc(1024 * x)


def column(get, n):
    """a column of the history as list of encoded numbers"""
    try:
        s = get()
    except KeyError:
        return [MISS] * n
    return [enc(x) for x in s]


def read_history(h, cols, gates, files):
    n = h.number_of_stored_iterations
    v = [column(lambda: h.get_gate_values(g), n) for g in gates]
    c, more = [], 0
    params = {key[0] for kind, key in zip(cols.kind, cols.key) if kind == 'grad'}
    grads = {p: h.get_gradients(p) for p in params}
    variances = {p: h.get_gradient_variances(p) for p in params}
    covs = {p: h.get_gradient_covariances(p) for p in params}
    own = {p: {key[1] for kind, key in zip(cols.kind, cols.key) if kind == 'grad' and key[0] == p} for p in params}
    for p in params:
        more += len(set(grads[p].columns) - own[p]) + len(grads[p].columns) - len(set(grads[p].columns))
        more += len(set(variances[p].columns) - own[p]) + len(variances[p].columns) - len(set(variances[p].columns))
        if len(covs[p].columns):
            want = {(a, b) for a in own[p] for b in own[p]}
            more += len(set(covs[p].columns) - want) + len(covs[p].columns) - len(set(covs[p].columns))
    values = {key for kind, key in zip(cols.kind, cols.key) if kind == 'value'}
    more += len(h.parameter_names - values) + len(h.gate_names ^ set(gates))
    more += len(set(h.gradient_controlled_parameter_names) ^ params)
    raws = h.get_evaluator_data()
    for kind, key in zip(cols.kind, cols.key):
        if kind == 'value':
            c.append(column(lambda: h.get_parameter_values(key), n))
        elif kind == 'std':
            c.append(column(lambda: h.get_parameter_std(key) ** 2, n))
        elif kind == 'grad':
            c.append(column(lambda: grads[key[0]][key[1]], n))
        elif kind == 'var':
            c.append(column(lambda: variances[key[0]][key[1]], n))
        elif kind == 'cov':
            c.append(column(lambda: covs[key[0]][key[1:]], n))
        elif kind == 'raw':
            c.append([raw_of(d) if isinstance(d, dict) else MISS for d in raws[key]] if key in raws.columns else
                     [MISS] * n)
        else:
            c.append([mark_of(d, key[1]) if isinstance(d, dict) else MISS for d in raws[key[0]]]
                     if key[0] in raws.columns else [MISS] * n)
    c = [x if len(x) == n else x + [WRONG] * (n - len(x)) for x in c]
    paths = [h.get_reload_path(i) for i in range(n)]
    return dict(v=[list(x) for x in zip(*v)], c=[list(x) for x in zip(*c)] if c else [[] for _ in range(n)],
                f=[files.get(x, 0) for x in paths], number=n, raws=len(raws.index), extra=more)


def drawn(line, n):
    """the values a line shows, if there is one for each row"""
    x, y = np.asarray(line.get_xdata(), dtype=float), np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan)
    return [enc(a) for a in y] if list(x) == list(range(n)) else [WRONG] * n


def error_bars(container, n):
    """squares of the half lengths of error bars"""
    out = [MISS] * n
    if container is not None and len(container.lines) > 2:
        for bars in container.lines[2]:
            for seg in bars.get_segments():
                if len(seg) == 2 and np.isfinite(seg).all():
                    i = int(round(seg[0][0]))
                    out[i] = enc(((seg[1][1] - seg[0][1]) / 2) ** 2) if 0 <= i < n and seg[0][0] == seg[1][0] else WRONG
    return out


def curves(ax, n):
    """label, values and errors of all curves"""
    bars = {id(c.lines[0]): c for c in ax.containers if hasattr(c, 'lines')}
    named = {}
    for h, label in zip(*ax.get_legend_handles_labels()):
        named[id(h.lines[0] if hasattr(h, 'lines') else h)] = label
    legend = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    lines = list(ax.lines)
    if not named and len(legend) == len(lines):
        named = {id(line): label for line, label in zip(lines, legend)}
    return [(named.get(id(line), ''), drawn(line, n), error_bars(bars.get(id(line)), n)) for line in lines]


def panel(ax):
    """what is drawn of the data of an evaluator"""
    raw, marks, fit, data = MISS, [], 0, None
    for c in ax.collections:
        if hasattr(c, 'get_segments'):
            for (x0, y0), (x1, y1) in c.get_segments():
                # horizontal lines first
                marks.append((x0 == x1, enc(1024 * (x0 if x0 == x1 else y0))))
        else:
            raw = raw_of(dict(raw_y_data=np.array(c.get_array())))
    lines = {line.get_label(): line for line in ax.lines}
    if 'Raw Data' in lines:
        data = np.array(lines['Raw Data'].get_ydata(), dtype=float)
        raw = raw_of(dict(raw_y_data=data))
        if 'Fit' in lines:
            y = np.asarray(lines['Fit'].get_ydata(), dtype=float)
            fit = enc(np.max(np.abs(y - data)) / np.ptp(data)) if len(y) == len(data) else WRONG
    return raw, [m for _, m in sorted(marks, key=lambda m: m[0])], fit


class Bench:
    def __init__(self, rec, name, at, exp, gates, live=True, judge_kept=False):
        self.rec, self.at, self.exp, self.gates = rec, at, exp, list(gates)
        self.cols = Columns(at)
        self.h = History(None) if live else None
        self.files, self.names, self.vids = {}, [], {}
        self.stored = at.to_hdf5()['hdf5_storage_path'] is not None
        self.digests, self.asked = {}, {}
        self.kept = judge_kept
        self.t = rec.new(name, dict(n=len(at.tuning_hierarchy), owner=self.cols.owner, kind=self.cols.kind,
                                    stored=int(self.stored)))
        self.last = None
        self.patience = 4
        self.row = None     # the voltages of the last row

    def volts(self):
        return tuple(vec(self.at.tuning_hierarchy[0].last_voltages, self.gates))

    def restart(self):
        self.at.restart()
        self.t.ev('restart')

    def state(self, got, pre, f, exc):
        v = self.at.tuning_hierarchy[0].last_voltages
        key = tuple(sorted((g, float(x)) for g, x in v.items()))
        return dict(vid=self.vids.setdefault(key, len(self.vids) + 1), v=vec(v, self.gates), cur=self.cols.current(self.at),
                    pre=pre, f=f, got=got, exc=exc)

    def iterate(self, append=True, look=True, through=None, **out):
        """through: performs the iteration and appends it to the history"""
        at = self.at
        pre = dict(idx=int(at.current_tuner_index), status=as_bool(at.current_tuner_status),
                   hasPend=int(at.voltages_to_set is not None))
        LOG.clear(**out)
        before = dict(self.cols.count)
        exc, e = through() if through else attempt(at.iterate)
        if exc != 'none':
            return False
        if pre['idx'] < len(at.tuning_hierarchy):
            self.cols.iterated(before, at, pre['idx'])
        f = len(self.names) + 1
        self.asked[f] = dict(self.cols.asked)
        name = at.last_save_file if self.stored else 'state %d' % f
        self.names.append(name)
        self.files[name] = f
        reserved = {'experiment': self.exp}
        dig = digest(at, reserved) if self.kept or self.stored else ''
        self.digests[f] = dig
        if append:
            got = dict(v=[], c=[], f=[], number=0, raws=0, extra=0)
            res = []

            def go():
                if not through:
                    self.h.append_autotuner(at) if self.stored else self.h.append_autotuner(at, path=name)
                if look:
                    res.append(read_history(self.h, self.cols, self.gates, self.files))
            exc, e = attempt(go)
            self.last = self.state(res[0] if res else got, pre, f, exc if e is None else repr(e))
            self.t.ev('append', looked=int(look), kept=int(not self.kept or dig == digest(at, reserved)), **self.last)
            self.row = self.volts()
            self.rec.count('appended')
        else:
            self.t.ev('skip', pre=pre)
            self.rec.count('skipped')
        return True

    def find(self, kind, key):
        """number of a cell"""
        return [i + 1 for i, (k, q) in enumerate(zip(self.cols.kind, self.cols.key)) if k == kind and q == key]

    def plot(self, rng):
        """plots show the recorded rows"""
        h, n = self.h, self.h.number_of_stored_iterations
        if not n:
            return
        gates, params = list(self.gates), [k for kind, k in zip(self.cols.kind, self.cols.key) if kind == 'value'
                                           and k in h.parameter_names]
        grads = sorted(h.gradient_controlled_parameter_names)
        var, cov, whole = rng.random() < .6, rng.random() < .6, rng.random() < .5 and bool(params)
        mode = ('with_par_variances ' if var else '') + ('with_grad_covariances ' if cov else '')
        if whole:
            mode += 'all_voltages all_parameters' + (' all_gradients' if grads else '')
            gates, params = sorted(gates), sorted(params)
            call = {}
        else:
            gates, params, grads = [rng.sample(x, rng.randint(min(1, len(x)), len(x))) for x in (gates, params, grads)]
            call = dict(voltage_indices=gates, parameter_names=params or None, gradient_parameter_names=grads or None)
        got = dict(v=[], p=[], g=[])

        def go():
            (fv, fp, fg), (v, p, g) = h.plot_tuning(mode=mode.strip(), **call)
            got['v'] = [[self.gates.index(label) + 1 if label in self.gates else 0, y] for label, y, _ in curves(v, n)]
            got['p'] = [[len(c), c[0][1], c[0][2]] for c in (curves(a, n) for a in np.ravel(p))] if params else []
            for name, a in zip(grads, np.ravel(g) if grads else []):
                got['g'].append([[(self.find('grad', (name, label)) or [0])[0], (self.find('var', (name, label)) or [0])[0],
                                  y, err] for label, y, err in curves(a, n)])
        exc, e = attempt(go)
        plt.close('all')
        self.t.ev('plot', exc=exc if e is None else repr(e), n=n, var=int(var), cov=int(cov),
                  gates=[self.gates.index(g) + 1 for g in gates],
                  ps=[[self.find('value', p)[0], self.find('std', p)[0]] for p in params],
                  gs=[[i + 1 for i, (kind, key) in enumerate(zip(self.cols.kind, self.cols.key))
                       if kind == 'grad' and key[0] == name] for name in grads], **got)
        self.rec.count('plots')

    def plot_data(self, rng):
        """plots of the raw data of evaluators of the library"""
        n = self.h.number_of_stored_iterations
        known = list(self.h.evaluator_names)
        every = rng.random() < .4
        names = rng.sample(known, rng.randint(1, len(known)))
        asked = names + ['unknown'] * rng.randint(0, 1)
        rng.shuffle(asked)
        start = rng.randrange(n)
        end = min(n, start + rng.randint(1, 3))
        single = rng.random() < .3
        if every:
            names = known
        if single:
            has = [(i, m) for i in range(n) for m in names if isinstance(self.h.get_evaluator_data()[m][i], dict)]
            single = bool(has)
        if single:
            start = rng.choice(has)[0]
            end, names = start + 1, [m for i, m in has if i == start]
        rows, before = [], list(asked)

        def go():
            if single:
                shown = []
                for m in names:
                    fig = plt.figure()
                    ax = fig.subplots(nrows=1)
                    self.h.plot_single_evaluator_data(rng.choice([ax, np.array([ax]), [ax]]), m, start)
                    shown.append([self.find('raw', m)[0], *panel(ax)])
                rows.append(shown)
                return
            more = {} if every else dict(evaluator_names=asked)
            figs, axs = self.h.plot_evaluator_data(start, None if end == start + 1 and rng.random() < .5 else end, **more)
            for ax in axs:
                ax = [a for a in np.ravel(ax) if a.lines or a.collections]
                rows.append([[(self.find('raw', a.get_title()) or [0])[0], *panel(a)] for a in ax])
        exc, e = attempt(go)
        plt.close('all')
        self.t.ev('plot_data', exc=exc if e is None else repr(e), first=start + 1, last=end, rows=rows,
                  asked=[self.find('raw', m)[0] for m in names], kept=int(asked == before),
                  marks=[[self.find('raw', k[0])[0], i + 1] for i, (kind, k) in enumerate(zip(self.cols.kind, self.cols.key))
                         if kind == 'mark'])
        self.rec.count('data_plots')

    def windows(self, open_windows, wait):
        """what the windows of the graphical interface show"""
        h, n = self.h, self.h.number_of_stored_iterations
        known = sorted(h.parameter_names)
        if not n or not known:
            return
        # some parameters have names for display
        info = {m: getattr(history_module, 'parameter_information', {}).get(m, {}) for m in known}
        titles = {info[m].get('name', m): m for m in known}
        labels = {info[m].get('gradient_unit', 'Gradient ' + m): m for m in known}
        if len(titles) < len(known) or len(labels) < len(known):
            return

        def shown():
            p, g, exc = [], [], 'none'
            try:
                for kind, w in open_windows:
                    axes = w.getFigure().axes
                    if kind == 'parameters':
                        x = sorted((titles.get(a.get_title(), ''), curves(a, n)) for a in axes)
                        p.append([[(self.find('value', name) or [0])[0], len(c), *(c[0][1:] if c else ([], []))] for name, c in x])
                    else:
                        x = sorted((labels.get(a.get_ylabel(), ''), curves(a, n)) for a in axes)
                        g.append([[(self.find('value', name) or [0])[0],
                                   [[(self.find('grad', (name, label)) or [0])[0], (self.find('var', (name, label)) or [0])[0],
                                     y, err] for label, y, err in c]] for name, c in x])
            except Exception as e:
                exc = repr(e)
            return p, g, exc

        def grads(name):
            return [i + 1 for i, (kind, key) in enumerate(zip(self.cols.kind, self.cols.key)) if kind == 'grad' and key[0] == name]
        curve = {}
        for name in known:
            if name in h.gradient_controlled_parameter_names:
                x = h.get_gradients(name)
                curve[self.find('value', name)[0]] = sorted([enc(y) for y in x[c]] for c in x.columns)
        # drawing takes its time
        want = [enc(x) for name in known for x in h.get_parameter_values(name)]
        end = time.time() + self.patience
        while True:
            wait(.02)
            p, g, exc = shown()
            drawn = [[y for a in w for y in a[2]] for w in p]
            done = all(d == want for d in drawn) and all(
                sorted(c[2] for c in a[1]) == curve[a[0]] for w in g for a in w if a[0] in curve)
            if done or time.time() > end:
                self.patience = 4 if done else .3
                break
        wait(.05)
        p, g, exc = shown()
        self.t.ev('windows', exc=exc, n=n, p=p, g=g, ps=[[self.find('value', m)[0], self.find('std', m)[0]] for m in known],
                  gs=[grads(m) for m in known])
        self.rec.count('windows', len(open_windows))

    def rebuild(self, rng, storage):
        """the stored states tell the same history"""
        self.at.asynchrone_writer.join()
        live = read_history(self.h, self.cols, self.gates, self.files)
        if rng.random() < .3:
            os.makedirs(os.path.join(storage, 'states of a reloaded autotuner'))
        if rng.random() < .6:
            # the files were copied, their names still tell their order
            for f in sorted(os.listdir(storage), key=lambda x: rng.random()):
                x = rng.randint(10 ** 9, 16 * 10 ** 8)
                os.utime(os.path.join(storage, f), (x, x))
        res = []
        exc, e = attempt(lambda: res.append(read_history(History(storage, clone(self.exp)), self.cols, self.gates, self.files)))
        self.t.ev('rebuilt', exc=exc if e is None else repr(e), got=res[0] if res else live, live=live)
        self.rec.count('rebuilt')
        # one state
        f = rng.randint(1, len(self.names))
        exp = clone(self.exp)
        got = []
        exc, e = attempt(lambda: got.append(load_auto_tuner(self.names[f - 1], {'experiment': exp})))
        a = digest(got[0], {'experiment': exp}) if got else ''
        self.t.ev('reload', exc=exc if e is None else repr(e), a=a, b=self.digests[f])
        if got:
            mine, self.at = self.at, got[0]
            last, self.cols.asked = self.cols.asked, self.asked[f]
            res = []
            exc, e = attempt(lambda: res.append(read_history(History(self.names[f - 1], exp), self.cols, self.gates, self.files)))
            self.t.ev('single', **self.state(res[0] if res else live, dict(idx=0, status=0, hasPend=0), f,
                                             exc if e is None else repr(e)))
            self.at, self.cols.asked = mine, last


def scripted(rec, name, rng, n, storage):
    gates = ['B', 'A']
    exp = ForcedExperiment(gates, [0., 0.])
    hierarchy = []
    for i in range(n):
        p = 'p%d' % (i + 1)
        target = make_target(desired=pd.Series([0.], index=[p]), tolerance=pd.Series([1.], index=[p]))
        exp.values[p] = (0., .25)
        est = build_gradient(rng, 'exact', gates, dict(A=1., B=.5), exp.v)
        hierarchy.append(SubsetTuner([ScriptEvaluator(exp, [p], 'e%d' % i)], gates,
                                     solver=NewtonSolver(target=target, gradient_estimators=[est],
                                                         current_position=exp.v.copy())))
    at = Autotuner(exp, hierarchy, hdf5_storage_path=storage, append_time_to_path=False)
    return Bench(rec, name, at, exp, gates, judge_kept=True)


def replay(rec, rng, graph, tier, tmp, often, plots=0):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=25, max_paths=None)
    rng.shuffle(paths)
    if tier == 'quick':
        paths = paths[:12 if plots else 28]
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    n = int(nodes[init[0]]['s'].split('n |-> ')[1].split(',')[0].split(']')[0])
    for k, (start, path) in enumerate(paths):
        storage = os.path.join(tmp, 'replay%d' % k) if k % (5 if often else 14) == 0 else None
        b = scripted(rec, 'graph%d' % k, rng, n, storage)
        m = 0
        for _, _, node in path:
            op = nodes[node]['op'].strip('"')
            m += 1
            rec.count('replayed_steps')
            if op in ('tuned', 'not'):
                p = 'p%d' % (b.at.current_tuner_index + 1)
                b.exp.values[p] = (m / 64 + (0. if op == 'tuned' else 2.), 1 / m)
                b.iterate()
            elif op == 'judge_raises':
                b.iterate(evaluate='raise')
            elif op == 'compute':
                b.iterate()
            elif op.startswith('apply_'):
                x = float(op.split('_')[1])
                b.exp.force = dict(A=x, B=x)
                b.iterate()
            elif op.startswith('restart_'):
                x = float(op.split('_')[1])
                b.exp.v[:] = x
                b.restart()
            elif op == 'targets':
                b.at.change_targets([{}] * rng.randint(0, n))
                b.t.ev('restart')
        if plots:
            b.plot(rng)
        if storage and b.names:
            b.rebuild(rng, storage)
            shutil.rmtree(storage)


def random_history(rec, rng, k, tmp, steps, often, alike=.3, plots=0):
    storage = os.path.join(tmp, 'random%d' % k) if k % (2 if often else 5) == 0 else None
    names = gates = None
    if rng.random() < alike:
        # every name is a part of others
        a, b = rng.choice(['p', 't_c', 'q']), rng.choice(['p', 'x', ' y', '_2'])
        names = [a, a + b, b + a, a + a, b, a + b + a, b + b + a, a + ' ' + b, 'the ' + a, b + ' ' + a, a + '.', '.' + a,
                 a * 3, a + '+', b * 3, 'x' + a + b]
        names = list(dict.fromkeys(names))[:rng.choice([5, 8, 20])]
        rng.shuffle(names)
        names += ['other %d' % i for i in range(12)][::-1]
        names.reverse()
    elif rng.random() < .6:
        names = rng.sample(PARAM_NAMES, len(PARAM_NAMES))
        gates = rng.sample(GATE_NAMES, rng.randint(2, 4))
    w = make_world(rng, storage=storage, rec=False, quantum=rng.choice([None, .125]), names=names, gates=gates)
    b = Bench(rec, 'random%d' % k, w.at, w.exp, w.gates, judge_kept=k % 3 == 1)
    skip = rng.randint(1, 8) if rng.random() < .25 and not storage else 0
    lossy = rng.choice([0, 0, .4, .8]) if not storage else 0
    may = False
    for step in range(steps):
        for g in w.groups:
            if g['kind'] == 'sensing':
                for p in g['cheap']:
                    w.exp.values[p] = (rng.choice([.5, 1.5, 4., 8., 16.]), rng.choice([.0625, .25]))
                for p in g['expensive']:
                    w.exp.values[p] = (dy(rng), rng.choice([.0625, .25]))
            elif rng.random() < .3:
                for p in g['params']:
                    p0, row, var = w.exp.model[p]
                    w.exp.model[p] = (p0 + dy(rng) / 16, row, rng.choice([.0625, .25, .125]))
        bad = None
        if rng.random() < .08 and step > 2:
            g = rng.choice(w.groups)
            bad = rng.choice(g['cheap'] if g['kind'] == 'sensing' else g['params'])
            w.exp.values[bad] = (np.nan, np.nan)
        if w.at.is_tuning_complete() and rng.random() < .7 or rng.random() < .05:
            for g in rng.sample(w.gates, rng.randint(0, len(w.gates))):
                w.exp.v[g] = dy(rng)
            LOG.clear()
            b.restart()
        elif rng.random() < .07:
            LOG.clear()
            w.at.change_targets(random_changes(rng, w.at, removable_of(w)))
            b.t.ev('restart')
            rec.count('target_changes')
        out = {rng.choice(['evaluate', 'set', 'read']): 'raise'} if rng.random() < .08 else {}
        if lossy:
            # Iterations are only left out in a climb at other voltages than those of the last row
            if b.at.current_tuner_index == 0 and not b.at.current_tuner_status and b.at.voltages_to_set is None:
                may = b.row is not None and tuple(vec(w.exp.v, b.gates)) != b.row
        b.iterate(append=step >= skip and not (may and rng.random() < lossy),
                  look=rng.random() < .4 or step == steps - 1, **out)
        if bad:
            w.exp.values.pop(bad)
        if plots and rng.random() < plots / steps:
            b.plot(rng)
    if storage and b.names:
        b.rebuild(rng, storage)
        shutil.rmtree(storage)


def dqd_history(rec, rng, k, tmp, steps, plots=0):
    """the tutorial: two groups share their gradient estimators"""
    storage = os.path.join(tmp, 'dqd%d' % k) if k % 2 == 0 else None
    w = make_dqd(rng, storage=storage, rec=False)
    b = Bench(rec, 'dqd%d' % k, w.at, w.exp, w.gates)
    for step in range(steps):
        if w.at.is_tuning_complete() or rng.random() < .02:
            w.exp.put({g: w.exp.v[g] + rng.randint(-8, 8) / 64 for g in rng.sample(w.gates, 2)})
            if rng.random() < .5:
                # hardly any signal is left
                w.exp.put(dict(SDB1=-.0009))
            LOG.clear()
            b.restart()
        out = {rng.choice(['evaluate', 'set', 'read']): 'raise'} if rng.random() < .05 else {}
        b.iterate(look=rng.random() < .1 or step == steps - 1, **out)
        if plots and b.row and rng.random() < plots / steps:
            b.plot(rng)
            for _ in range(3):
                b.plot_data(rng)
    if plots:
        b.plot(rng)
        b.plot_data(rng)
    rec.count('dqd_steps', steps)
    if storage and b.names:
        b.rebuild(rng, storage)
        shutil.rmtree(storage)


def windows_run(rec, rng, k, tmp, steps):
    """iterations run by the graphical interface, windows that are opened and closed"""
    from drv_gui import gui_module, APP
    storage = os.path.join(tmp, 'windows%d' % k)
    w = make_world(rng, storage=storage, rec=False)
    b = Bench(rec, 'windows%d' % k, w.at, w.exp, w.gates)
    h, at = b.h, w.at
    gui = gui_module.GUI(at, h)
    windows, done = [], []
    iterate, append = at.iterate, h.append_autotuner

    def watched(func, last):
        def call(*args, **kwargs):
            got = attempt(func, *args, **kwargs)
            if last or got[1] is not None:
                done.append(got)
            if got[1] is not None:
                raise got[1]
        return call
    at.iterate, h.append_autotuner = watched(iterate, False), watched(append, True)

    def wait(seconds):
        end = time.time() + seconds
        while time.time() < end:
            APP.processEvents()
            time.sleep(.005)

    def through():
        del done[:]
        gui.step()
        end = time.time() + 30
        while not done and time.time() < end:
            wait(.01)
        # the worker notices that the step is over
        wait(.06)
        return done[0] if done else ('raised', RuntimeError('no iteration'))

    def spawn(kind):
        before = set(APP.topLevelWidgets())
        gui.spawn_parameter_window() if kind == 'parameters' else gui.spawn_gradient_window()
        windows.extend((kind, x) for x in set(APP.topLevelWidgets()) - before if hasattr(x, 'getFigure'))
    try:
        for step in range(steps):
            for g in w.groups:
                if g['kind'] == 'sensing':
                    for p in g['cheap']:
                        w.exp.values[p] = (rng.choice([.5, 1.5, 4., 16.]), rng.choice([.0625, .25]))
                    for p in g['expensive']:
                        w.exp.values[p] = (dy(rng), rng.choice([.0625, .25]))
            if windows and rng.random() < .1:
                windows.pop(rng.randrange(len(windows)))[1].close()
                wait(.02)
            spawned = not windows or rng.random() < .2 and len(windows) < 3
            if spawned:
                spawn(rng.choice(['parameters', 'gradients']))
            if w.at.is_tuning_complete() or rng.random() < .05:
                for g in rng.sample(w.gates, rng.randint(0, len(w.gates))):
                    w.exp.v[g] = dy(rng)
                LOG.clear()
                b.restart()
            out = {rng.choice(['evaluate', 'set', 'read']): 'raise'} if rng.random() < .08 else {}
            # a window that was opened before anything is recorded shows the first iteration
            if b.iterate(look=False, through=through, **out) or rng.random() < .3:
                b.windows(windows, wait)
                if rng.random() < .2 and len(windows) < 3:
                    spawn(rng.choice(['parameters', 'gradients']))
                    b.windows(windows, wait)
    finally:
        gui.close()
        for _, x in windows:
            x.close()
        wait(.02)
        w.at.asynchrone_writer.join()
        shutil.rmtree(storage, ignore_errors=True)


def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp()
    # states are stored and read again
    often = pid not in ('Y01', 'Y03', 'Y04')
    plots = 2 if pid == 'Y04' else 0
    every = 'Y01,Y02,Y03,Y04'
    try:
        if pid == 'U04':
            for k in range(6 if tier == 'quick' else 100):
                rec.guard('windows%d' % k, windows_run, rec, rng, k, tmp, 15 if tier == 'quick' else 30, pids='U04')
            return
        for g in graphs:
            rec.guard('replay', replay, rec, rng, g, tier, tmp, often, plots, pids=every)
        for k in range((14 if often else 20) if tier == 'quick' else 400):
            rec.guard('random%d' % k, random_history, rec, rng, k, tmp, 24, often, (.8 if pid == 'Y03' else .3), plots,
                      pids=every)
        for k in range(2 if tier == 'quick' else 20):
            rec.guard('dqd%d' % k, dqd_history, rec, rng, k, tmp, 60 if tier == 'quick' else 150, plots * 3, pids=every)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    driver_main(run)
