"""Driver of the tuning loop: paths through the state graph of LoopMC with scripted groups, and random runs
with groups of the library."""
from common import *
from world import *
from dqd import make_dqd


def projection(at, exp, gates):
    d = loop_state(at, exp, gates)
    d['members'] = members_of(at, gates)
    d['books'] = books_of(at, gates)
    d['queue'] = [int(t.to_hdf5().get('number_queued_steps', 0)) for t in at.tuning_hierarchy]
    return d


def state_init(at, exp, gates, params):
    d = projection(at, exp, gates)
    d['targets'] = targets_of(at, params)
    return d


def targeted(at, params):
    """parameters with a target, per group (an entry in every category used by the group)"""
    out = []
    for t in at.tuning_hierarchy:
        df = t.target
        used = [c for c in df.columns if not df[c].isna().all()]
        out.append(sorted(params.index(p) + 1 for p in df.index if not df.loc[p, used].isna().any()))
    return out


class Runner:
    def __init__(self, rec, name, at, exp, gates, params):
        self.at, self.exp, self.gates, self.params = at, exp, gates, params
        self.coh = True
        self.t = rec.new(name, dict(n=len(at.tuning_hierarchy), gates=len(gates), targeted=targeted(at, params)),
                         state_init(at, exp, gates, params))

    def _record(self, op, exc, **more):
        calls = [c for c in LOG.calls if c['k'] in ('judge', 'next', 'set', 'restart')]
        nev = len([c for c in LOG.calls if c['k'] == 'evaluate'])
        self.t.ev(op, exc=exc, calls=calls, nev=nev, post=projection(self.at, self.exp, self.gates),
                  coh=int(self.coh), **more)

    def iterate(self, **out):
        LOG.clear(**out)
        exc, e = attempt(self.at.iterate)
        self._record('iterate', exc)
        return exc

    def restart(self, new=None):
        """somebody changes voltages by hand and restarts"""
        if new is not None and hasattr(self.exp, 'put'):
            self.exp.put(new)
        elif new is not None:
            for g, x in new.items():
                self.exp.v[g] = x
        LOG.clear()
        exc, e = attempt(self.at.restart)
        self._record('restart', exc)

    def fresh(self, must=False):
        """measure everything again at the present voltages; must: the tuning has to be complete by now"""
        LOG.clear()
        groups = []
        complete = as_bool(self.at.is_tuning_complete())
        for tuner in self.at.tuning_hierarchy:
            # judged by the cheap measurement
            evs = tuner.to_hdf5().get('cheap_evaluators', tuner.evaluators)
            kind = 'sensing' if isinstance(tuner, SensingDotTuner) else 'subset'
            df = tuner.target
            rows = []
            for ev in evs:
                vals, _ = ev.evaluate()
                rows += [[enc(float(vals[p]) / float(df.loc[p, 'rescaling_factor'])),
                          [enc(df.loc[p, c]) for c in CATEGORIES]] for p in vals.index if p in df.index]
            groups.append(dict(kind=kind, rows=rows))
        LOG.clear()
        self._record('fresh', 'none', groups=groups, must=int(must), wasComplete=complete)

    def rename(self, gate):
        if gate in self.exp.hidden:
            self.exp.hidden.discard(gate)
            self.coh = True
        else:
            self.exp.hidden.add(gate)
            self.coh = False
        LOG.clear()
        self._record('rename', 'none')

    def targets(self, changes):
        """changes: list of dicts of series"""
        flat = []
        for i, d in enumerate(changes):
            for c, ser in d.items():
                for p in ser.index:
                    flat.append([i + 1, self.params.index(p) + 1, CATEGORIES.index(c) + 1, enc(ser[p])])
        LOG.clear()
        exc, e = attempt(self.at.change_targets, changes)
        self.t.d['cfg'].setdefault('dummy', 0)
        self._record('targets', exc, changes=flat, targets=targets_of(self.at, self.params),
                     targeted=targeted(self.at, self.params))


def scripted(rec, rng, name, n, with_targets=True):
    """n scripted groups on three gates"""
    gates = ['B', 'A', 'C']
    exp = SimExperiment(gates, [0., dy(rng), dy(rng)])
    params, hierarchy = [], []
    for i in range(n):
        k = rng.randint(1, 3)
        ps = ['q%d%s' % (i, c) for c in 'cab'[:k]]
        params += ps
        desired = pd.Series([dy(rng) for _ in ps], index=ps)
        tol = pd.Series([.25 for _ in ps], index=ps)
        if rng.random() < .4:
            desired[rng.choice(ps)] = np.nan
        if rng.random() < .3:
            tol[rng.choice(ps)] = np.nan
        # scripted groups have no evaluators: the target keeps one category per parameter empty
        target = make_target(desired=desired, tolerance=tol)
        own = rng.sample(gates, rng.randint(1, 3)) if i else list(gates)
        if 'B' not in own:
            own.append('B')
        solver = PlainSolver(target, exp.v[own].copy())
        hierarchy.append(ScriptTuner((), solver, last_voltage=exp.v.copy() if rng.random() < .5 else
                                     exp.v[own].copy() if i else None))
    at = Autotuner(exp, hierarchy)
    use_world(at, gates, params)
    return Runner(rec, name, at, exp, gates, params)


def replay(rec, rng, graph, tier):
    nodes, edges, init = read_graph(graph)
    max_paths = None if tier == 'thorough' else 70
    paths, left = cover_paths(nodes, edges, init, rng, max_len=40, max_paths=max_paths)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    rec.count('graph_edges_uncovered', left)
    n = int(nodes[init[0]]['s'].split('n |-> ')[1].split(',')[0].split(']')[0])
    for k, (start, path) in enumerate(paths):
        r = scripted(rec, rng, 'graph%d' % k, n)
        v0 = int(nodes[start]['s'].split('volts |-> <<')[1].split('>>')[0])
        r.exp.v['B'] = v0 / SC
        r.t.d['init'] = state_init(r.at, r.exp, r.gates, r.params)
        for a, i, b in path:
            op = nodes[b]['op'].strip('"')
            rec.count('replayed_steps')
            if op in ('refused', 'apply', 'tuned', 'not', 'judge_raises', 'compute_raises', 'apply_raises') \
                    or op.startswith('suggest_'):
                out = dict(judge='odd', next='raise')
                if op == 'tuned' or op == 'not':
                    out = dict(judge=op, next='raise')
                elif op == 'judge_raises':
                    out = dict(judge='raise', next='raise')
                elif op == 'apply_raises':
                    out = dict(set='raise')
                elif op.startswith('suggest_'):
                    v = int(op.split('_')[1])
                    ser = {} if v == MISS else {'B': np.nan if v == NaN else v / SC}
                    if ser and rng.random() < .5:
                        ser[rng.choice(['A', 'C'])] = dy(rng)
                    names = list(ser)
                    rng.shuffle(names)
                    out = dict(judge='raise', next=pd.Series([ser[x] for x in names], index=names, dtype=float))
                r.iterate(**out)
            elif op.startswith('restart_'):
                new = {'B': int(op.split('_')[1]) / SC}
                if rng.random() < .5:
                    new['C'] = dy(rng)
                r.restart(new)
            elif op == 'targets':
                r.targets(random_changes(rng, r.at))
            elif op == 'rename':
                r.rename('B')
            else:
                raise KeyError(op)


def random_run(rec, rng, name, steps, kinds=None):
    w = make_world(rng, kinds=kinds, quantum=rng.choice([None, None, .0625]))
    r = Runner(rec, name, w.at, w.exp, w.gates, w.params)
    for g in w.groups:
        rec.count('groups_' + g['kind'])
    for _ in range(steps):
        # scripted values of parameters that do not follow a model
        for g in w.groups:
            if g['kind'] == 'sensing':
                for p in g['cheap']:
                    w.exp.values[p] = (rng.choice([.5, 1.5, 4., 8., 16.]), .0625)
                for p in g['expensive']:
                    w.exp.values[p] = (dy(rng), .0625)
        # an evaluation may fail where there is something to recover to
        bad = []
        for g, t in zip(w.groups, w.at.tuning_hierarchy):
            d = t.to_hdf5()
            known = d['tuned_voltages'] if g['kind'] == 'sensing' else d['evaluatable_voltages']
            if known and rng.random() < .1:
                p = rng.choice(g['params'] if g['kind'] != 'sensing' else g['cheap'])
                bad.append((p, w.exp.values.get(p)))
                w.exp.values[p] = (np.nan, np.nan)
        x = rng.random()
        out = {}
        if x < .06:
            out = {rng.choice(['evaluate', 'set', 'read']): 'raise'}
        elif x < .1:
            out = {'evaluate': rng.choice([e.name for t in w.at.tuning_hierarchy for e in t.evaluators])}
        if w.at.is_tuning_complete():
            rec.count('completed')
        if w.at.is_tuning_complete() and rng.random() < .7 or x > .97:
            if rng.random() < .5:
                new = {g: dy(rng) for g in rng.sample(w.gates, rng.randint(0, len(w.gates)))}
                r.restart(new)
            else:
                r.targets(random_changes(rng, w.at, removable_of(w)))
        elif x > .955:
            g = rng.choice(w.gates)
            r.rename(g)
            r.iterate()
            r.rename(g)
        else:
            r.iterate(**out)
        for p, old in bad:
            if old is None:
                w.exp.values.pop(p, None)
            else:
                w.exp.values[p] = old
        rec.count('random_steps')


def whole(rec, rng, name, dqd):
    """tunings from the beginning to the end, everything depends on the voltages only"""
    must = False
    if dqd:
        w = make_dqd(rng, shared=rng.random() < .7)
        rec.count('dqd')
    else:
        must = rng.random() < .6
        gates = ['B', 'A', 'C', 'F', 'E', 'D'][:rng.randint(3, 6)]
        w = make_world(rng, gates=gates, settled=True, separate=must, quantum=rng.choice([None, None, 1 / 256]),
                       cross=rng.choice([0., .25, .5]) if must else 0., n_groups=rng.choice([None, 2, 3]) if must else None,
                       kinds=['exact', 'exact', 'fd', 'sym', 'self', 'sensing', 'sensing'] +
                       ([] if must else ['kalman', 'neldermead']))
    r = Runner(rec, name, w.at, w.exp, w.gates, w.params)
    for g in w.groups:
        rec.count('groups_' + g['kind'])
    budget = 700 if dqd else 900 if must else 250
    rounds = rng.choice([1, 1, 2] if dqd else [1, 1, 2, 3])
    for k in range(rounds):
        for i in range(budget):
            if w.at.is_tuning_complete():
                break
            x = rng.random()
            out = {}
            if x < .02:
                out = {rng.choice(['evaluate', 'set', 'read']): 'raise'}
            r.iterate(**out)
            rec.count('whole_steps')
        rec.count('whole_complete' if w.at.is_tuning_complete() else 'whole_incomplete')
        r.fresh(must)
        if k + 1 < rounds:
            if dqd:
                r.restart({g: float(w.exp.v[g]) + dy(rng) / 16 for g in rng.sample(w.gates, 3)})
            elif rng.random() < .5:
                # desired values change
                r.targets([dict(desired=pd.Series({p: dy(rng) for p in t.target.index[t.target.desired.notna()]},
                                                  dtype=float)) for t in w.at.tuning_hierarchy])
            else:
                r.restart({g: dy(rng) for g in rng.sample(w.gates, rng.randint(1, len(w.gates)))})


def run(rec, rng, tier, pid, graphs):
    for g in graphs:
        rec.guard('replay', replay, rec, rng, g, tier, pids='A')
    n, steps = (12, 40) if tier == 'quick' else (120, 120)
    for k in range(n):
        rec.guard('random%d' % k, random_run, rec, rng, 'random%d' % k, steps, pids='A')
    for k in range((14 if pid == 'A07' else 4) if tier == 'quick' else 150):
        rec.guard('whole%d' % k, whole, rec, rng, 'whole%d' % k, k % 7 == 3, pids='A')


if __name__ == '__main__':
    driver_main(run)
