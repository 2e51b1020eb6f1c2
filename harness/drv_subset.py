"""Driver of SubsetTuner and SensingDotTuner: paths through the state graph of SubsetMC and random histories."""
from common import *
from world import *


class _RecSolver:
    def update_after_step(self, position, values, variances):
        LOG.calls.append(dict(k='update', v=vec(position, LOG.gates), vals=vec(values, LOG.params),
                              vars=vec(variances, LOG.params), ps=[]))
        return super().update_after_step(position, values, variances)

    def suggest_next_position(self, tuned_parameters=None):
        res = super().suggest_next_position(tuned_parameters=tuned_parameters)
        LOG.calls.append(dict(k='suggest', v=vec(res, LOG.gates), vals=[], vars=[],
                              ps=sorted(str(p) for p in (tuned_parameters or ()))))
        return res


class _Scripted(Solver):
    def __init__(self, target, current_position):
        self._target = target
        self._current_position = current_position

    def suggest_next_position(self, tuned_parameters=None):
        return LOG.out['sol']

    def update_after_step(self, position, values, variances):
        # a solver may do with its arguments what it wants, but leaves them alone by convention
        self.current_position = position

    def to_hdf5(self):
        return dict(target=self._target, current_position=self._current_position)


class RecScripted(_RecSolver, _Scripted):
    def to_hdf5(self):
        return super().to_hdf5()


class RecForwarding(_RecSolver, ForwardingSolver):
    def to_hdf5(self):
        return super().to_hdf5()


class RecNewton(_RecSolver, NewtonSolver):
    def to_hdf5(self):
        return super().to_hdf5()


class KeyedEvaluator(ScriptEvaluator):
    """values of its own"""

    def evaluate(self):
        LOG.calls.append(dict(k='evaluate', name=self.name))
        if LOG.out.get('evaluate') in ('raise', self.name):
            raise Injected('evaluate')
        data = [self.experiment.values[self.name, p] for p in self.parameters]
        return (pd.Series([float(d[0]) for d in data], index=list(self.parameters)),
                pd.Series([float(d[1]) for d in data], index=list(self.parameters)))

    def to_hdf5(self):
        return super().to_hdf5()


FACTORS = [(1, 1), (1, 1), (2, 1), (1, 2), (3, 1), (1, 4)]


class Bench:
    """one tuner with everything around it"""

    def __init__(self, rec, name, tuner, exp, gates, params, cfg, factors):
        self.tuner, self.exp, self.gates, self.params = tuner, exp, gates, params
        self.factors = factors
        LOG.gates, LOG.params = gates, params
        cfg = dict(cfg, rf=[list(factors[p]) for p in params])
        for k, v in dict(nexp=0, cheap=[], exp=[], map=[0] * len(params), forwarding=0, max=NaN, num=1).items():
            cfg.setdefault(k, v)
        self.kind = cfg['kind']
        # the target as requested by the user
        self.want = self.tuner.target[CATEGORIES].astype(float).copy()
        self.t = rec.new(name, cfg, dict(self.post(), target=self.target()))

    def target(self):
        return [[enc(self.want.loc[p, c]) for c in CATEGORIES] for p in self.params]

    def post(self):
        d = self.tuner.to_hdf5()
        vals, variances = self.tuner.last_parameters_and_variances
        return dict(last=vec(self.tuner.last_voltages, self.gates), failed=as_bool(self.tuner.last_evaluation_failed),
                    good=[vec(v, self.gates) for v in d['evaluatable_voltages']],
                    tuned=[vec(v, self.gates) for v in self.tuner.tuned_voltages],
                    vals=vec(vals, self.params), vars=vec(variances, self.params))

    def raw(self, cheap=None):
        """what the evaluators would return now"""
        evs = self.tuner.evaluators if cheap is None else \
            self.tuner.cheap_evaluators if cheap else self.tuner.expensive_evaluators
        vals, variances = {}, {}
        for e in evs:
            for p in e.parameters:
                vals[p], variances[p] = self.exp.values[e.name, p]
        return ([enc(vals.get(p, np.nan)) for p in self.params],
                [enc(variances.get(p, np.nan)) for p in self.params])

    def record(self, op, exc, **more):
        evs = [c['name'] for c in LOG.calls if c['k'] == 'evaluate']
        self.t.ev(op, exc=exc, nev=len(evs), ncheap=len([n for n in evs if n.startswith('cheap')]),
                  nexp=len([n for n in evs if n.startswith('expensive')]),
                  first=evs[0][:5] if evs else 'none',
                  solver=[c for c in LOG.calls if c['k'] in ('update', 'suggest')], post=self.post(), **more)

    def judge(self, v, **out):
        LOG.clear(**out)
        res = []
        exc, e = attempt(lambda: res.append(self.tuner.is_tuned(v)))
        if self.kind == 'subset':
            raw, rawvar = self.raw()
            more = dict(raw=raw, rawvar=rawvar)
        else:
            raw, rawvar = self.raw(True)
            raw2, rawvar2 = self.raw(False)
            exp_done = [c for c in LOG.calls if c['k'] == 'evaluate' and c['name'].startswith('expensive')]
            ch = [p for e_ in self.tuner.cheap_evaluators for p in e_.parameters]
            ex = [p for e_ in self.tuner.expensive_evaluators for p in e_.parameters]
            src, own = (raw2, ex) if exp_done else (raw, ch)
            more = dict(raw=raw, rawvar=rawvar, raw2=raw2, rawvar2=rawvar2,
                        given=[src[i] if p in own else MISS for i, p in enumerate(self.params)])
        self.record('judge', exc, v=vec(v, self.gates), ret=as_bool(res[0]) if res else 7, **more)
        return res[0] if res else None

    def next(self, sol=None, tuned=None):
        LOG.clear(sol=sol)
        res = []
        exc, e = attempt(lambda: res.append(self.tuner.get_next_voltages(tuned_parameters=tuned)))
        self.record('next', exc, res=vec(res[0] if res else None, self.gates),
                    ps=sorted(str(p) for p in (tuned or ())))
        return res[0] if res else None

    def restart(self, v):
        LOG.clear()
        exc, e = attempt(self.tuner.restart, v)
        self.record('restart', exc)

    def targets(self, changes):
        for c, ser in changes.items():
            for p in ser.index:
                self.want.loc[p, c] = ser[p]
        LOG.clear()
        exc, e = attempt(lambda: setattr(self.tuner, 'target', changes))
        self.record('targets', exc, target=self.target())


def make_subset(rec, rng, name, max_size=None, num=None, solver_kind=None, gates=None, own=None):
    gates = gates or rng.choice([['B', 'A'], ['A', 'B', 'C'], ['T', 'N', 'S', 'G']])
    own = own or rng.sample(gates, rng.randint(1, len(gates)))
    exp = SimExperiment(gates, [dy(rng) for _ in gates])
    n = rng.randint(1, len(own)) if solver_kind == 'newton' else rng.randint(1, 3)
    params = ['q' + c for c in rng.sample('abcz', n)]
    fr = {p: rng.choice(FACTORS) for p in params}
    desired = pd.Series([dy(rng) for _ in params], index=params)
    tol = pd.Series([rng.choice([.25, .125, .5]) for _ in params], index=params)
    dropped = None
    if len(params) > 1 and rng.random() < .4:
        desired[rng.choice(params)] = np.nan
        if rng.random() < .3:
            dropped = desired.index[desired.isna()][0]
    if len(params) > 1 and rng.random() < .3:
        tol[rng.choice(params)] = np.nan
    target = make_target(desired=desired, tolerance=tol,
                         rescaling_factor=pd.Series({p: fr[p][0] / fr[p][1] for p in params}))
    pos = exp.v[rng.sample(own, len(own))].copy()
    solver_kind = solver_kind or rng.choice(['script', 'script', 'newton'])
    if solver_kind == 'newton' and n <= len(own) and dropped is None:
        rows = [{g: rng.choice([-2., -1., 1., 2., .5]) if g == own[i] else rng.choice([0., 0., .5, -.5])
                 for g in own} for i in range(n)]
        solver = RecNewton(target, [build_gradient(rng, 'exact', list(pos.index), r, pos) for r in rows], pos)
    else:
        solver_kind = 'script'
        solver = RecScripted(target, pos)
    declared = [p for p in params if p != dropped]
    rng.shuffle(declared)
    if rng.random() < .4:
        declared.append('unused')
    cut = rng.randint(0, len(declared))
    evs = [KeyedEvaluator(exp, part, 'eval%d' % i) for i, part in enumerate([declared[:cut], declared[cut:]]) if part]
    max_size = max_size if max_size is not None else rng.choice([np.nan, .5, .25, 1.])
    num = num or rng.choice([1, 2, 3, 5])
    tuner = SubsetTuner(evs, own, solver=solver, maximal_step_size=max_size, maximal_step_number=num,
                        last_voltage=rng.choice([None, exp.v.copy()]))
    b = Bench(rec, name, tuner, exp, gates, params,
              dict(kind='subset', max=enc(max_size), num=num, nevals=len(evs)), fr)
    b.own, b.declared, b.num, b.solver_kind = own, declared, num, solver_kind
    b.declared_params = [p for p in params if p in declared]
    return b


def random_targets(b, rng):
    """another target: values change, are removed or given for the first time"""
    T, changes = b.want, {}
    for c in rng.sample(['desired', 'tolerance'], rng.randint(1, 2)):
        ser = {}
        for p in rng.sample([p for p in b.params if p in b.declared], rng.randint(1, len(b.declared_params))):
            if rng.random() < .2 and (c == 'tolerance' or (T.desired.notna() & (T.index != p)).any()):
                ser[p] = np.nan
            elif c == 'desired':
                ser[p] = dy(rng)
            else:
                ser[p] = rng.choice([.25, .125, .5, 1.])
        if c == 'desired' and not any(ser.get(p, T.desired[p]) == ser.get(p, T.desired[p]) for p in b.params):
            continue
        changes[c] = pd.Series(ser, dtype=float)
    return changes


def script_subset(b, rng, how):
    """choose measured values: 'pass', 'fail', 'undefined' or 'random'"""
    T = b.want
    victim = None
    with_target = [p for p in b.params if T.desired[p] == T.desired[p] and T.tolerance[p] == T.tolerance[p]]
    if how == 'fail' and with_target:
        victim = rng.choice(with_target)
    for e in b.tuner.evaluators:
        for p in e.parameters:
            if p not in b.params:
                b.exp.values[e.name, p] = rng.choice([(dy(rng), 1.), (np.nan, np.nan)])
                continue
            f = b.factors[p][0] / b.factors[p][1]
            d, t = T.desired[p], T.tolerance[p]
            if math.isnan(d):
                x = dy(rng)
            elif math.isnan(t):
                x = d + dy(rng)
            elif p == victim:
                x = d + t * rng.choice([1., -1., 2., -4., 1.5])
            elif how == 'random':
                x = d + t * rng.choice([0., .5, -.5, 1., -1., 2., -.96875, .96875])
            else:
                x = d + t * rng.choice([0., .5, -.5, .96875, -.96875])
            b.exp.values[e.name, p] = (x * f, rng.choice([.0625, .25, 1.]))
    if how == 'undefined':
        used = [c for c in CATEGORIES if not T[c].isna().all()]
        relevant = [p for p in b.params if not T.loc[p, used].isna().any() and p in b.declared]
        if relevant:
            p = rng.choice(relevant)
            for e in b.tuner.evaluators:
                if p in e.parameters:
                    b.exp.values[e.name, p] = (np.nan, np.nan)
    elif how == 'infinite' and with_target:
        p = rng.choice(with_target)
        for e in b.tuner.evaluators:
            if p in e.parameters:
                b.exp.values[e.name, p] = (rng.choice([np.inf, -np.inf]), 1.)


def random_subset(rec, rng, name, steps, **kw):
    b = make_subset(rec, rng, name, **kw)
    quantum = rng.choice([None, None, .0625])
    v = b.exp.v.copy()
    more_fail = rng.choice([0, 4])
    far = rng.choice([.5, 2., 3., 3.])
    for _ in range(steps):
        known = len(b.tuner.to_hdf5()['evaluatable_voltages']) > 0
        how = rng.choice(['pass', 'fail', 'fail', 'fail', 'random'] + ['fail'] * more_fail + (['undefined'] * 2 if known else []) +
                         (['infinite'] if b.solver_kind == 'script' else []))
        script_subset(b, rng, how)
        out = {}
        if rng.random() < .04:
            out = dict(evaluate=rng.choice(['raise'] + [e.name for e in b.tuner.evaluators]))
        names = list(v.index)
        rng.shuffle(names)
        res = b.judge(v[names].copy(), **out)
        rec.count('judgements')
        if res is None:
            continue
        if res and rng.random() < .8:
            x = rng.random()
            if x < .5:
                v = v.copy()
                for g in rng.sample(b.gates, rng.randint(0, len(b.gates))):
                    v[g] = dy(rng)
                b.restart(v.copy())
                rec.count('restarts')
            elif x < .8:
                b.targets(random_targets(b, rng))
                rec.count('target_changes')
            continue
        if rng.random() < .06:
            b.targets(random_targets(b, rng))
            rec.count('target_changes')
        sol = v[b.own].copy()
        if rng.random() < .9:
            for g in rng.sample(b.own, rng.randint(1, len(b.own))):
                sol[g] = sol[g] + rng.choice([dy(rng, -1, 1) * far, .25, .5, .75, 1., -1.5])
        ntot = [g for g in rng.sample(b.own, len(b.own))]
        nxt = b.next(sol[ntot], rng.choice([None, set(), {'other'}, {'other', 'another'}]))
        if nxt is None:
            return
        if nxt.isna().any() or nxt.abs().max() > 50:
            return
        v = v.copy()
        for g in nxt.index:
            v[g] = round(nxt[g] / quantum) * quantum if quantum else nxt[g]
        if v.abs().max() > 6:
            v = v.clip(-3, 3).round()
            b.restart(v.copy())


def replay_subset(rec, rng, graph, tier, max_size, num):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=30, max_paths=None if tier == 'thorough' else 50)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    rec.count('graph_edges_uncovered', left)

    def at(n):
        import re
        return int(re.search(r'at \|-> <<(-?\d+)>>', nodes[n]['s']).group(1)) / SC

    for k, (start, path) in enumerate(paths):
        gates = ['A', 'B']
        b = make_subset(rec, rng, 'subset-graph%d' % k, max_size=max_size, num=num, solver_kind='script', gates=gates,
                        own=rng.choice([['B'], ['B'], ['B', 'A']]))
        v = b.exp.v.copy()
        v['B'] = at(start)
        b.restart(v.copy())
        for a, i, n in path:
            op = nodes[n]['op'].strip('"')
            rec.count('replayed_steps')
            if op in ('skip', 'pass', 'fail', 'undefined'):
                script_subset(b, rng, 'fail' if op == 'skip' else op)
                b.judge(v.copy())
            elif op.startswith('next_') or op == 'recover':
                sol = v[b.own].copy()
                if op != 'recover':
                    sol['B'] = int(op[5:]) / SC
                b.next(sol)
                v = v.copy()
                v['B'] = at(n)
            elif op.startswith('restart_'):
                v = v.copy()
                v['B'] = at(n)
                b.restart(v.copy())
            else:
                raise KeyError(op)


def make_sensing(rec, rng, name, forwarding):
    gates = rng.choice([['B', 'A'], ['A', 'B', 'C'], ['T', 'N', 'S', 'G']])
    exp = SimExperiment(gates, [dy(rng) for _ in gates])
    own = rng.sample(gates, rng.randint(1, min(3, len(gates))))
    pool = rng.sample(['a', 'c', 'e', 'g', 'x', 'z'], 5)
    cheap = pool[:rng.randint(1, 2)]
    expensive = pool[2:2 + rng.randint(1, 3)]
    x = rng.random()
    if x < .25:
        expensive.append(cheap[0])
    elif x < .5:
        # the same parameters, measured better
        expensive = list(cheap)
    params = sorted(set(cheap + expensive))
    rng.shuffle(params)
    fr = {p: rng.choice(FACTORS) for p in params}
    lim = rng.sample(cheap, rng.randint(1, len(cheap)))
    if rng.random() < .4:
        # limits of parameters which are only measured by the expensive evaluators
        lim += [p for p in expensive if p not in cheap and rng.random() < .5]
    minimum = pd.Series([rng.choice([1., 2.]) if p in lim else np.nan for p in params], index=params)
    cost = pd.Series([minimum[p] * rng.choice([.5, 1., 1.]) - rng.choice([0., .25]) if p in lim and rng.random() < .8
                      else np.nan for p in params], index=params)
    target = make_target(desired=pd.Series(np.nan, index=params), minimum=minimum, cost_threshold=cost,
                         rescaling_factor=pd.Series({p: fr[p][0] / fr[p][1] for p in params}))
    mapping = pd.Series(dtype=object)
    mapped = rng.sample(params, min(len(params), len(own)))
    for p, g in zip(mapped, own):
        if rng.random() < .85:
            mapping[p] = g
    if rng.random() < .3:
        rest = [p for p in params if p not in mapping.index]
        if rest:
            mapping[rest[0]] = np.nan
    solver = RecForwarding(target, mapping, exp.v[own].copy()) if forwarding else RecScripted(target, exp.v[own].copy())

    def evaluators(kind, ps):
        cut = rng.randint(0, len(ps))
        return [KeyedEvaluator(exp, part, '%s%d' % (kind, i)) for i, part in enumerate([ps[:cut], ps[cut:]]) if part]
    ce, ee = evaluators('cheap', cheap), evaluators('expensive', expensive)
    tuner = SensingDotTuner(cheap_evaluators=ce, expensive_evaluators=ee, gates=own, solver=solver,
                            last_voltage=rng.choice([None, exp.v.copy()]))
    b = Bench(rec, name, tuner, exp, gates, params,
              dict(kind='sensing', nevals=len(ce), nexp=len(ee), cheap=[params.index(p) + 1 for p in cheap],
                   exp=[params.index(p) + 1 for p in expensive], forwarding=int(forwarding),
                   map=[gates.index(mapping[p]) + 1 if p in mapping.index and isinstance(mapping[p], str) else 0
                        for p in params]), fr)
    b.own, b.cheap, b.expensive = own, cheap, expensive
    return b


def random_sensing(rec, rng, name, steps):
    b = make_sensing(rec, rng, name, rng.random() < .7)
    v = b.exp.v.copy()
    for _ in range(steps):
        T = b.want
        good = rng.random() < .3
        for e in b.tuner.evaluators:
            for p in e.parameters:
                f = b.factors[p][0] / b.factors[p][1]
                m, c = T.minimum[p], T.cost_threshold[p]
                if e.name.startswith('cheap') and m == m:
                    c = c if c == c else m
                    x = m + rng.choice([.125, 1., 2.]) if good else \
                        rng.choice([m, m, m - .125, c, c, c + .125, c - .125, m + .125, m + 1.])
                else:
                    x = dy(rng)
                b.exp.values[e.name, p] = (x * f, rng.choice([.0625, .25, 1.]))
        if b.tuner.tuned_voltages and rng.random() < .2:
            p = rng.choice(b.cheap)
            for e in b.tuner.cheap_evaluators:
                if p in e.parameters:
                    b.exp.values[e.name, p] = (np.nan, np.nan)
            rec.count('sensing_undefined')
        names = list(v.index)
        rng.shuffle(names)
        out = {}
        if rng.random() < .04:
            out = dict(evaluate=rng.choice(['raise'] + [e.name for e in b.tuner.evaluators]))
        res = b.judge(v[names].copy(), **out)
        rec.count('sensing_judgements')
        if res is None:
            continue
        if res:
            v = v.copy()
            for g in rng.sample(b.gates, rng.randint(0, len(b.gates))):
                v[g] = dy(rng)
            b.restart(v.copy())
            continue
        sol = v[b.own].copy()
        for g in b.own:
            sol[g] = dy(rng)
        nxt = b.next(sol)
        if nxt is None or nxt.isna().any():
            return
        v = v.copy()
        v[nxt.index] = nxt
        if v.abs().max() > 50:
            v = v.clip(-3, 3)
            b.restart(v.copy())


def run(rec, rng, tier, pid, graphs):
    n, steps = (24, 40) if tier == 'quick' else (250, 100)
    if pid != 'T04':
        for g in graphs:
            rec.guard('subset-replay', replay_subset, rec, rng, g, tier, 1., 3, pids='T01,T02,T03')
        for k in range(n):
            rec.guard('subset%d' % k, random_subset, rec, rng, 'subset%d' % k, steps, pids='T01,T02,T03,T05')
    if pid not in ('T01', 'T02'):
        for k in range(n):
            rec.guard('sensing%d' % k, random_sensing, rec, rng, 'sensing%d' % k, steps, pids='T03,T04,T05')


if __name__ == '__main__':
    driver_main(run)
