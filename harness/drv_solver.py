"""Driver of the solvers: Nelder-Mead along the paths of SolverMC and at random, Newton with scripted gradient
estimators, forwarding."""
import os
import shutil
import tempfile
from math import gcd

import sympy

from common import *
from world import dy, attempt
from qtune.gradient import GradientEstimator
from qtune.solver import NewtonSolver, NelderMeadSolver, ForwardingSolver, make_target
from qtune.storage import to_hdf5, from_hdf5

GATES = [['B'], ['B', 'A'], ['C', 'A', 'B'], ['T', 'N', 'S', 'G']]


class ScriptEst(GradientEstimator):
    """a gradient that is known and asks for what it is told to ask for"""

    def __init__(self, row, position):
        self._row, self._current_position = row, position
        self.ask = None
        self.got, self.told, self.restarts = [], [], []

    def estimate(self):
        return self._row.copy()

    def covariance(self):
        return pd.DataFrame(np.eye(len(self._row)), index=self._row.index, columns=self._row.index)

    def require_measurement(self, gates=None, tuned_jacobian=None):
        self.told.append((gates, tuned_jacobian))
        return self.ask

    def update(self, position, value, covariance, is_new_position=False):
        self.got.append((position, value, covariance, is_new_position))

    def restart(self, new_position):
        self.restarts.append(new_position)
        super().restart(new_position)

    def to_hdf5(self):
        return dict(row=self._row, position=self._current_position)


def shuffled(rng, series, junk=()):
    """the same series in another order and with entries the solver does not know"""
    names = list(series.index)
    rng.shuffle(names)
    out = series[names]
    for j in junk:
        if rng.random() < .4:
            out = pd.Series({j: 7.25}).append(out) if rng.random() < .5 else out.append(pd.Series({j: 7.25}))
    return out


def store(tmp, solver):
    path = tmp + '/solver.hdf5'
    if os.path.exists(path):
        os.remove(path)
    to_hdf5(path, 'solver', solver, reserved={})
    return from_hdf5(path, reserved={})['solver']


# --------------------------------------------------------------------------------------------- Nelder-Mead
class NmBench:
    def __init__(self, rec, rng, name, n, params, desired, first, span=None, pos=None, rf=None):
        self.rng, self.rec = rng, rec
        self.gates = list(GATES[n - 1])
        self.params = params
        span = span if span is not None else pd.Series([rng.choice([.25, .5, 1.]) for _ in self.gates],
                                                       index=self.gates)
        pos = pos if pos is not None else pd.Series([dy(rng) for _ in self.gates], index=self.gates)
        target = make_target(desired=desired, tolerance=pd.Series(.25, index=params))
        self.solver = NelderMeadSolver.from_scratch(target=target, span=shuffled(rng, span, ['Z']),
                                                    current_position=pos.copy(),
                                                    current_values=shuffled(rng, first, ['q']))
        self.t = rec.new(name, dict(kind='nm', n=n, desired=[enc(desired[p]) for p in params],
                                    span=[enc(span[g]) for g in self.gates], rf=[], map=[]), self.obs())

    def point(self, x):
        return dict(p=vec(x[0], self.gates), v=vec(x[1], self.params))

    def obs(self):
        d = self.solver.to_hdf5()
        return dict(phase=d['state'], simplex=[self.point(x) for x in self.solver.simplex],
                    refl=[self.point(d['reflected_point'])] if d['reflected_point'] is not None else [],
                    shrunk=[self.point(x) for x in d['shrunk_points']],
                    costs=[enc(c) // (SC // 16) for c in self.solver.get_costs()],
                    pos=vec(self.solver.current_position, self.gates),
                    vals=vec(self.solver.current_values, self.params))

    def suggest(self):
        res = []
        exc, _ = attempt(lambda: res.append(self.solver.suggest_next_position(
            tuned_parameters=self.rng.choice([None, set(), set(self.params[:1])]))))
        r = res[0] if res else None
        self.t.ev('suggest', exc=exc, req=vec(r, self.gates), post=self.obs())
        return r

    def update(self, p, v):
        p, v = p[self.gates].astype(float), v[self.params]
        exc, _ = attempt(self.solver.update_after_step, shuffled(self.rng, p, ['Z']), shuffled(self.rng, v, ['q']),
                         shuffled(self.rng, v * 0 + .0625, ['q']))
        self.t.ev('update', exc=exc, p=vec(p, self.gates), v=vec(v, self.params), post=self.obs())

    def restart(self, p):
        exc, _ = attempt(self.solver.restart, p)
        self.t.ev('restart', exc=exc, p=vec(p, self.gates), post=self.obs())

    def reload(self, tmp):
        def go():
            self.solver = store(tmp, self.solver)
        exc, _ = attempt(go)
        self.t.ev('reload', exc=exc, post=self.obs())


def replay_nm(rec, rng, graph, tier, tmp):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=30, max_paths=None)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    rec.count('graph_edges_uncovered', left)
    for k, (start, path) in enumerate(paths):
        params = ['p']
        b = NmBench(rec, rng, 'graph%d' % k, 2, params, pd.Series([0.], index=params),
                    pd.Series([float(nodes[start]['op'].strip('"').split('_')[1])], index=params))
        last = None
        for a, i, n in path:
            op = nodes[n]['op'].strip('"')
            rec.count('replayed_steps')
            if op == 'ask':
                last = b.suggest()
                if last is None:
                    break
            else:
                p = last if last is not None else pd.Series([dy(rng) for _ in b.gates], index=b.gates)
                b.update(p, pd.Series([float(op.split('_')[1]) * rng.choice([1, -1])], index=params))
                last = None
                if rng.random() < .1:
                    b.reload(tmp)
            seen = b.obs()['phase']
            rec.count('phase_agrees' if seen == nodes[n]['phase'].strip('"') else 'phase_differs')


def random_nm(rec, rng, name, steps, tmp):
    n = rng.choice([1, 2, 2, 3])
    params = rng.choice([['p'], ['p', 'a'], ['c', 'b', 'a']])
    desired = pd.Series([rng.randint(-4, 4) / 2 for _ in params], index=params)
    if len(params) > 1 and rng.random() < .3:
        desired[rng.choice(params)] = np.nan
    slope = {p: [rng.choice([-1, 0, 1, 2]) for _ in range(n)] for p in params}
    wild = rng.random() < .4

    def values(pos):
        v = []
        for p in params:
            x = sum(s * pos[g] for s, g in zip(slope[p], b.gates)) if not wild else rng.choice([-2., -1., 0., 1., 2.])
            v.append(round(min(max(x, -40), 40) * 4) / 4)
        return pd.Series(v, index=params)
    b = NmBench(rec, rng, name, n, params, desired, pd.Series([rng.randint(-4, 4) / 2 for _ in params], index=params))
    for _ in range(steps):
        r = b.suggest()
        if r is None:
            break
        if np.abs(r.values.astype(float)).max() > 900:
            break
        x = rng.random()
        if x < .08:
            b.restart(pd.Series({g: dy(rng) for g in rng.sample(b.gates + ['Z'], rng.randint(1, n))}))
        elif x < .16:
            b.reload(tmp)
        elif x < .2:
            r = b.suggest()
        p = r if rng.random() < .85 else pd.Series([dy(rng) for _ in b.gates], index=b.gates)
        if rng.random() < .3:
            p = (p.astype(float) * 8).round() / 8
        if rng.random() < .07:
            p = rng.choice(b.solver.get_positions())
        b.update(p, values(p))
        if rng.random() < .1:
            read_state(b.t, b.solver)
        rec.count('nm_updates')
        if rng.random() < .1:
            p = rng.choice([p, pd.Series([dy(rng) for _ in b.gates], index=b.gates)])
            b.update(p, values(p))


# --------------------------------------------------------------------------------------------- Newton
def nullspace(rows):
    out = []
    for z in sympy.Matrix(rows).nullspace():
        den = 1
        for x in z:
            den = den * x.q // gcd(den, x.q)
        ints = [int(x * den) for x in z]
        g = 0
        for x in ints:
            g = gcd(g, x)
        out.append([x // g for x in ints])
    return out


class NewtonBench:
    def __init__(self, rec, rng, name):
        self.rng, self.rec = rng, rec
        n = rng.choice([1, 2, 2, 3, 3, 4])
        self.gates = list(GATES[n - 1])
        m = rng.randint(1, n)
        self.params = rng.sample(['p', 'a', 'c', 'b'], m)
        while True:
            rows = [[rng.choice([-4, -3, -2, -1, 0, 0, 1, 2, 3, 5, 6]) for _ in self.gates] for _ in self.params]
            if m > 1 and rng.random() < .15:
                rows[1] = [rng.choice([1, -1, 2]) * x for x in rows[0]]
                rows[1] = [max(min(x, 6), -6) for x in rows[1]]
            s = np.linalg.svd(np.array(rows, dtype=float))[1]
            self.zs = nullspace(rows)
            if all(x < 1e-12 or x > .2 for x in s) and all(abs(x) < 200 for z in self.zs for x in z):
                break
        self.J = rows
        # the solution does not depend on the units of the parameters if it is exact; all numbers are recorded in
        # comparable units
        self.f = pd.Series(1., index=self.params)
        if all(x > .2 for x in s) and rng.random() < .4:
            self.f = pd.Series([2. ** rng.choice([0, 0, -8, -16, 6]) for _ in self.params], index=self.params)
            rec.count('newton_units')
        desired = pd.Series([dy(rng) for _ in self.params], index=self.params)
        for p in self.params:
            if rng.random() < .2:
                desired[p] = np.nan
        self.desired = desired
        target = make_target(desired=desired * self.f, tolerance=self.f / 4)
        pos = pd.Series([dy(rng) for _ in self.gates], index=self.gates)
        more = self.gates + (['Z'] if rng.random() < .3 else [])
        ests = []
        for row, f in zip(rows, self.f):
            r = pd.Series([x / 2 for x in row] + [3.] * (len(more) - n), index=more) * f
            p = pos.append(pd.Series([.5] * (len(more) - n), index=more[n:], dtype=float))
            names = rng.sample(more, len(more))
            ests.append(ScriptEst(r[names], p[names]))
        values = pd.Series([dy(rng) for _ in self.params], index=self.params) if rng.random() < .5 else None
        self.solver = NewtonSolver(target=target, gradient_estimators=ests, current_position=pos,
                                   current_values=None if values is None else shuffled(rng, values * self.f, ['q']))
        self.more = more
        self.t = rec.new(name, dict(kind='newton', n=n, desired=[enc(desired[p]) for p in self.params], span=[], rf=[],
                                    map=[]), self.obs())

    @property
    def ests(self):
        return self.solver.gradient_estimators

    def obs(self):
        return dict(pos=vec(self.solver.current_position, self.gates),
                    vals=vec(self.solver.to_hdf5()['current_values'][self.params] / self.f, self.params))

    def suggest(self):
        rng = self.rng
        for e in self.ests:
            e.told = []
            e.ask = None
            if rng.random() < .15:
                names = rng.sample(self.more, len(self.more))
                e.ask = pd.Series([dy(rng) for _ in names], index=names)
        tuned = rng.choice([None, set(), [self.params[-1]], set(rng.sample(self.params, rng.randint(1, len(self.params)))),
                            ['other'], self.params[:1] + ['other']])
        res = []
        exc, _ = attempt(lambda: res.append(self.solver.suggest_next_position(tuned_parameters=tuned)))
        r = res[0] if res else None
        told = []
        units = [self.f[p] for p in self.params if p in (tuned or ())]
        for e in self.ests:
            for gates, jac in e.told:
                told.append(dict(gates=[self.gates.index(g) + 1 if g in self.gates else 0
                                        for g in (gates if gates is not None else self.more)],
                                 jac=[] if jac is None else
                                 [[enc(jac[g].iloc[i] / units[i] if i < len(units) else 1e3) if g in jac.columns else MISS for g in self.gates]
                                  for i in range(len(jac))]))
        self.t.ev('suggest', exc=exc, req=vec(r, self.gates), extra=extra(r, self.gates), J=self.J, zs=self.zs,
                  asks=[vec(e.ask, self.gates) if e.ask is not None else [] for e in self.ests],
                  told=told, order=list(range(1, len(self.gates) + 1)),
                  rows=[[enc(x / 2) for x in row] for row in self.J],
                  tuned=[i + 1 for i, p in enumerate(self.params) if p in (tuned or ())], post=self.obs())
        self.rec.count('newton_asked' if any(e.ask is not None for e in self.ests) else 'newton_steps')

    def update(self):
        rng = self.rng
        p = pd.Series([dy(rng) for _ in self.more], index=self.more)
        v = pd.Series([dy(rng) for _ in self.params], index=self.params)
        var = pd.Series([rng.choice([.0625, .25, .5, 1., 2.]) for _ in self.params], index=self.params)
        for e in self.ests:
            e.got = []
        exc, _ = attempt(self.solver.update_after_step, shuffled(rng, p), shuffled(rng, v * self.f, ['q']),
                         shuffled(rng, var * self.f ** 2, ['q']))
        got = [[dict(p=vec(x[0], self.gates), v=enc(x[1] / f), var=enc(x[2] / f ** 2), isnew=as_bool(x[3]))
                for x in e.got] for e, f in zip(self.ests, self.f)]
        self.t.ev('update', exc=exc, p=vec(p, self.gates), v=vec(v, self.params), var=vec(var, self.params), got=got,
                  post=self.obs())

    def restart(self):
        rng = self.rng
        for e in self.ests:
            e.restarts = []
        p = pd.Series({g: dy(rng) for g in rng.sample(self.gates + ['Y'], rng.randint(1, len(self.gates)))})
        exc, _ = attempt(self.solver.restart, p)
        self.t.ev('restart', exc=exc, p=vec(p, self.gates), post=self.obs(),
                  restarts=[[vec(x, self.gates) for x in e.restarts] for e in self.ests])

    def reload(self, tmp):
        def go():
            self.solver = store(tmp, self.solver)
        exc, _ = attempt(go)
        self.t.ev('reload', exc=exc, post=self.obs())


def random_newton(rec, rng, name, steps, tmp):
    b = NewtonBench(rec, rng, name)
    for _ in range(steps):
        x = rng.random()
        if x < .5:
            b.suggest()
        elif x < .88:
            b.update()
        elif x < .94:
            b.restart()
        else:
            b.reload(tmp)
        if rng.random() < .15:
            read_state(b.t, b.solver, b.params, b.gates, b.J, b.f)


def read_state(t, solver, params=(), gates=(), rows=(), f=None):
    """the state of the optimisation as recorded in the history"""
    res = []
    exc, _ = attempt(lambda: res.append(solver.state))
    r = res[0] if res and isinstance(res[0], pd.Series) else None
    got = [[enc(r['d%s/d%s' % (p, g)] / f[p]) if 'd%s/d%s' % (p, g) in r.index else MISS for g in gates]
           for p in params] if r is not None else []
    t.ev('state', exc=exc if r is not None else 'raised', size=-1 if r is None else len(r), got=got,
         rows=[[enc(x / 2) for x in row] for row in rows])


# --------------------------------------------------------------------------------------------- Forwarding
FACTORS = [(1, 1), (1, 1), (2, 1), (1, 2), (4, 1)]


def random_forward(rec, rng, name, steps, tmp):
    n = rng.choice([1, 2, 3, 4])
    gates = list(GATES[n - 1])
    params = rng.sample(['p', 'a', 'c', 'b', 'd'], rng.randint(1, 5))
    mapped = dict(zip(rng.sample(params, min(len(params), n)), rng.sample(gates, min(len(params), n))))
    if len(mapped) > 1 and rng.random() < .4:
        mapped.pop(rng.choice(sorted(mapped)))
    names = rng.sample(sorted(mapped), len(mapped))
    v2p = pd.Series([mapped[p] for p in names], index=names)
    free = [p for p in params if p not in mapped]
    # a mapping with undefined entries can not be stored
    storable = not (free and rng.random() < .3)
    if not storable:
        v2p = v2p.append(pd.Series([np.nan], index=free[:1]))
    factors = {p: rng.choice(FACTORS) for p in params}
    target = make_target(desired=pd.Series(np.nan, index=params),
                         rescaling_factor=pd.Series({p: a / b for p, (a, b) in factors.items()}))
    pos = pd.Series([dy(rng) for _ in gates], index=gates)
    solver = [ForwardingSolver(target=target, values_to_position=v2p, current_position=pos.copy())]

    def obs():
        return dict(pos=vec(solver[0].current_position, gates))
    t = rec.new(name, dict(kind='forward', n=n, desired=[NaN] * len(params), span=[],
                           rf=[list(factors[p]) for p in params],
                           map=[gates.index(mapped[p]) + 1 if p in mapped else 0 for p in params]),
                dict(obs(), lastv=[MISS] * len(params)))
    for _ in range(steps):
        x = rng.random()
        if x < .45:
            res = []
            tuned = rng.choice([{}, dict(tuned_parameters=None), dict(tuned_parameters=set(params[:1]))])
            exc, _ = attempt(lambda: res.append(solver[0].suggest_next_position(**tuned)))
            r = res[0] if res else None
            t.ev('suggest', exc=exc, req=vec(r, gates), extra=extra(r, gates), post=obs())
        elif x < .85:
            p = pd.Series([dy(rng) for _ in gates], index=gates)
            given = params if rng.random() < .7 else rng.sample(params, rng.randint(1, len(params)))
            v = pd.Series([dy(rng) for _ in given], index=given)
            a = [shuffled(rng, p, ['Z']), shuffled(rng, v, ['q'])]
            a.append(a[1] * 0 + .25)
            before = [x.copy() for x in a]
            exc, _ = attempt(solver[0].update_after_step, *a)
            kept = all(x.equals(y) for x, y in zip(a, before))
            t.ev('update', exc=exc, p=vec(p, gates), v=vec(v, params), kept=int(kept), post=obs())
            rec.count('forward_updates')
        elif x < .93:
            p = pd.Series({g: dy(rng) for g in rng.sample(gates + ['Y'], rng.randint(1, n))})
            exc, _ = attempt(solver[0].restart, p)
            t.ev('restart', exc=exc, p=vec(p, gates), post=obs(), restarts=[])
        elif storable:
            def go():
                solver[0] = store(tmp, solver[0])
            exc, _ = attempt(go)
            t.ev('reload', exc=exc, post=obs())
        if rng.random() < .1:
            read_state(t, solver[0])


def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp()
    try:
        n, steps = (50, 25) if tier == 'quick' else (600, 60)
        if pid[:1] not in ('S', 'G', ''):
            # shared with other families
            n, graphs = n // 3, []
        if pid not in ('S01', 'S02', 'S04', 'G02'):
            for g in graphs:
                rec.guard('replay', replay_nm, rec, rng, g, tier, tmp, pids='S03')
            for k in range(n):
                rec.guard('nm%d' % k, random_nm, rec, rng, 'nm%d' % k, steps, tmp, pids='S03')
        if pid not in ('S03', 'S04'):
            for k in range(n * 2):
                rec.guard('newton%d' % k, random_newton, rec, rng, 'newton%d' % k, steps, tmp, pids='S01,S02')
        if pid not in ('S01', 'S02', 'S03', 'G02'):
            for k in range(n):
                rec.guard('forward%d' % k, random_forward, rec, rng, 'forward%d' % k, steps, tmp, pids='S04')
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    driver_main(run)
