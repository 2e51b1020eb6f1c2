"""Driver of the gradient estimators: random histories of measurements, requests, restarts and reloads, and paths
through the state graph of GradientMC."""
import copy
import os
import shutil
import tempfile

from common import *
from world import dy, attempt
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.storage import to_hdf5, from_hdf5


def mat(df, gates):
    if df is None:
        return []
    return [vec(df.loc[g], gates) for g in gates]


class Bench:
    def __init__(self, rec, name, kind, est, gates, cfg):
        self.kind, self.est, self.gates = kind, est, list(gates)
        n = len(gates)
        full = dict(kind=kind, sym=0, eps=[0] * n, max=[PINF] * n, a2=SC, noise=[[0] * n for _ in range(n)])
        full.update(cfg)
        self.t = rec.new(name, full, dict(self.obs(), hasVal=0, val=0))
        self.rec = rec

    def obs(self):
        e = self.est
        mode = 'fd'
        fd = e
        if self.kind == 'kalman':
            mode, fd = 'kalman', None
        elif self.kind == 'self':
            mode = 'fd' if e.kalman_estimator is None else 'kalman'
            fd = e.finite_difference_estimator
        pts = [] if fd is None else fd.to_hdf5()['stored_measurements']
        grad, cov = e.estimate(), e.covariance()
        fdgrad = fd.estimate() if fd is not None else None
        return dict(mode=mode, pos=vec(e.current_position, self.gates), known=int(grad is not None),
                    grad=vec(grad, self.gates) if grad is not None else [], cov=mat(cov, self.gates),
                    fdgrad=vec(fdgrad, self.gates) if fdgrad is not None else [],
                    pts=[dict(p=vec(p, self.gates), v=enc(v), var=enc(var)) for p, v, var in pts])

    def update(self, p, v, var, isnew=True, rng=None, extra_gate=None):
        p = pd.Series(p)
        names = list(self.gates)
        if rng is not None:
            rng.shuffle(names)
        given = p[names]
        if extra_gate:
            given = given.append(pd.Series({extra_gate: 7.}))
        exc, e = attempt(self.est.update, given, v, var, is_new_position=isnew)
        self.t.ev('update', exc=exc, p=vec(p, self.gates), v=enc(v), var=enc(var), isnew=int(isnew), post=self.obs())

    def require(self, gates=None, jac=None, rng=None):
        names = list(gates) if gates is not None else list(self.gates)
        cov = self.est.covariance()
        eigen, sub, nulldim, nullcov = [], [], 0, 0
        if cov is not None:
            c = cov.loc[names, names].values.astype(float)
            sub = [[enc(x) for x in row] for row in c]
            w, vs = np.linalg.eigh(c)
            eigen = [dict(l=enc(w[k]), v=[enc(x) for x in vs[:, k]]) for k in range(len(w))]
            if jac is not None:
                import scipy.linalg
                full = pd.DataFrame(jac, columns=names)
                ns = scipy.linalg.null_space(full.values)
                nulldim = ns.shape[1]
                if nulldim == 1:
                    nullcov = enc(ns[:, 0] @ cov.loc[names, names].values @ ns[:, 0])
        res = []
        jac_df = None if jac is None else pd.DataFrame(jac, columns=names)
        exc, e = attempt(lambda: res.append(self.est.require_measurement(gates=gates, tuned_jacobian=jac_df)))
        r = res[0] if res else None
        full_jac = [] if jac is None else [[enc(dict(zip(names, row)).get(g, 0.)) for g in self.gates] for row in jac]
        self.t.ev('require', exc=exc, asks=int(r is not None), req=vec(r, self.gates) if r is not None else [],
                  gates=[self.gates.index(g) + 1 for g in names], eigen=eigen, sub=sub, jac=full_jac,
                  nulldim=nulldim, nullcov=nullcov, post=self.obs())
        return r

    def restart(self, p):
        exc, e = attempt(self.est.restart, pd.Series(p))
        self.t.ev('restart', exc=exc, p=vec(pd.Series(p), self.gates), post=self.obs())

    def reload(self, tmp):
        path = tmp + '/est.hdf5'
        import os
        if os.path.exists(path):
            os.remove(path)

        def go():
            to_hdf5(path, 'est', self.est, reserved={})
            self.est = from_hdf5(path, reserved={})['est']
        exc, e = attempt(go)
        self.t.ev('reload', exc=exc, post=self.obs())


def random_eps(rng, gates):
    if rng.random() < .6:
        e = rng.choice([.25, .5, .125])
        return e, pd.Series(e, index=gates)
    s = pd.Series([rng.choice([.125, .25, .5]) for _ in gates], index=rng.sample(gates, len(gates)))
    return s, s


def make_fd(rec, rng, name, kind=None, sym=None, n=None, with_pos=True):
    gates = rng.choice([['B'], ['B', 'A'], ['C', 'A', 'B'], ['T', 'N', 'S', 'G']]) if n is None else \
        [['B'], ['B', 'A'], ['C', 'A', 'B'], ['T', 'N', 'S', 'G']][n - 1]
    gates = list(gates)
    kind = kind or rng.choice(['fd', 'self'])
    sym = rng.random() < .5 if sym is None else sym
    pos = pd.Series([dy(rng) for _ in gates], index=gates)
    given, eps = random_eps(rng, gates)
    cov_max = rng.choice([.5, 1.])
    if not with_pos:
        kind, given = 'fd', pd.Series(eps)[gates]
    if kind == 'fd':
        if not with_pos:
            est = FiniteDifferencesGradientEstimator(epsilon=given, symmetric=sym)
        else:
            est = FiniteDifferencesGradientEstimator(current_position=pos.copy(), epsilon=given, symmetric=sym)
    else:
        with_pos = True
        est = SelfInitializingKalmanEstimator.from_scratch(current_position=pos.copy(), epsilon=given,
                                                           maximum_covariance=cov_max, symmetric=sym)
    b = Bench(rec, name, kind, est, gates, dict(sym=int(sym), eps=[enc(eps[g]) for g in gates],
                                                max=[enc(cov_max)] * len(gates)))
    b.eps, b.pos, b.with_pos = eps, pos, with_pos
    slope = pd.Series([dy(rng) for _ in gates], index=gates)
    off = dy(rng)
    b.affine = rng.random() < .6

    def value(p):
        x = off + float((slope * p[gates]).sum())
        return x if b.affine else x + dy(rng, -1, 1)
    b.value = value
    b.vars = rng.choice([[.0625], [.0625, .25, 1.], [.25, .5]])
    return b


def random_fd(rec, rng, name, steps, tmp):
    b = make_fd(rec, rng, name, with_pos=rng.random() < .7)
    pos = b.pos.copy()

    def measure(p, isnew=True):
        b.update(p, b.value(p), rng.choice(b.vars), isnew, rng=rng, extra_gate=rng.choice([None, 'Z']))
    if rng.random() < .8 or not b.with_pos:
        measure(pos)
    quant = rng.choice([None, None, .0625])
    for _ in range(steps):
        x = rng.random()
        known = b.est.estimate() is not None
        if x < .65:
            req = b.require(gates=rng.choice([None, rng.sample(b.gates, len(b.gates))]) if not known or b.kind == 'fd'
                            else rng.sample(b.gates, len(b.gates)))
            if req is not None and len(set(b.gates) - set(req.index)) == 0:
                p = req[b.gates].astype(float)
                if quant:
                    p = (p / quant).round() * quant
                measure(p)
                rec.count('fd_requested')
            elif known:
                measure(pd.Series([dy(rng) for _ in b.gates], index=b.gates))
        elif x < .75:
            measure(pd.Series([dy(rng) for _ in b.gates], index=b.gates), isnew=rng.random() < .7)
        elif x < .8:
            measure(b.est.current_position[b.gates].copy())
        elif x < .86:
            pts = b.obs()['pts']
            if pts:
                measure(pd.Series([q / SC for q in rng.choice(pts)['p']], index=b.gates))
        elif x < .93:
            new = {g: dy(rng) for g in rng.sample(b.gates, rng.randint(1, len(b.gates)))}
            if rng.random() < .5:
                pts = b.obs()['pts']
                if pts:
                    new = {g: q / SC for g, q in zip(b.gates, rng.choice(pts)['p'])}
            b.restart(new)
        else:
            b.reload(tmp)


def replay_fd(rec, rng, graph, tier, tmp):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=25, max_paths=None if tier == 'thorough' else 60)
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    rec.count('graph_edges_uncovered', left)
    for k, (start, path) in enumerate(paths):
        s = nodes[start]
        b = make_fd(rec, rng, 'graph%d' % k, kind='self' if s['self'] == 'TRUE' else 'fd', sym=s['sym'] == 'TRUE', n=2)
        asked, last = None, None

        def measure(p):
            b.update(p, b.value(p), rng.choice(b.vars), True, rng=rng)
        for a, i, n in path:
            op = nodes[n]['op'].strip('"')
            rec.count('replayed_steps')
            if op == 'ask':
                asked = b.require(gates=list(b.gates))
            elif op == 'measure_asked':
                if asked is None:
                    break
                last = asked[b.gates].astype(float)
                measure(last)
            elif op == 'measure_here':
                measure(b.est.current_position[b.gates].copy())
            elif op == 'measure_again':
                pts = b.obs()['pts']
                if pts:
                    measure(pd.Series([q / SC for q in rng.choice(pts)['p']], index=b.gates))
            elif op == 'measure_later':
                measure(pd.Series([dy(rng) for _ in b.gates], index=b.gates))
            elif op == 'restart':
                # at the point reached last, or anywhere
                b.restart(last if last is not None and rng.random() < .5 else
                          {g: dy(rng) for g in b.gates})
            elif op == 'reload':
                b.reload(tmp)


def random_kalman(rec, rng, name, steps, tmp, few=False):
    gates = list(rng.choice([['B'], ['B', 'A'], ['B', 'A'], ['C', 'A', 'B']]))
    n = len(gates)
    pos = pd.Series([dy(rng) for _ in gates], index=gates)
    kind = rng.choice(['diag', 'eye', 'full'])
    if kind == 'eye':
        P = np.eye(n) * rng.choice([.25, .5, 1.])
    elif kind == 'diag':
        P = np.diag([rng.choice([.125, .25, .5, 1., 2.]) for _ in gates])
    else:
        A = np.array([[dy(rng, -1, 1, 4) for _ in gates] for _ in gates])
        P = A @ A.T / 2 + np.eye(n) * .125
    alpha = rng.choice([1., 1., 1.25, 1.0625])
    noise = np.diag([rng.choice([0., 0., .0625]) for _ in gates]) if rng.random() < .3 else None
    given, eps = random_eps(rng, gates)
    if rng.random() < .6:
        mx = rng.choice([.125, .25, .5, 1., 2.])
        mxs = pd.Series(mx, index=gates)
    else:
        mx = mxs = pd.Series([rng.choice([.125, .25, .5, 1., np.inf]) for _ in gates], index=gates)
    kg = KalmanGradient(n_pos_dim=n, n_values=1, initial_gradient=[dy(rng) for _ in gates],
                        initial_covariance_matrix=P, process_noise=noise, alpha=alpha)
    est = KalmanGradientEstimator(kg, current_position=pos.copy(), maximum_covariance=mx, epsilon=given)
    b = Bench(rec, name, 'kalman', est, gates,
              dict(eps=[enc(eps[g]) for g in gates], max=[enc(mxs[g]) for g in gates], a2=enc(alpha * alpha),
                   noise=[[enc(x) for x in row] for row in (noise if noise is not None else np.zeros((n, n)))]))
    slope = pd.Series([dy(rng) for _ in gates], index=gates)
    for _ in range(steps):
        x = rng.random()
        if x < .45:
            cur = b.est.current_position[gates]
            p = cur + pd.Series([rng.choice([0., 0., .25, -.25, .5, 1., -1.]) for _ in gates], index=gates)
            if rng.random() < .1:
                p = cur.copy()
            b.update(p, float((slope * p).sum()) + dy(rng, -1, 1), rng.choice([.0625, .25, 1.]),
                     isnew=rng.random() < .8, rng=rng, extra_gate=rng.choice([None, 'Z']))
            rec.count('kalman_updates')
            if np.abs(b.est.current_position).max() > 3:
                b.restart({g: dy(rng) for g in gates})
        elif x < .88:
            sub = rng.choice([None, rng.sample(gates, len(gates)), rng.sample(gates, rng.randint(1, n))])
            jac = None
            scalar = len(set(mxs)) == 1
            if rng.random() < .4 and scalar and n > 1:
                sub = rng.sample(gates, len(gates))
                jac = [[rng.choice([-2., -1., 0., 1., .5]) for _ in gates] for _ in range(rng.randint(1, n))]
                jac = [row for row in jac if any(row)]
                if not jac:
                    jac = [[1.] + [0.] * (n - 1)]
                rec.count('kalman_tuned_requests')
            r = b.require(gates=sub, jac=jac)
            rec.count('kalman_requests')
            if r is not None:
                rec.count('kalman_asked')
                if rng.random() < .5:
                    p = r[gates].astype(float)
                    b.update(p, float((slope * p).sum()), rng.choice([.0625, .25]), rng=rng)
        elif x < .94:
            b.restart({g: dy(rng) for g in rng.sample(gates + ['Z'], rng.randint(1, n))})
        else:
            b.reload(tmp)


def random_filter(rec, rng, name, steps, tmp):
    """the filter itself: several values, dynamics, correlated errors given for single updates"""
    n, m = rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 2)])
    d = n * m

    def cov(k, small=.125):
        A = np.array([[dy(rng, -1, 1, 4) for _ in range(k)] for _ in range(k)])
        return rng.choice([np.eye(k) * rng.choice([.25, .5, 1.]), A @ A.T / 4 + np.eye(k) * small])

    F = None
    x = rng.random()
    if x < .2:
        F = np.diag([rng.choice([1., .5, -1.]) for _ in range(d)])
    elif x < .4:
        F = np.eye(d)[rng.sample(range(d), d)]
    elif x < .5:
        F = np.eye(d) + np.diag([.5] * (d - 1), 1)
    P, R, Q = cov(d), rng.choice([None, cov(m, .25)]), rng.choice([None, cov(d) / 4])
    grad = rng.choice([None, [dy(rng, -1, 1) for _ in range(d)]])
    alpha = rng.choice([1., 1., 1.25, 1.0625])
    kw = dict(state_transition_function=F, initial_gradient=grad, initial_covariance_matrix=P.copy(),
              measurement_covariance_matrix=R, process_noise=Q, alpha=alpha)
    kw = {key: x for key, x in kw.items() if x is not None or rng.random() < .5}
    kg = KalmanGradient(n, m, **kw)

    def encm(a):
        return [[enc(x) for x in row] for row in np.asarray(a, dtype=float)]

    def obs():
        return dict(mode='kalman', pos=[], known=1, grad=[enc(x) for x in np.ravel(kg.grad)], cov=encm(kg.cov), fdgrad=[],
                    pts=[], shape=list(np.shape(kg.grad)))
    F, R, Q = np.eye(d) if F is None else F, np.eye(m) if R is None else R, np.zeros((d, d)) if Q is None else Q
    t = rec.new(name, dict(kind='filter', sym=0, eps=[0] * n, max=[PINF] * n, a2=enc(alpha * alpha), noise=[[0]], n=n, m=m,
                           F=encm(F), R=encm(R), Q=encm(Q), grad=[enc(x) for x in (grad or [0.] * d)], P=encm(P)),
                dict(obs(), hasVal=0, val=0))
    t.ev('fstart', post=obs())
    for _ in range(steps):
        x = rng.random()
        if x < .75:
            h = [rng.choice([0., .25, -.5, 1., .75]) for _ in range(n)]
            y = [float(v) + dy(rng, -1, 1, 8) for v in kg.grad.reshape(m, n) @ np.array(h)]
            r, q = rng.choice([None, None, cov(m, .25)]), rng.choice([None, None, None, cov(d) / 8])
            if m == 1 and r is not None and rng.random() < .5:
                r = rng.choice([.25, 1.])
            predict = rng.choice([None, True, False])
            given = [None if a is None else np.array(a, dtype=float) for a in (r, q)]
            args = dict(measurement_covariance=r, process_covariance=q)
            args = {key: a for key, a in args.items() if a is not None or rng.random() < .5}
            if predict is not None:
                args['predict'] = predict
            a, b = rng.choice([list, np.array])(h), rng.choice([list, np.array])(y)
            exc, e = attempt(lambda: kg.update(a, b, **args))
            kept = list(a) == h and list(b) == y and all(
                g is None or np.array_equal(g, np.array(x, dtype=float)) for g, x in zip(given, (r, q)))
            t.ev('fupdate', exc=exc if e is None else repr(e), h=[enc(x) for x in h], y=[enc(x) for x in y],
                 R=encm(R if r is None else np.array(r).reshape(m, m)), Q=encm(Q if q is None else q),
                 predict=int(predict is not False), kept=int(kept), post=obs())
            rec.count('filter_updates')
        elif x < .9:
            got = []
            exc, e = attempt(lambda: got.append(kg.sugg_diff_position))
            t.ev('fsuggest', exc=exc if e is None else repr(e), v=[enc(x) for x in got[0]] if got else [], post=obs())
        else:
            path = os.path.join(tmp, 'filter.hdf5')
            got = []

            def go():
                to_hdf5(path, 'f', kg)
                got.append(from_hdf5(path, reserved=None)['f'])
            exc, e = attempt(go)
            if os.path.exists(path):
                os.remove(path)
            if got:
                kg = got[0]
            t.ev('freload', exc=exc if e is None else repr(e), post=obs())
        if np.abs(kg.cov).max() > 3 or np.abs(kg.grad).max() > 3:
            break


def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp()
    try:
        n, steps = (40, 25) if tier == 'quick' else (400, 60)
        if pid[:1] not in ('G', ''):
            # shared with other families
            n, graphs = n // 3, []
        if pid not in ('G02', 'G03'):
            for g in graphs:
                rec.guard('replay', replay_fd, rec, rng, g, tier, tmp, pids='G01,G04')
            for k in range(n):
                rec.guard('fd%d' % k, random_fd, rec, rng, 'fd%d' % k, steps, tmp, pids='G01,G04')
        if pid not in ('G01', 'G04'):
            for k in range(n):
                rec.guard('kalman%d' % k, random_kalman, rec, rng, 'kalman%d' % k, steps, tmp, pids='G02,G03')
        if pid in ('G03', ''):
            for k in range(2 * n):
                rec.guard('filter%d' % k, random_filter, rec, rng, 'filter%d' % k, 12, tmp, pids='G03')
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    driver_main(run)
