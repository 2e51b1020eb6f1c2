"""Common part of all drivers: import of the code under test, encoding of numbers, recording of traces."""
import os
import sys
import json
import math
import random
import traceback
import warnings
import logging

REPO = os.environ.get('QTUNE_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import qtune  # noqa: E402

assert os.path.realpath(qtune.__file__).startswith(os.path.realpath(REPO)), qtune.__file__
logging.getLogger('qtune').addHandler(logging.NullHandler())
logging.getLogger('qtune').propagate = False
logging.getLogger('qtune').setLevel(logging.CRITICAL)

SC = 65536
NaN, PINF, NINF, BIG, WRONG, MISS = (2000000001, 2000000002, 2000000003, 2000000004, 2000000005, 2000000009)


def enc(x):
    """float -> integer (see Enc.tla); never fails"""
    try:
        if type(x) not in (float, np.float64):
            return _enc_any(x)
        if x != x:
            return NaN
        return int(round(x * SC)) if -8192 < x < 8192 else _enc_any(x)
    except Exception:
        return WRONG


def _enc_any(x):
    try:
        if isinstance(x, (pd.Series, np.ndarray, list, tuple)):
            arr = np.asarray(x, dtype=float).ravel()
            if arr.size != 1:
                return WRONG
            x = arr[0]
        x = float(x)
    except Exception:
        return WRONG
    if math.isnan(x):
        return NaN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    if abs(x) >= 8192:
        return BIG
    return int(round(x * SC))


def vec(series, labels):
    """labelled series -> list of encoded numbers in the order of labels"""
    if isinstance(series, pd.Series):
        d = dict(zip(series.index, series.values))
        if len(d) == len(series):
            return [enc(d[label]) if label in d else MISS for label in labels]
    out = []
    for label in labels:
        try:
            present = series is not None and label in series.index
        except Exception:
            present = False
        out.append(enc(series[label]) if present else MISS)
    return out


def extra(series, labels):
    """number of labels that are not expected"""
    try:
        return len([i for i in series.index if i not in labels])
    except Exception:
        return -1


def as_bool(x):
    """1/0 for everything that is clearly a bool, 7 otherwise"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return 7


class Trace:
    def __init__(self, name, cfg, init=None):
        self.d = dict(name=name, cfg=cfg, init=init if init is not None else dict(none=0), events=[])

    def ev(self, op, **fields):
        self.d['events'].append(dict(op=op, **fields))

    @property
    def events(self):
        return self.d['events']


class Recorder:
    """all traces of one driver run"""

    def __init__(self):
        self.traces = []
        self.stats = {}
        self.crashes = []

    def new(self, name, cfg, init=None):
        t = Trace(name, cfg, init)
        self.traces.append(t)
        return t

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def guard(self, name, func, *args, pids='', **kwargs):
        """run a scenario; an exception the scenario does not expect is itself an observation"""
        try:
            return func(*args, **kwargs)
        except Exception as e:
            self.crashes.append(dict(scenario=name, error='%s: %s' % (type(e).__name__, e), pids=pids,
                                     where=traceback.format_exc()[-1500:]))

    def save(self, path):
        with open(path, 'w') as f:
            json.dump([t.d for t in self.traces], f)
        with open(path + '.meta', 'w') as f:
            json.dump(dict(stats=self.stats, crashes=self.crashes), f)


def driver_main(run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--pid', default='')
    ap.add_argument('--graph', action='append', default=[])
    a = ap.parse_args()
    rec = Recorder()
    rng = random.Random(a.seed)
    np.random.seed(a.seed)
    run(rec, rng, a.tier, a.pid, a.graph)
    rec.save(a.out)
    sys.stdout.flush()
    os._exit(0)


def read_graph(path):
    """state graph dumped by TLC: {id: {variable: text}}, {id: [(action, id)]}, initial ids"""
    import re
    nodes, edges, init = {}, {}, []
    node = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\];?$')
    edge = re.compile(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"')
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            m = edge.match(line)
            if m:
                edges.setdefault(m.group(1), []).append((m.group(3), m.group(2)))
                continue
            m = node.match(line)
            if m:
                text = m.group(2).replace('\\n', '\n').replace('\\\\', '\\').replace('\\"', '"')
                d = {}
                for part in re.split(r'(?:^|\n)/\\ ', text):
                    if ' = ' in part:
                        k, v = part.split(' = ', 1)
                        d[k.strip()] = ' '.join(v.split())
                nodes[m.group(1)] = d
                if m.group(3):
                    init.append(m.group(1))
    # the order of the file depends on the scheduling of TLC
    name = {i: repr(sorted(d.items())) for i, d in nodes.items()}
    nodes = {name[i]: d for i, d in nodes.items()}
    edges = {name[a]: sorted({(act, name[b]) for act, b in es}) for a, es in edges.items()}
    return dict(sorted(nodes.items())), dict(sorted(edges.items())), sorted(name[i] for i in init)


def cover_paths(nodes, edges, init, rng, max_len=40, max_paths=None):
    """paths from an initial state that together take every edge"""
    from collections import deque
    todo = {(a, i, b) for a, es in edges.items() for i, (_, b) in enumerate(es)}
    paths = []
    # shortest way to every node
    pred = {}
    dq = deque(init)
    seen = set(init)
    while dq:
        a = dq.popleft()
        for i, (_, b) in enumerate(edges.get(a, [])):
            if b not in seen:
                seen.add(b)
                pred[b] = (a, i)
                dq.append(b)

    def way(n):
        w = []
        while n in pred:
            a, i = pred[n]
            w.append((a, i, edges[a][i][1]))
            n = a
        return n, w[::-1]

    order = sorted(todo)
    rng.shuffle(order)
    pos = 0
    while todo and (max_paths is None or len(paths) < max_paths):
        while order[pos] not in todo:
            pos += 1
        e = order[pos]
        start, w = way(e[0])
        path = w + [e]
        todo.difference_update(path)
        cur = e[2]
        while len(path) < max_len:
            nxt = [(cur, i, b) for i, (_, b) in enumerate(edges.get(cur, [])) if (cur, i, b) in todo]
            if not nxt:
                # look a bit further for an edge that is still to be taken
                found, q, s2 = None, deque([(cur, [])]), {cur}
                while q and not found:
                    n, pth = q.popleft()
                    if len(pth) > 3:
                        break
                    for i, (_, b) in enumerate(edges.get(n, [])):
                        if (n, i, b) in todo:
                            found = pth + [(n, i, b)]
                            break
                        if b not in s2:
                            s2.add(b)
                            q.append((b, pth + [(n, i, b)]))
                if not found or len(path) + len(found) > max_len:
                    break
                path += found
                todo.difference_update(found)
                cur = found[-1][2]
                continue
            e = rng.choice(nxt)
            path.append(e)
            todo.discard(e)
            cur = e[2]
        paths.append((start, path))
    return paths, len(todo)
