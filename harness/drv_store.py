"""Driver of storage: random object graphs, the background writer with a controlled schedule, snapshots of tunings,
lock step runs of tunings and their reloaded copies."""
import copy
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import h5py

from canon import *
from world import *
from dqd import make_dqd
import qtune.history
from qtune.autotuner import load_auto_tuner
from qtune.experiment import Measurement
from qtune.storage import to_hdf5, from_hdf5, AsynchronousHDF5Writer, HDF5Serializable

WAIT = 20.


# ------------------------------------------------------------------------------------------------- graphs
class Holder(metaclass=HDF5Serializable):
    def __init__(self, a=None, b=None, c=None):
        self.a, self.b, self.c = a, b, c

    def to_hdf5(self):
        return dict(a=self.a, b=self.b, c=self.c)


class Other(Holder):
    def to_hdf5(self):
        return dict(a=self.a, b=self.b)


class Fresh(Holder):
    """saves containers and objects that exist only while it is being saved"""

    def to_hdf5(self):
        return dict(a=copy.deepcopy(self.a), b=[copy.deepcopy(self.b)], c=Holder(copy.deepcopy(self.c)))

    def __init__(self, a=None, b=None, c=None):
        super().__init__(a, b[0] if isinstance(b, list) else b, c.a if isinstance(c, Holder) else c)


class Refuse(Holder):
    """can be saved but not be reloaded"""

    def to_hdf5(self):
        return dict(a=self.a, b=self.b, c='refuse')

    def __init__(self, a=None, b=None, c=None):
        if c == 'refuse':
            raise self.errors[b]('refused')
        super().__init__(a, b, c)
    errors = dict(ValueError=ValueError, TypeError=TypeError, KeyError=KeyError, AttributeError=AttributeError)


def random_fresh(rng):
    def data(depth):
        x = rng.random()
        if depth == 0 or x < .4:
            return random_leaf(rng)
        kids = [data(depth - 1) for _ in range(rng.randint(0, 3))]
        return dict(zip('xyz', kids)) if x < .6 else tuple(kids) if x < .8 else {'l': kids}
    return [Fresh(data(2), data(2), data(2)) for _ in range(rng.randint(2, 5))]


def random_float(rng):
    return rng.choice([0., -0., 1., rng.random(), -rng.random() * 1e6, 1e-300, 1e300, np.nan, np.inf, -np.inf,
                       dy(rng)])


def random_names(rng, n):
    pool = ['RFA', 'B', 'a', 'd/dx', 'ü', 'x y', 'T1', 'long name with spaces', '0', 'Z', '_u', 'A']
    return rng.sample(pool, n)


def random_leaf(rng):
    k = rng.randrange(16)
    n = rng.randint(1, 4)
    if k == 0:
        return random_float(rng)
    if k == 1:
        return rng.choice([0, 1, -7, 2 ** 40, -2 ** 62])
    if k == 2:
        return rng.choice([True, False])
    if k == 3:
        return rng.choice(['', 'x', 'some text', 'ümläut', 'line\nbreak', '12', 'nan'])
    if k == 4:
        return None
    if k == 5:
        return complex(dy(rng), dy(rng))
    if k == 6:
        return np.array([random_float(rng) for _ in range(n)])
    if k == 7:
        return np.array([[random_float(rng) for _ in range(n)] for _ in range(rng.randint(1, 3))])
    if k == 8:
        return np.array([rng.randint(-5, 5) for _ in range(n)])
    if k == 9:
        return np.array([rng.random() < .5 for _ in range(n)])
    if k == 10:
        return rng.choice([np.float64(dy(rng)), np.int64(rng.randint(-3, 3)), np.bool_(rng.random() < .5)])
    if k == 11:
        m = rng.randint(1, 3)
        return pd.DataFrame(np.array([[random_float(rng) for _ in range(m)] for _ in range(n)]),
                            index=random_names(rng, n), columns=random_names(rng, m))
    if k == 12:
        return pd.Series([rng.choice(['u', 'v w', 'ü', 'abc']) for _ in range(n)], index=random_names(rng, n))
    if k == 13:
        return pd.Series([rng.randint(-4, 4) for _ in range(n)], index=rng.sample(range(-5, 9), n))
    return pd.Series([random_float(rng) for _ in range(n)], index=random_names(rng, n))


def library_object(rng, pool):
    gates = random_names(rng, rng.randint(1, 3))
    gates = [g for g in gates if '/' not in g] or ['A']
    pos = pd.Series([dy(rng) for _ in gates], index=gates)
    k = rng.randrange(6)
    if k == 0:
        return Measurement('line_scan', center=dy(rng), gate='A', N_points=rng.randint(1, 5),
                           data=random_leaf(rng) if rng.random() < .3 else None)
    if k == 1:
        return KalmanGradient(n_pos_dim=len(gates), n_values=1, initial_gradient=[dy(rng) for _ in gates])
    if k == 2:
        return build_gradient(rng, rng.choice(['kalman', 'fd', 'sym', 'self']), gates,
                              {g: dy(rng) for g in gates}, pos)
    if k == 3:
        return ForwardingSolver(target=make_target(desired=pd.Series([1.], index=['p'])),
                                values_to_position=pd.Series(gates[:1], index=['p']), current_position=pos)
    if k == 4:
        t = make_target(desired=pd.Series([1., .5], index=['p', 'a']), tolerance=pd.Series(.5, index=['p', 'a']))
        g2 = ['B', 'A']
        p2 = pd.Series([0., .5], index=g2)
        est = build_gradient(rng, 'exact', g2, dict(A=1., B=2.), p2)
        return NewtonSolver(target=t, gradient_estimators=[est, est if rng.random() < .5 else
                                                           build_gradient(rng, 'fd', g2, {}, p2)],
                            current_position=p2)
    t = make_target(desired=pd.Series([1., .5], index=['p', 'a']))
    p2 = pd.Series([0., .5], index=['B', 'A'])
    s = NelderMeadSolver.from_scratch(target=t, span=pd.Series(.5, index=p2.index), current_position=p2,
                                      current_values=pd.Series([0., dy(rng)], index=['p', 'a']))
    for _ in range(rng.randint(0, 5)):
        s.update_after_step(s.suggest_next_position(), pd.Series([dy(rng), dy(rng)], index=['p', 'a']),
                            pd.Series([1., 1.], index=['p', 'a']))
    return s


def random_object(rng, depth, pool, reserved):
    if pool and rng.random() < .3:
        return rng.choice(pool)
    if reserved and rng.random() < .08:
        return rng.choice(list(reserved.values()))
    x = rng.random()
    if depth == 0 or x < .4:
        r = random_leaf(rng)
    elif x < .5:
        r = library_object(rng, pool)
    elif x < .54:
        r = random_fresh(rng)
    else:
        kids = [random_object(rng, depth - 1, pool, reserved) for _ in range(rng.choice([0, 1, 2, 2, 3, 11]))]
        if x < .65:
            r = kids
        elif x < .75:
            r = tuple(kids)
        elif x < .87:
            r = dict(zip(rng.sample(['b', 'a', 'x y', '0', '10', '9', 'ü', 'Z', '#', 'n.m', 'k', 'l'], len(kids)), kids))
        else:
            cls = rng.choice([Holder, Holder, Other])
            r = cls(*(kids + [None, None, None])[:3 if cls is Holder else 2])
    pool.append(r)
    return r


def roundtrip(rec, rng, k, tmp):
    reserved = {}
    if rng.random() < .5:
        reserved = {'experiment': Holder(1), 'other': [1, 2]} if rng.random() < .5 else {'experiment': Holder(1)}
    supply = {key: Holder('supplied ' + key) for key in reserved}
    obj = random_object(rng, 4, [], reserved)
    before = Graph(obj, reserved).nodes
    path = os.path.join(tmp, 'g%d.hdf5' % k)
    name = rng.choice(['autotuner', 'x', '2019_01_01'])
    loaded = []
    way = rng.random()

    def go():
        if way < .6:
            to_hdf5(path, name, obj, reserved=reserved)
            loaded.append(from_hdf5(path, reserved=supply)[name])
        elif way < .8:
            with h5py.File(path, 'w') as f:
                to_hdf5(f, name, obj, reserved=reserved)
            with h5py.File(path, 'r') as f:
                loaded.append(from_hdf5(f, reserved=supply)[name])
        else:
            to_hdf5(path, name, obj, reserved=reserved)
            to_hdf5(path, 'second', [1, obj if not reserved else 2])
            loaded.append(from_hdf5(path, reserved=supply)[name])
    exc, e = attempt(go)
    t = rec.new('graph%d' % k, dict(kind='graph'))
    t.ev('roundtrip', exc=exc if e is None else type(e).__name__ + ' ' + str(e), before=before,
         after=Graph(loaded[0], supply).nodes if loaded else [], still=Graph(obj, reserved).nodes)
    rec.count('graph_nodes', len(before))
    if os.path.exists(path):
        os.remove(path)


def roundtrip_files(rec, rng, k, tmp):
    """everything in several files, ordered by name"""
    names = rng.sample(['2019_01_01', '2019_01_02', 'b', 'a', 'aa', 'B', 'Z', '_x', '10', '9'], rng.randint(1, 6))
    entries, files = [], []
    reserved = {'experiment': Holder(1)} if rng.random() < .5 else {}
    supply = {key: Holder('supplied ' + key) for key in reserved}
    for name in names:
        obj = random_object(rng, 3, [], reserved)
        entries.append((name, obj))
        if not files or reserved or rng.random() < .7:
            files.append(os.path.join(tmp, 'f%d_%d.hdf5' % (k, rng.randint(0, 10 ** 9))))
        to_hdf5(files[-1], name, obj, reserved=reserved)
    rng.shuffle(files)
    before = Graph(sorted(entries, key=lambda x: x[0]), reserved).nodes
    loaded = []
    one = len(files) == 1 and rng.random() < .5
    exc, e = attempt(lambda: loaded.append(qtune.history.read_files(
        files[0] if one else rng.choice([list, tuple, iter])(files), **(dict(reserved=supply) if supply else {}))))
    t = rec.new('files%d' % k, dict(kind='graph'))
    t.ev('roundtrip', exc=exc if e is None else type(e).__name__ + ' ' + str(e), before=before,
         after=Graph(loaded[0], supply).nodes if loaded else [],
         still=Graph(sorted(entries, key=lambda x: x[0]), reserved).nodes)
    rec.count('files_read', len(files))
    for f in files:
        os.remove(f)


def listing(*dirs):
    return sorted(os.path.join(d, f) + ' %d' % os.path.getsize(os.path.join(d, f)) for d in dirs for f in os.listdir(d))


def refused(rec, rng, k, tmp):
    """an object that cannot be reloaded: the error of its constructor gets out and nothing is written"""
    error = rng.choice(sorted(Refuse.errors))
    obj = Refuse(random_object(rng, 2, [], {}), error)
    for _ in range(rng.randint(0, 2)):
        obj = rng.choice([lambda x: [1, x], lambda x: {'k': x}, lambda x: Holder(2, x)])(obj)
    work = os.path.join(tmp, 'cwd%d' % k)
    os.mkdir(work)
    path = os.path.join(work, 'r.hdf5')
    to_hdf5(path, 'x', obj)
    before, old = listing(work), os.getcwd()
    os.chdir(work)
    try:
        exc, e = attempt(lambda: from_hdf5(path, reserved=None))
    finally:
        os.chdir(old)
    t = rec.new('refused%d' % k, dict(kind='refused'))
    t.ev('reload', exc=exc, same=int(type(e).__name__ == error and 'refused' in str(e)),
         files=int(listing(work) == before))
    rec.count('refused_reloads')


def roundtrip_world(rec, rng, k, tmp):
    """a whole tuning in the middle of its run"""
    dqd = k % 6 == 5
    w = make_dqd(rng, rec=False, shared=rng.random() < .7) if dqd else make_world(rng, rec=False)
    for _ in range(rng.randint(0, 25) + 40 * dqd):
        attempt(w.at.iterate)
        if w.at.is_tuning_complete():
            if rng.random() < .5:
                break
            if dqd:
                w.at.restart()
            else:
                w.at.change_targets(random_changes(rng, w.at, removable_of(w)))
    path = os.path.join(tmp, 'w%d.hdf5' % k)
    reserved, supply = {'experiment': w.exp}, {'experiment': clone(w.exp)}
    before = Graph(w.at, reserved).nodes
    loaded = []

    def go():
        to_hdf5(path, 'autotuner', w.at, reserved=reserved)
        loaded.append(from_hdf5(path, reserved=supply)['autotuner'])
    exc, e = attempt(go)
    t = rec.new('world%d' % k, dict(kind='graph'))
    t.ev('roundtrip', exc=exc if e is None else type(e).__name__ + ' ' + str(e), before=before,
         after=Graph(loaded[0], supply).nodes if loaded else [], still=Graph(w.at, reserved).nodes)
    rec.count('graph_worlds')


# ------------------------------------------------------------------------------------------------- writer
GATE = None


def touch(path, text=''):
    with open(path + '.tmp', 'w') as f:
        f.write(text)
    os.rename(path + '.tmp', path)


def wait_for(func, seconds=WAIT):
    end = time.time() + seconds
    pause = .0005
    while time.time() < end:
        if func():
            return True
        time.sleep(pause)
        pause = min(pause * 1.5, .01)
    return bool(func())


class Held(Exception):
    pass


def hold(key):
    """called by the writer in the middle of a file: reports and waits for the order of the driver"""
    touch(os.path.join(GATE, 'arrived_%s' % key))
    order = os.path.join(GATE, 'go_%s' % key)
    if not wait_for(lambda: os.path.exists(order), 60):
        raise Held('no order')
    if open(order).read() == 'fail':
        raise Held('this write is made to fail')


class Probe(metaclass=HDF5Serializable):
    """an object whose serialization is controlled by the driver"""

    def __init__(self, key=0, ver=0, before=None, after=None):
        self.key, self.ver, self.before, self.after = key, ver, before, after

    def to_hdf5(self):
        if GATE and not getattr(self, 'free', False):
            hold(self.key)
        return dict(key=self.key, ver=self.ver, before=self.before, after=self.after)


class Slow(Probe):
    def to_hdf5(self):
        time.sleep(.04)
        return super().to_hdf5()


def content(x, ver):
    return [[float(ver)] * 3, {'v': ver}, pd.Series([float(ver), 1.], index=['v', 'one'])]


class WriterBench:
    def __init__(self, rec, rng, name, tmp, multiprocess=False):
        global GATE
        self.rng, self.rec = rng, rec
        self.dir = tempfile.mkdtemp(dir=tmp)
        GATE = os.path.join(self.dir, 'gate')
        os.mkdir(GATE)
        self.files, self.seen = {}, set()
        self.live = dict(front=[1.], probe=Probe(0, 1, content(0, 1), None))
        self.ver, self.n, self.cur = 1, 0, 0
        self.reserved = {'experiment': Holder('the experiment')}
        self.live['experiment'] = self.reserved['experiment']
        self.multi = multiprocess
        self.writer = AsynchronousHDF5Writer(reserved=self.reserved, multiprocess=multiprocess)
        self.waiter = None
        self.read = {}
        self.t = rec.new(name, dict(kind='writer'))

    def disk(self):
        """[id, version] of every complete file"""
        out = []
        for k in sorted(self.files):
            # reading a file that the writer is just creating would disturb the writer
            if k == self.cur or k not in self.seen or not os.path.exists(self.files[k]):
                continue
            try:
                with open(self.files[k], 'rb') as f:
                    raw = f.read()
                h = hashlib.sha1(raw).hexdigest()[:12]
                if self.read.get(k, [0, 0, ''])[2] != h:
                    self.read.pop(k, None)
                    res = Holder('again')
                    # opening the file itself would disturb a writer that is just about to lock it
                    with tempfile.TemporaryDirectory() as folder:
                        path = os.path.join(folder, 'copy.hdf5')
                        with open(path, 'wb') as f:
                            f.write(raw)
                        d = from_hdf5(path, reserved={'experiment': res})['task']
                    p = d['probe']
                    p.free = True
                    v = int(p.ver)
                    whole = canonical([p.before, p.after, d['front']]) == \
                        canonical([content(0, v), content(1, v), [float(v)]]) and d['experiment'] is res
                    if not whole or int(p.key) != k:
                        # a part of a file is no snapshot
                        continue
                    self.read[k] = [k, v, h]
                out.append(dict(id=k, ver=self.read[k][1]))
            except Exception:
                pass
        return out

    def ev(self, op, **more):
        self.t.ev(op, disk=self.disk(), **dict(dict(exc='none', id=0, ver=0, bad=0, returned=0, what=''), **more))

    def set_version(self, ver):
        """the object changes in place"""
        p = self.live['probe']
        p.ver = ver
        self.live['front'][:] = [float(ver)]
        p.before = p.before or content(0, ver)
        p.after = p.after or content(1, ver)
        for x in (p.before, p.after):
            x[0][:] = [float(ver)] * 3
            x[1]['v'] = ver
            x[2]['v'] = float(ver)

    def submit(self, bad=False):
        self.n += 1
        k = self.n
        self.set_version(self.ver)
        self.live['probe'].key = k
        path = os.path.join(self.dir, 'missing' if bad else '.', 'task_%03d.hdf5' % k)
        exc, e = attempt(self.writer.write, self.live, path, name='task')
        if exc == 'none' and not bad:
            self.files[k] = path
        self.ev('submit', exc=exc, id=k, ver=self.ver, bad=int(bad))

    def mutate(self):
        self.ver += 1
        self.set_version(self.ver)
        self.ev('mutate', ver=self.ver)

    def begin(self):
        """wait until the writer is in the middle of a file"""
        found = []

        def arrived():
            found[:] = [f for f in os.listdir(GATE) if f.startswith('arrived_') and not f.endswith('.tmp')]
            return found
        wait_for(arrived)
        k = int(found[0].split('_')[1]) if found else 0
        if found:
            os.remove(os.path.join(GATE, found[0]))
        self.cur = k
        self.seen.add(k)
        self.ev('begin', id=k)
        return k

    def finish(self):
        k = self.cur
        touch(os.path.join(GATE, 'go_%d' % k), 'ok')
        self.cur = 0
        wait_for(lambda: any(d['id'] == k for d in self.disk()))
        self.ev('finish')

    def fail(self):
        k = self.cur
        touch(os.path.join(GATE, 'go_%d' % k), 'fail')
        self.cur = 0
        time.sleep(.002)
        self.ev('fail')

    def wait(self, what):
        """join or restart in another thread"""
        res = {}

        def go():
            res['exc'] = attempt(getattr(self.writer, what))[0]
        self.waiter = (what, threading.Thread(target=go, daemon=True), res)
        self.waiter[1].start()
        time.sleep(.003)
        self.ev('waiting', returned=int(not self.waiter[1].is_alive()), what=what)

    def returned(self):
        what, thread, res = self.waiter
        thread.join(WAIT)
        self.ev('return', returned=int(not thread.is_alive()), exc=res.get('exc', 'none'), what=what)
        self.waiter = None

    def close(self):
        """let everything go"""
        global GATE
        if not self.waiter:
            self.wait('join')
        for _ in range(50):
            if not self.waiter[1].is_alive():
                break
            if not self.cur:
                wait_for(lambda: not self.waiter[1].is_alive() or
                         any(f.startswith('arrived_') for f in os.listdir(GATE)), WAIT)
                if not self.waiter[1].is_alive():
                    break
                if self.begin() == 0:
                    break
            self.finish()
        self.returned()
        GATE = None


def child_of(func):
    """run func in a forked child; everything of the child is lost at its end"""
    pid = os.fork()
    if pid == 0:
        try:
            func()
        finally:
            os._exit(0)
    end = time.time() + 60
    while time.time() < end:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return True
        time.sleep(.002)
    os.kill(pid, 9)
    os.waitpid(pid, 0)
    return False


def follow(b, ops):
    for op in ops:
        if op == 'submit':
            b.submit(bad=b.rng.random() < .1 and b.may_be_bad)
        elif op == 'refuse':
            b.submit()
        elif op == 'mutate':
            b.mutate()
        elif op == 'begin':
            if b.begin() == 0:
                return
        elif op in ('finish', 'fail'):
            getattr(b, op)()
        elif op in ('join', 'restart'):
            b.wait(op)
        elif op == 'return':
            b.returned()


def replay_writer(rec, rng, graph, tier, tmp):
    nodes, edges, init = read_graph(graph)
    # the end of the process is the end of a path; only some of them are taken
    paths, left = cover_paths(nodes, {a: [e for e in es if nodes[e[1]]['op'] != '"crash"'] for a, es in edges.items()},
                              init, rng, max_len=25, max_paths=None)
    rng.shuffle(paths)
    if tier == 'quick':
        paths = paths[:70]
    rec.count('graph_edges', sum(len(e) for e in edges.values()))
    for k, (start, path) in enumerate(paths):
        ops = [nodes[n]['op'].strip('"') for _, _, n in path]
        multi = k % 7 == 3
        if k % 4 == 1 and not multi:
            # kill the process at some point of the path
            cut = rng.randint(1, len(ops))
            b = [None]
            mine = tempfile.mkdtemp(dir=tmp)
            out = os.path.join(mine, 'trace.json')

            def inside():
                r2 = Recorder()
                b[0] = WriterBench(r2, rng, 'crash%d' % k, mine)
                b[0].may_be_bad = False
                follow(b[0], ops[:cut])
                touch(out, json.dumps(dict(trace=r2.traces[0].d, files=b[0].files, cur=b[0].cur)))
            ended = child_of(inside)
            if ended and os.path.exists(out):
                d = json.load(open(out))
                rec.new('crash%d' % k, dict(kind='writer'))
                t = rec.traces[-1]
                t.d = d['trace']
                x = WriterBench.__new__(WriterBench)
                x.files = {int(i): p for i, p in d['files'].items()}
                x.cur, x.read, x.t, x.seen = 0, {}, t, set(x.files)
                x.ev('crash')
                rec.count('killed')
            else:
                rec.crashes.append(dict(scenario='crash%d' % k, error='the process does not end', pids='H03,H04', where=''))
            continue
        b = WriterBench(rec, rng, 'writer%d' % k, tmp, multiprocess=multi)
        b.may_be_bad = False
        follow(b, ops)
        b.close()
        rec.count('replayed_steps', len(ops))
        rec.count('processes' if multi else 'threads')


PROGRAM = """
import json, os, sys, threading, time
sys.path.insert(0, sys.argv[1])
from drv_store import *
how, multi, n, folder = sys.argv[2], sys.argv[3] == '1', int(sys.argv[4]), sys.argv[5]


def main():
    reserved = {'experiment': Holder('the experiment')}
    if how == 'discard':
        # the worker is busy for some time
        own = Slow.to_hdf5

        def to_hdf5_(self):
            time.sleep(.3)
            return own(self)
        Slow.to_hdf5 = to_hdf5_
    writer = AsynchronousHDF5Writer(reserved=reserved, multiprocess=multi)
    accepted = []
    for k in range(1, n + 1):
        path = os.path.join(folder, 'missing' if k % 4 == 2 else '.', 'task_%03d.hdf5' % k)
        writer.write(dict(front=[float(k)], probe=Slow(k, k, content(0, k), content(1, k)),
                          experiment=reserved['experiment']), path, name='task')
        accepted.append(k)
    with open(os.path.join(folder, 'accepted'), 'w') as f:
        json.dump(accepted, f)
    if how == 'join':
        writer.join()
    elif how == 'thread':
        threading.Thread(target=writer.join).start()
    elif how == 'late':
        # the main thread has ended when another one waits for the writer
        threading.Timer(0.1, writer.join).start()
    elif how == 'raise':
        threading.Thread(target=writer.join).start()
        raise RuntimeError('the end')
    elif how == 'discard':
        # the last reference disappears in the middle of reading another file
        BOX.append(writer)
        del writer
        other = os.path.join(folder, 'other.hdf5')
        to_hdf5(other, 'other', Holder(Drop(1.), [1., 2.]), {})
        KEEP.clear()
        from_hdf5(other, {})
    # else: nobody refers to the writer any more


BOX, KEEP = [], [1]


class Drop(Holder):
    def __init__(self, a=None):
        super().__init__(a)
        if not KEEP:
            BOX.clear()

    def to_hdf5(self):
        return dict(a=self.a)


main()
"""


def program_end(rec, rng, name, how, multi, tmp):
    """a whole program; its files when it is over"""
    folder = tempfile.mkdtemp(dir=tmp)
    n = rng.randint(3, 6)
    p, text = subprocess.Popen([sys.executable, '-c', PROGRAM, os.path.dirname(os.path.abspath(__file__)), how,
                                str(int(multi)), str(n), folder], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               start_new_session=True), ''
    ended = 1
    try:
        text = p.communicate(timeout=60)[0]
    except subprocess.TimeoutExpired:
        ended = 0
        os.killpg(p.pid, 9)
        p.wait()
    if not os.path.exists(os.path.join(folder, 'accepted')):
        raise RuntimeError('the program failed: ' + text[-1500:])
    accepted = json.load(open(os.path.join(folder, 'accepted')))
    x = WriterBench.__new__(WriterBench)
    x.files, x.cur, x.read, x.seen = {}, 0, {}, set()
    x.t = rec.new(name, dict(kind='writer'))
    for k in accepted:
        x.ev('submit', id=k, ver=k, bad=int(k % 4 == 2))
        if k % 4 != 2:
            x.files[k] = os.path.join(folder, 'task_%03d.hdf5' % k)
    x.seen = set(x.files)
    x.ev('end', returned=ended)
    rec.count('programs')


def random_writer(rec, rng, name, steps, tmp):
    b = WriterBench(rec, rng, name, tmp)
    b.may_be_bad = True
    running, pending = True, 0
    for _ in range(steps):
        x = rng.random()
        if x < .35 and not b.waiter:
            bad = rng.random() < .15
            b.submit(bad=bad)
            if running and not bad:
                pending += 1
        elif x < .5:
            b.mutate()
        elif x < .75:
            if b.cur:
                b.finish() if rng.random() < .8 else b.fail()
                pending -= 1
            elif pending and running:
                if b.begin() == 0:
                    break
        elif x < .83 and not b.waiter and pending == 0:
            what = rng.choice(['join', 'restart'])
            b.wait(what)
            b.returned()
            running = what == 'restart'
    b.close()


# ------------------------------------------------------------------------------------------------- snapshots
class HeldEvaluator(ScriptEvaluator):
    """its serialization by the writer is controlled by the driver"""
    number = 0

    def to_hdf5(self):
        if GATE and threading.current_thread() is not threading.main_thread():
            hold('%d' % self.number)
        return super().to_hdf5()


class Snap:
    """a tuning that stores its states while the writer is held up in the middle of files"""

    def __init__(self, rng, name, tmp, rec):
        global GATE
        self.rng = rng
        self.dir = tempfile.mkdtemp(dir=tmp)
        GATE = os.path.join(self.dir, 'gate')
        os.mkdir(GATE)
        self.storage = os.path.join(self.dir, 'states', 'here')
        self.w = make_world(rng, storage=self.storage, rec=False)
        for t in self.w.at.tuning_hierarchy:
            for e in t.evaluators:
                if isinstance(e, ScriptEvaluator):
                    e.__class__ = HeldEvaluator
                    break
        self.n, self.current, self.names, self.willfail, self.cache = 0, 0, [], {}, {}
        self.t = rec.new(name, dict(kind='snap'))

    def hold_first(self):
        """only one evaluator holds"""
        first = True
        for t in self.w.at.tuning_hierarchy:
            for e in t.evaluators:
                if isinstance(e, HeldEvaluator):
                    if not first:
                        e.__class__ = ScriptEvaluator
                    first = False

    def set_number(self, n):
        for t in self.w.at.tuning_hierarchy:
            for e in t.evaluators:
                if isinstance(e, HeldEvaluator):
                    e.number = n

    def iterate(self, fail=False, **out):
        at = self.w.at
        name = at.last_save_file
        self.set_number(self.n + 1)
        LOG.clear(**out)
        exc, e = attempt(at.iterate)
        good = exc == 'none'
        new = at.last_save_file != name and at.last_save_file is not None
        if new:
            self.names.append(at.last_save_file)
        if good:
            self.n += 1
            self.willfail[self.n] = fail
        self.t.ev('iterate', exc=exc, good=int(good), newname=int(new), willfail=int(good and fail),
                  digest=digest(at, {'experiment': self.w.exp}) if good else '')
        return good

    def step_writer(self):
        """the writer arrives in the middle of the next file and is let go"""
        key = self.current + 1
        if not wait_for(lambda: os.path.exists(os.path.join(GATE, 'arrived_%d' % key))):
            return False
        self.current = key
        return True

    def release(self):
        touch(os.path.join(GATE, 'go_%d' % self.current), 'fail' if self.willfail[self.current] else 'ok')

    def scan(self, drained, dead=False):
        # the writer goes on holding meanwhile; this thread never does
        if os.path.isdir(self.storage):
            found = sorted(os.path.join(self.storage, f) for f in os.listdir(self.storage))
        else:
            found = []
        order = [self.names.index(f) + 1 for f in found if f in self.names]
        # files of failing writes exist, too, but the order is that of the iterations
        rank = {n: i for i, n in enumerate(sorted(order))}
        complete = []
        for i, name in enumerate(self.names):
            text = ''
            # reading a file that the writer has open or creates would disturb the writer
            if os.path.exists(name) and (drained or dead or i + 1 < self.current):
                try:
                    h = hashlib.sha1(open(name, 'rb').read()).hexdigest()
                    if self.cache.get(name, ('', ''))[0] != h:
                        exp = clone(self.w.exp)
                        at = load_auto_tuner(name, {'experiment': exp})
                        self.cache[name] = h, digest(at, {'experiment': exp})
                    text = self.cache[name][1]
                except Exception:
                    pass
            complete.append(text)
        self.t.ev('scan', drained=int(drained), order=[rank[x] + 1 for x in order], complete=complete,
                  foreign=len([f for f in found if f not in self.names]), current=self.current or 1, exc='none')

    def finish(self):
        global GATE
        while self.current < self.n:
            if self.current and not os.path.exists(os.path.join(GATE, 'go_%d' % self.current)):
                self.release()
            if not self.step_writer():
                break
        if self.current and not os.path.exists(os.path.join(GATE, 'go_%d' % self.current)):
            self.release()
        if self.n:
            self.w.at.asynchrone_writer.join()
        self.scan(True)
        GATE = None


def snap_run(s, steps, rng, scans=True):
    s.hold_first()
    mid = False
    for _ in range(steps):
        x = rng.random()
        out = {}
        if x < .08:
            out = {rng.choice(['evaluate', 'set', 'read']): 'raise'}
        if s.w.at.is_tuning_complete() and rng.random() < .7:
            s.w.exp.v[s.w.gates[0]] += 1.
            LOG.clear()
            s.w.at.restart()
            continue
        good = s.iterate(fail=rng.random() < .1, **out)
        if rng.random() < .4:
            if s.current and s.current <= s.n and not os.path.exists(os.path.join(GATE, 'go_%d' % s.current)):
                s.release()
            if s.current < s.n and not s.step_writer():
                return
        if scans and rng.random() < .15:
            s.scan(False)


def snapshots(rec, rng, k, tmp, kill):
    if not kill:
        s = Snap(rng, 'snap%d' % k, tmp, rec)
        snap_run(s, rng.randint(6, 18), rng)
        s.finish()
        rec.count('snapshots', s.n)
        return
    mine = tempfile.mkdtemp(dir=tmp)
    out = os.path.join(mine, 'trace.json')

    def inside():
        r2 = Recorder()
        s = Snap(rng, 'kill%d' % k, mine, r2)
        snap_run(s, rng.randint(3, 18), rng, scans=False)
        touch(out, json.dumps(dict(trace=s.t.d, names=s.names, storage=s.storage, current=s.current, n=s.n,
                                   released=s.current > 0 and os.path.exists(os.path.join(GATE, 'go_%d' % s.current)),
                                   gates=s.w.gates)))
    ended = child_of(inside)
    if not ended or not os.path.exists(out):
        rec.crashes.append(dict(scenario='kill%d' % k, error='the process does not end', pids='H03', where=''))
        return
    d = json.load(open(out))
    s = Snap.__new__(Snap)
    s.t = rec.new('kill%d' % k, dict(kind='snap'))
    s.t.d = d['trace']
    s.names, s.storage = d['names'], d['storage']
    # what was released might have been written or not
    s.current, s.cache = d['current'], {}
    w = World()
    w.exp = SimExperiment(d['gates'], [0.] * len(d['gates']))
    s.w = w
    s.scan(False, True)
    rec.count('killed_tunings')


# ------------------------------------------------------------------------------------------------- lock step
def clone(exp):
    if hasattr(exp, 'clone'):
        return exp.clone()
    new = SimExperiment(exp.gates, exp.v.values.copy(), exp.quantum, dict(exp.model))
    new.values = dict(exp.values)
    new.n_eval = exp.n_eval
    return new


def observe(w, at, exp, exc):
    d = loop_state(at, exp, w.gates)
    d['exc'] = exc
    d['evals'] = [c['name'] for c in LOG.calls if c['k'] == 'evaluate']
    d['judged'] = [[c['k'], c['g'], c['r'], c['ps']] for c in LOG.calls if c['k'] in ('judge', 'next')]
    d['digest'] = digest(at, {'experiment': exp}, drop=('last_save_file', 'raw_x_data', 'raw_y_data'))
    return d


def lock_step(rec, rng, name, steps, tmp, dqd=False):
    directory = tempfile.mkdtemp(dir=tmp)
    # storing every state takes time
    storage = os.path.join(directory, 'states') if rng.random() < .3 else None
    stepwise = False
    if dqd:
        w = make_dqd(rng, storage=storage, shared=rng.random() < .7)
        rec.count('dqd')
    else:
        stepwise = rng.random() < .25
        w = make_world(rng, storage=storage, quantum=rng.choice([None, .0625]), stepwise=stepwise,
                       kinds=['exact', 'kalman', 'self'] if stepwise else None)
    a, b = w.at, None
    exp_b = None
    model = getattr(w.exp, 'model', None)
    t = rec.new(name, dict(kind='lock'))
    for step in range(steps):
        # the same circumstances for both
        for g in [] if dqd else w.groups:
            if g['kind'] == 'sensing':
                for p in g['cheap']:
                    w.exp.values[p] = (rng.choice([.5, 1.5, 4., 8., 16.]), .0625)
                for p in g['expensive']:
                    w.exp.values[p] = (dy(rng), .0625)
            elif rng.random() < .3:
                for p in g['params']:
                    p0, row, var = model[p]
                    model[p] = (p0 + dy(rng) / 16, row, var)
        bad = None
        if rng.random() < .06 and not dqd:
            g = rng.choice(w.groups)
            bad = rng.choice(g['cheap'] if g['kind'] == 'sensing' else g['params'])
        out = {rng.choice(['evaluate', 'set']): 'raise'} if rng.random() < .04 else {}
        obs = []
        restart = rng.random() < .03 or a.is_tuning_complete() and rng.random() < .6
        changes = None
        if not dqd and (restart and rng.random() < .5 or rng.random() < .05):
            restart, changes = False, random_changes(rng, a, removable_of(w))
            rec.count('target_changes')
        new = {g: dy(rng) for g in rng.sample(w.gates, rng.randint(0, len(w.gates)))}
        if dqd:
            new = {g: float(w.exp.v[g]) + dy(rng) / 16 for g in list(new)[:3]}
        for at, exp in ((a, w.exp), (b, exp_b)):
            if at is None:
                continue
            if not dqd:
                exp.model, exp.values = dict(model), dict(w.exp.values)
            if bad:
                exp.values[bad] = (np.nan, np.nan)
            use_world(at, w.gates, w.params)
            LOG.clear(**out)
            if restart:
                if dqd:
                    exp.put(new)
                else:
                    for g, x in new.items():
                        exp.v[g] = x
                exc, _ = attempt(at.restart)
            elif changes is not None:
                exc, _ = attempt(at.change_targets, [{c: x.copy() for c, x in d.items()} for d in changes])
            else:
                exc, _ = attempt(at.iterate)
            obs.append(observe(w, at, exp, exc))
        if bad:
            w.exp.values.pop(bad, None)
        if len(obs) == 2:
            t.ev('iterate', a=obs[0], b=obs[1], exc='none')
            rec.count('lock_steps')
        if obs[0]['exc'] == 'none' and not restart and (changes is None or not storage) and \
                rng.random() < (.3 if b is None or stepwise else .1 if changes is None else .5):
            # reload the state just written
            if storage:
                a.asynchrone_writer.join()
                path = a.last_save_file
                a.asynchrone_writer.restart()
            else:
                path = os.path.join(directory, '%d.hdf5' % step)
                to_hdf5(path, 'autotuner', a, reserved={'experiment': w.exp})
            if b is not None:
                b.asynchrone_writer.join()
            exp_b = clone(w.exp)
            got = []
            exc, e = attempt(lambda: got.append(load_auto_tuner(path, {'experiment': exp_b})))
            if got:
                b = got[0]
            t.ev('reload', exc=exc if e is None else type(e).__name__ + ' ' + str(e),
                 a=digest(a, {'experiment': w.exp}), b=digest(b, {'experiment': exp_b}) if got else '')
            rec.count('reloads')
            for g in w.groups:
                rec.count('reloaded_' + g['kind'])
            if not got:
                break
    for at in (a, b):
        if at is not None:
            at.asynchrone_writer.join()


def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp()
    q = tier == 'quick'
    try:
        if pid in ('H03', 'H04', ''):
            for g in graphs:
                rec.guard('replay', replay_writer, rec, rng, g, tier, tmp, pids='H03,H04')
            for k in range(10 if q else 150):
                rec.guard('writer', random_writer, rec, rng, 'random%d' % k, 40, tmp, pids='H03,H04')
        if pid in ('H04', ''):
            for k in range(9 if q else 66):
                rec.guard('program%d' % k, program_end, rec, rng, 'program%d' % k,
                          ['late', 'thread', 'join', 'raise', 'drop', 'discard'][k % 6], k % 8 in (1, 6), tmp, pids='H04')
        if pid in ('H03', ''):
            for k in range(18 if q else 300):
                rec.guard('snap%d' % k, snapshots, rec, rng, k, tmp, k % 3 == 2, pids='H03')
        if pid in ('H01', ''):
            for k in range(200 if q else 4000):
                rec.guard('graph%d' % k, roundtrip, rec, rng, k, tmp, pids='H01')
            for k in range(30 if q else 600):
                rec.guard('files%d' % k, roundtrip_files, rec, rng, k, tmp, pids='H01')
            for k in range(20 if q else 200):
                rec.guard('refused%d' % k, refused, rec, rng, k, tmp, pids='H01')
            for k in range(15 if q else 200):
                rec.guard('world%d' % k, roundtrip_world, rec, rng, k, tmp, pids='H01')
        if pid in ('H02', ''):
            for k in range(11 if q else 250):
                rec.guard('lock%d' % k, lock_step, rec, rng, 'lock%d' % k, 40, tmp, pids='H02')
            for k in range(2 if q else 30):
                rec.guard('dqd%d' % k, lock_step, rec, rng, 'dqd%d' % k, 100, tmp, True, pids='H02')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    driver_main(run)
