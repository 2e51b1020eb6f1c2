"""The graphical interface: user requests while the worker is inside a call, does nothing or runs freely (U01, U02) and
the window that reloads earlier iterations (U03)."""
import os
import sys
import threading
import time
import shutil
import tempfile

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
import IPython  # noqa: E402


class _Shell:
    def magic(self, *args):
        pass

    run_line_magic = enable_gui = magic

    class events:
        register = staticmethod(lambda *args: None)


IPython.get_ipython = lambda: _Shell()

from world import *  # noqa: E402
from canon import digest  # noqa: E402
from qtune.history import History  # noqa: E402
from qtune.autotuner import load_auto_tuner  # noqa: E402
import qtune.gui as gui_module  # noqa: E402
from pyqtgraph.Qt import QtWidgets  # noqa: E402

APP = QtWidgets.QApplication([])
LONG, SHORT = 6., .3
KEEP = []


class Desk:
    """a graphical interface and everything that is seen of it"""

    def __init__(self, rec, name, tuner=True, history=True, free=False):
        self.rec = rec
        self.t = rec.new(name, dict(tuner=int(tuner), history=int(history)))
        self.lock = threading.Lock()
        self.cond = threading.Condition(self.lock)
        self.call_ = None            # the call the worker is in
        self.outcome = None
        self.free = None             # outcomes of calls if the worker is not held
        self.calls = 0
        self.last = 0
        self.cont = self.stepping = False      # something was requested that has to be done
        self.tuners = [FakeTuner(self, 1), FakeTuner(self, 2)]
        self.workers = set()
        self.gui = self.owning(gui_module.GUI, self.tuners[0] if tuner else None, FakeHistory(self) if history else None)
        self.has_tuner = tuner
        found = {b.text(): b for b in self.gui.findChildren(QtWidgets.QPushButton)}
        self.buttons = [found[n] for n in ('Start', 'Step', 'Pause')] if {'Start', 'Step', 'Pause'} <= set(found) else []
        self.died = False
        self.open = True

    # seen by the worker ------------------------------------------------------------------------------------------
    def call(self, c, who):
        with self.lock:
            self.calls += 1
            self.t.ev('call', c=c, who=who, last=self.last)
            if c == 'iterate':
                self.last = who
            elif c == 'check':
                self.stepping = False
            if self.free is None:
                self.call_ = c
                self.cond.notify_all()
                if not self.cond.wait_for(lambda: self.outcome is not None or self.free is not None, 120):
                    raise SystemExit()
                self.call_ = None
            r, self.outcome = self.outcome, None
            self.cond.notify_all()
            if r is None:
                r = self.free(c)
            if r in ('true', 'raise', 'die'):
                self.cont = False
        if self.free is not None:
            time.sleep(.002)
        with self.lock:
            self.t.ev('ret', c=c, r=r)
        if r == 'die':
            self.died = True
            raise SystemExit()
        if r == 'raise':
            raise Injected(c)
        return r == 'true' if c == 'check' else None

    # done by the user ------------------------------------------------------------------------------------------------
    def answer(self, r):
        """the call the worker is in returns"""
        with self.lock:
            if self.call_ is None or (r in ('true', 'false')) != (self.call_ == 'check') and r not in ('raise', 'die'):
                return False
            self.outcome = r
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.outcome is None, LONG)
        self.rec.count('returned ' + r)
        return True

    def ask(self, what):
        if what in ('start', 'step'):
            if what == 'start':
                self.cont = True
            else:
                self.stepping = self.calm()
            with self.lock:
                self.t.ev(what)
            exc, e = attempt(self.owning, getattr(self.gui, what))
            with self.lock:
                self.t.ev('done', a=what, exc=exc)
            self.open = True
        elif what == 'pause':
            exc, e = attempt(self.gui.pause)
            with self.lock:
                self.t.ev('paused', exc=exc)
            self.cont = self.stepping = False
        self.rec.count(what)

    def calm(self):
        return bool(self.t.events) and self.t.events[-1]['op'] in ('quiet', 'closed', 'restarted') or not self.t.events

    def swap(self):
        """another autotuner was loaded"""
        # as the window for reloading does
        class Window:
            auto_tuner = self.tuners[1 if self.gui.auto_tuner is self.tuners[0] else 0]
        self.gui.sender = lambda: Window
        self.gui.load_auto_tuner_from_reload_widget()
        self.rec.count('swap')

    def let_go(self, rng, plan=()):
        """calls are not held any longer"""
        plan = list(plan)
        n = [0]

        def free(c):
            n[0] += 1
            if n[0] > 60:
                return 'die'
            return (plan.pop(0) if plan else 'false') if c == 'check' else 'ok'
        with self.lock:
            self.free = free
            self.cond.notify_all()

    def close(self, rng, how='close', strict=True):
        if strict:
            with self.lock:
                self.t.ev('closing')
        timer = threading.Timer(.02, self.let_go, (rng,))
        timer.start()
        exc, e = attempt(self.owning, self.gui.close if how == 'close' else self.gui.restart_thread)
        timer.join()
        with self.lock:
            alive = 0 if how == 'close' and not self.alive() else 1
            self.t.ev('closed' if how == 'close' else 'restarted', exc=exc, alive=alive)
            self.free = None
        self.open = how != 'close'
        self.cont = self.stepping = False
        self.rec.count(how)

    def owning(self, func, *args):
        """a call of the interface; threads that are started by it belong to it"""
        before = set(threading.enumerate())
        try:
            return func(*args)
        finally:
            self.workers |= {t for t in set(threading.enumerate()) - before if not isinstance(t, threading.Timer)}

    def alive(self):
        return any(t.is_alive() for t in self.workers)

    def enabled(self):
        return [int(b.isEnabled()) for b in self.buttons] if not self.died else []


class FakeTuner:
    def __init__(self, desk, number):
        self.desk, self.number = desk, number

    def is_tuning_complete(self):
        return self.desk.call('check', self.number)

    def iterate(self):
        self.desk.call('iterate', self.number)


class FakeHistory:
    def __init__(self, desk):
        self.desk = desk

    def append_autotuner(self, autotuner, *args, **kwargs):
        self.desk.call('append', getattr(autotuner, 'number', 0))


def settle(desks):
    """until each worker is inside a call or was seen to do nothing for some time"""
    start = time.time()
    todo = [d for d in desks if d.open]
    while todo:
        rest = []
        for d in todo:
            with d.lock:
                held = d.call_ is not None and d.outcome is None
                wait = LONG if (d.cont or d.stepping) and d.has_tuner and d.alive() else SHORT
                if held:
                    d.t.ev('parked', buttons=d.enabled())
                    # a request was heard
                    continue
                if time.time() - start > wait:
                    if d.t.events and d.t.events[-1]['op'] == 'quiet':
                        continue
                    d.t.ev('quiet', alive=int(d.alive()), buttons=d.enabled())
                    d.cont = d.stepping = False
                    continue
            rest.append(d)
        todo = rest
        if todo:
            time.sleep(.004)
    APP.processEvents()


def lock_step(rec, rng, plans):
    """many interfaces at once; plans: (name, actions, options)"""
    desks = [(Desk(rec, name, **opt), list(plan)) for name, plan, opt in plans]
    settle([d for d, _ in desks])
    while any(p for _, p in desks):
        acted = []
        for d, p in desks:
            while p:
                a = p.pop(0)
                if a.startswith('ret_'):
                    if not d.answer(a[4:]):
                        continue
                elif a == 'swap':
                    d.swap()
                elif a in ('close', 'restart'):
                    d.close(rng, a)
                else:
                    d.ask(a)
                acted.append(d)
                break
        settle(acted)
    for d, _ in desks:
        if d.open and rng.random() < .2:
            d.close(rng)
        # a worker that is still held ends with this program
        KEEP.append(d)
    APP.processEvents()


def plan_of(nodes, path):
    ops = [nodes[n]['op'].strip('"') for _, _, n in path]
    return [o for o in ops if o.startswith('ret_') or o in ('start', 'step', 'pause', 'close', 'restart')]


def replay(rec, rng, graphs, tier):
    for g in graphs:
        nodes, edges, init = read_graph(g)
        if not any('call_' in d['op'] for d in nodes.values()):
            continue
        paths, _ = cover_paths(nodes, edges, init, rng, max_len=30)
        rec.count('graph_edges', sum(len(e) for e in edges.values()))
        rec.count('graph_paths', len(paths))
        plans = [('path %d' % i, plan_of(nodes, p), dict(history=i % 7 != 3)) for i, (_, p) in enumerate(paths)]
        for i in range(0, len(plans), 120):
            lock_step(rec, rng, plans[i:i + 120])


def random_plan(rng, n):
    plan = []
    for _ in range(n):
        x = rng.random()
        if x < .62:
            plan.append(rng.choice(['ret_false', 'ret_ok', 'ret_false', 'ret_ok', 'ret_ok', 'ret_false', 'ret_true',
                                    'ret_raise', 'ret_die'][:rng.choice([6, 7, 8, 9])]))
        elif x < .95:
            plan.append(rng.choice(['start', 'step', 'pause', 'start', 'step', 'pause', 'swap']))
        else:
            plan.append(rng.choice(['close', 'restart']))
    return plan


def random_lock_step(rec, rng, k, n, steps):
    plans = []
    for i in range(n):
        opt = dict(history=rng.random() < .85, tuner=rng.random() < .95)
        plans.append(('random %d.%d' % (k, i), random_plan(rng, steps), opt))
    lock_step(rec, rng, plans)


def race(rec, rng, k, n):
    """the user acts at any time"""
    desks = [Desk(rec, 'race %d.%d' % (k, i), history=rng.random() < .85) for i in range(n)]
    for d in desks:
        d.let_go(rng, [rng.choice(['false', 'false', 'false', 'true', 'raise']) for _ in range(60)])
    settle(desks)
    for _ in range(60):
        for d in desks:
            if rng.random() < .6:
                # an outcome for every check still to come
                d.ask(rng.choice(['start', 'step', 'pause', 'start', 'pause']))
            time.sleep(rng.choice([0, 0, .0003, .001, .002]))
        if rng.random() < .15:
            settle_free(desks)
    settle_free(desks)
    for d in desks:
        d.close(rng, strict=False)
        KEEP.append(d)
    APP.processEvents()


def revoked(rec, rng, n, rounds):
    """requests that are withdrawn before the worker can see them"""
    desks = [Desk(rec, 'revoked %d' % i, history=i % 2 == 0) for i in range(n)]
    for d in desks:
        d.let_go(rng)
        d.hits = [0, 0]
    time.sleep(SHORT)
    usual = sys.getswitchinterval()
    for k in range(2 * rounds):
        for d in desks:
            with d.lock:
                d.t.ev('quiet', alive=int(d.alive()), buttons=d.enabled())
            before = d.calls
            # no other thread runs meanwhile
            sys.setswitchinterval(20)
            try:
                d.ask(('start', 'step')[k % 2])
                d.ask('pause')
            finally:
                sys.setswitchinterval(usual)
            d.before = before
            time.sleep(.003)
        time.sleep(SHORT)
        for d in desks:
            d.hits[k % 2] += d.calls != d.before
    for d in desks:
        with d.lock:
            d.t.ev('quiet', alive=int(d.alive()), buttons=d.enabled())
            for what, hits in zip(('start', 'step'), d.hits):
                d.t.ev('revoked', what=what, hits=hits, tries=rounds)
                rec.count('revoked', rounds)
                rec.count('revoked_executed', hits)
        d.close(rng, strict=False)
        KEEP.append(d)
    APP.processEvents()


def settle_free(desks):
    """pause and wait; a worker that was let go always comes to rest"""
    for d in desks:
        d.ask('pause')
    last = None
    while True:
        now = [d.calls for d in desks]
        if now == last and all(not d.t.events or d.t.events[-1]['op'] in ('quiet', 'paused', 'ret', 'done') for d in desks):
            break
        last = now
        time.sleep(SHORT)
    for d in desks:
        with d.lock:
            d.t.ev('quiet', alive=int(d.alive()), buttons=d.enabled())


# --------------------------------------------------------------------------------------------------------- reloading
def loaded(path, reserved):
    """the autotuner in a file that may still be written"""
    end = time.time() + 20
    while True:
        fd, copy = tempfile.mkstemp(suffix='.hdf5')
        os.close(fd)
        try:
            shutil.copyfile(path, copy)
            return load_auto_tuner(copy, reserved)
        except Exception:
            if time.time() > end:
                raise
            time.sleep(.05)
        finally:
            os.remove(copy)


def push(window, text):
    for b in window.findChildren(QtWidgets.QPushButton):
        if b.text().startswith(text):
            b.click()
            return True
    return False


def reload_runs(rec, rng, k, tmp, steps):
    w = make_world(rng, storage=os.path.join(tmp, 'reload%d' % k), rec=False)
    exp, gates = w.exp, w.gates
    h = History(None)
    t = rec.new('reload %d' % k, dict(tuner=1, history=1))
    gui = gui_module.GUI(w.at, h)
    windows = []
    try:
        for _ in range(steps):
            at = gui.auto_tuner
            n = h.number_of_stored_iterations
            if n == 0 or rng.random() < .5:
                LOG.clear()
                if not at.is_tuning_complete() and attempt(at.iterate)[0] == 'none':
                    h.append_autotuner(at)
                    rec.count('iterated')
                elif rng.random() < .5:
                    exp.v[:] = [dy(rng) for _ in exp.v]
                    at.restart()
                continue
            if not windows or rng.random() < .2:
                if windows and rng.random() < .6:
                    windows.pop(rng.randrange(len(windows))).close()
                    APP.processEvents()
                gui.spawn_reload_window()
                windows += [x for x in APP.topLevelWidgets() if isinstance(x, gui_module.ReloadWidget) and x.isVisible() and
                            x not in windows]
            window = rng.choice(windows)
            line = window.findChildren(QtWidgets.QLineEdit)[0]
            if rng.random() < .8:
                x = rng.randint(-2, n + 2) if rng.random() < .3 else rng.randint(0, n - 1)
                line.setText(str(x))
                line.editingFinished.emit()
                t.ev('number', typed=x, n=n, shown=line.text(), exc='none')
            # what the window shows is reloaded
            row = min(int(line.text()), n - 1)
            if rng.random() < .5:
                want = vec(pd.Series({g: h.get_gate_values(g).iloc[row] for g in gates}), gates)
                if rng.random() < .3:
                    exp.v[:] = [dy(rng) for _ in exp.v]
                push(window, 'Reload Voltages')
                at = gui.auto_tuner
                t.ev('voltages', want=want, volts=vec(exp.v, gates), pos=int(at.current_tuner_index),
                     pend=int(at.voltages_to_set is not None),
                     known=[vec(x.last_voltages, gates) for x in at.tuning_hierarchy])
                rec.count('reloaded voltages')
            else:
                reserved = {'experiment': exp}
                other = loaded(h.get_reload_path(row), reserved)
                before = vec(exp.v, gates)
                LOG.clear()
                other.restart()
                push(window, 'Reload Entire State')
                at = gui.auto_tuner
                t.ev('state', a=digest(other, reserved), b=digest(at, reserved), mine=int(at is window.auto_tuner),
                     exp=int(at.reserved.get('experiment') is exp), before=before, volts=vec(exp.v, gates))
                rec.count('reloaded states')
    finally:
        gui.close()
        for window in windows:
            window.close()
        APP.processEvents()


def run(rec, rng, tier, pid, graphs):
    import logging
    q = tier == 'quick'
    tmp = tempfile.mkdtemp()
    all_ = 'U01,U02'
    try:
        if pid in ('U01', 'U02', ''):
            rec.guard('replay', replay, rec, rng, graphs, tier, pids=all_)
            for k in range(1 if q else 12):
                rec.guard('lock_step%d' % k, random_lock_step, rec, rng, k, 60, 40 if q else 80, pids=all_)
            for k in range(2 if q else 20):
                rec.guard('race%d' % k, race, rec, rng, k, 12, pids=all_)
            rec.guard('revoked', revoked, rec, rng, 4, 6 if q else 30, pids=all_)
        if pid in ('U03', ''):
            for k in range(14 if q else 300):
                rec.guard('reload%d' % k, reload_runs, rec, rng, k, tmp, 30, pids='U03')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    driver_main(run)
