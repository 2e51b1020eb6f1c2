B = []


def bug(id, property, file, old, new, needs, breaks, demo):
    B.append(dict(id=id, property=property, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs,
                  breaks=breaks, demo=demo))


GUI, GR = 'qtune/gui.py', 'qtune/gradient.py'
HEAD = '''
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.switch_backend('Agg')
import time
import IPython
class Shell:
    def magic(self, *args): pass
    run_line_magic = enable_gui = magic
IPython.get_ipython = lambda: Shell()
import qtune.gui as gui
from qtune.history import History
from PyQt5 import QtWidgets
app = QtWidgets.QApplication.instance() or QtWidgets.QApplication([])

def wait(condition, seconds=10):
    end = time.time() + seconds
    while time.time() < end:
        app.processEvents()
        if condition():
            return True
        time.sleep(.01)
    return condition()

def spawn(f):
    before = set(app.topLevelWidgets())
    f()
    return [w for w in app.topLevelWidgets() if w not in before and hasattr(w, 'getFigure')][0]

def points(w):
    return [len(line.get_ydata()) for a in w.getFigure().axes for line in a.lines]

exp = Exp(A=0., B=0.)
f = subset(exp, {'p': lambda v: v['A']}, ['A'], {'p': [1.]}, {'p': 5.}, {'p': .1})
at, h = Autotuner(exp, [f]), History(None)
g = gui.GUI(at, h)

def step():
    n = h.number_of_stored_iterations
    for i in range(5):
        # only new voltages are a new row
        g.step()
        if wait(lambda: h.number_of_stored_iterations == n + 1, 1):
            break
    check(h.number_of_stored_iterations == n + 1, 'one more row')
    wait(lambda: False, .2)
'''

bug('gui-closed-window-disconnects-all', 'U04', GUI,
    "            self._update_plots.disconnect(lambda x: None)\n",
    "            self._update_plots.disconnect()\n",
    'two windows of which one is closed, and a further iteration',
    'the window that is still open does not show the later iterations any more',
    HEAD + '''
a, b = spawn(g.spawn_parameter_window), spawn(g.spawn_parameter_window)
step()
check(wait(lambda: points(a) == [1] and points(b) == [1]), 'both show the first iteration')
b.close()
step()
check(wait(lambda: points(a) == [2], 5), 'the open window shows the second iteration: %s' % points(a))
g.close()
os._exit(0)
''')

bug('gui-window-remembers-parameters', 'U04', GUI,
    "        return self.history.parameter_names if self._parameter_names is None else self._parameter_names\n",
    "        if self._parameter_names is None:\n"
    "            # keep the order of the panels\n"
    "            self._parameter_names = sorted(self.history.parameter_names)\n"
    "        return self._parameter_names\n",
    'a window that is opened before the first iteration is recorded',
    'the window stays empty forever',
    HEAD + '''
a = spawn(g.spawn_parameter_window)
step()
check(wait(lambda: points(a) == [1], 5), 'the first iteration is shown: %s' % points(a))
g.close()
os._exit(0)
''')
BUGS = B
