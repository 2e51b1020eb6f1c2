"""Driver of everything that talks to MATLAB: indices, gate voltages, measurements, sessions, results of analyses."""
import gc
import shutil
import tempfile

from common import *
from world import Injected
from fakematlab import *

from qtune import mat2py, sm, sm_tune_qqd  # noqa: E402
from qtune.experiment import Measurement  # noqa: E402
from qtune.storage import to_hdf5, from_hdf5  # noqa: E402

NONE = 1000


def exc_name(f):
    """result, name of the exception"""
    try:
        return f(), 'none'
    except Injected:
        return None, 'injected'
    except Exception as e:
        if isinstance(e.__cause__, Injected) or isinstance(e.__context__, Injected):
            return None, 'injected'
        return None, type(e).__name__


# ---------------------------------------------------------------------- indices

PLAIN = Session('plain')


def positions(text, n):
    """what MATLAB selects from n elements; [-1]: an error"""
    try:
        x = PLAIN.run(text, end=n)
    except (Error, SyntaxError, IndexError):
        return [-1]
    if x == ':':
        return list(range(1, n + 1))
    x = x if isinstance(x, list) else [x]
    return [int(i) if i == int(i) else -1 for i in x]


def commas(text):
    parts, depth = [''], 0
    for ch in text:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and not depth:
            parts.append('')
        else:
            parts[-1] += ch
    return parts


def num(x):
    return NONE if x is None else int(x)


def translate(idx):
    out, exc = exc_name(lambda: mat2py.transform_index(idx))
    if exc == 'none' and not isinstance(out, str):
        # numbers and colons are sent as they are
        exc = 'untranslated'
    return out, exc


def slices(rec, rng, length, bounds, steps):
    t = rec.new('slices', dict(none=0))
    for a in bounds:
        for b in bounds:
            for c in steps:
                text, exc = translate(slice(a, b, c))
                t.ev('slice', exc=exc, a=num(a), b=num(b), c=num(c),
                     got=[positions(text, n) for n in range(length + 1)] if exc == 'none' else [])
                rec.count('slices')
    t = rec.new('indices', dict(none=0))
    for kind in (int, np.int64, np.int32, np.intp):
        for i in range(-length - 2, length + 3):
            text, exc = translate(kind(i))
            t.ev('index', exc=exc, a=i, got=[positions(text, n) for n in range(length + 1)] if exc == 'none' else [])
            rec.count('indices')
    t = rec.new('numpy slices', dict(none=0))
    for k in range(60):
        a, b, c = (rng.choice([None, np.int64(rng.randint(-6, 6)), rng.randint(-6, 6)]) for _ in range(3))
        c = c or None
        text, exc = translate(slice(a, b, c))
        t.ev('slice', exc=exc, a=num(a), b=num(b), c=num(c),
             got=[positions(text, n) for n in range(length + 1)] if exc == 'none' else [])


def random_slice(rng, n):
    return slice(rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, rng.randint(-n - 2, n + 2)]),
                 rng.choice([None, 1, 1, 2, 3, -1, -1, -2, -3]))


def tuples(rec, rng, k):
    t = rec.new('tuples%d' % k, dict(none=0))
    for _ in range(40):
        dim = rng.choice([1, 2, 2, 2, 3])
        ns = [rng.randint(1, 7) for _ in range(dim)]
        idx = tuple(rng.choice([int, int, np.int64])(rng.randint(-n, n - 1)) if rng.random() < .5 else random_slice(rng, n)
                    for n in ns)
        text, exc = translate(idx)
        axes = []
        if exc == 'none':
            for part, n, i in zip(commas(text), ns, idx):
                s = isinstance(i, slice)
                axes.append(dict(n=n, slice=int(s), a=num(i.start) if s else int(i), b=num(i.stop) if s else 0,
                                 c=num(i.step) if s else 0, got=positions(part, n)))
            if len(commas(text)) != dim:
                axes = []
        t.ev('tuple', exc=exc, dim=dim, axes=axes)


def views(rec, rng, k):
    t = rec.new('views%d' % k, dict(none=0))
    for _ in range(15):
        n = rng.randint(1, 6)
        s = Session('x')
        s.vars['data'] = Struct(ana=StructArray(Struct(tag=float(i + 1), sub=StructArray(
            [Struct(tag=10. * (i + 1) + j) for j in range(2)])) for i in range(n)))
        v = mat2py.MATLABStructView(Engine(s), 'data').ana
        if rng.random() < .6:
            i = rng.randrange(n) if rng.random() < .7 else rng.randrange(-n, n)
            a, b, c, sl = i, 0, 0, 0
            i = rng.choice([int, np.int64])(i)
        else:
            i = random_slice(rng, n)
            i = slice(*i.indices(n))
            if not range(n)[i] or i.stop < 0:
                i = slice(None, None, i.step)
            a, b, c, sl = num(i.start), num(i.stop), num(i.step), 1

        def tags():
            got = v[i].tag
            return [int(x) for x in got] if not isinstance(got, float) else [int(got)]

        got, exc = exc_name(tags)
        ln, exc2 = exc_name(lambda: len(v))
        every, exc3 = exc_name(lambda: [int(x.tag) for x in v])
        t.ev('view', exc=next((x for x in (exc, exc2, exc3) if x != 'none'), 'none'), n=n, slice=sl, a=a, b=b, c=c,
             got=got or [], len=ln or 0, all=every or [])
        rec.count('views')


# ---------------------------------------------------------------------- gate voltages

LEGACY = ('qtune.read_gate_voltages', 'qtune.set_gates_v_pretuned')
QQD = ('qtune.read_qqd_gate_voltages', 'qtune.set_qqd_gate_voltages')
FUNCTIONS = {'line_scan': 'qtune.PythonChargeLineScan', 'detune_scan': 'qtune.PythonLineScan',
             'lead_scan': 'qtune.LeadScan', 'load_scan': 'qtune.LoadScan', '2d_scan': 'qtune.PythonQPCScan2D'}


class Device:
    """gates behind MATLAB; voltages above the limit are refused, everything else is rounded to the resolution"""

    def __init__(self, gates, values, limit=8000., resolution=None, ints=False):
        self.v = dict(zip(gates, values))
        self.limit, self.resolution, self.ints = limit, resolution, ints
        self.sent = []
        self.session = Session('lab')
        self.session.path = [sm.matlab_files_path()]
        f = self.session.functions
        for read, put in (LEGACY, QQD):
            f[read] = self.read
            f[put] = self.set
        self.results = {}
        self.measured = []
        for name in FUNCTIONS.values():
            f[name] = (lambda name: lambda opts: self.measure(name, opts))(name)
        f['tune.tune'] = self.tune
        self.analysis = None
        self.matlabs = Matlabs()
        self.matlabs.sessions['lab'] = self.session
        self.matlabs.install()
        sm.SpecialMeasureMatlab.connected_engines.clear()
        self.connection = sm.SpecialMeasureMatlab(connect='lab')

    def read(self, *args):
        return Struct((g, int(x) if self.ints and x == int(x) else x) for g, x in self.v.items())

    def set(self, new):
        self.sent.append(new)
        if any(not isinstance(x, (int, float)) or x > self.limit for x in new.values()):
            raise Injected('refused')
        for g, x in new.items():
            r = self.resolution
            self.v[g] = round(float(x) / r) * r if r else float(x)
        return self.read()

    def measure(self, name, opts):
        self.measured.append((name, opts))
        res = self.results.get(name)
        if isinstance(res, Exception):
            raise res
        return res

    def tune(self, *args):
        self.measured.append(('tune.tune', args))
        if isinstance(self.analysis, Exception):
            raise self.analysis
        return Struct(args=Struct(fullFile='file %d' % len(self.measured)), data=Array([[0.]]),
                      ana=self.analysis if self.analysis is not None else Struct(STp_x=1., STp_y=2., Tp_x=3., Tp_y=4.),
                      successful=1.)

    def vec(self, gates):
        return [enc(self.v[g]) for g in gates]


def experiments(dev):
    return dict(dqd=sm.LegacyDQDRefactored(dev.connection), qqd=sm_tune_qqd.SMTuneQQD(dev.connection))


def set_event(t, dev, exp, gates, req):
    """req: series"""
    before = dev.vec(gates)
    dev.sent.clear()
    kept = req.copy()
    unknown = int(any(g not in gates for g in req.index))
    asked = dict(req)
    refuses = int(any(x > dev.limit for x in list(asked.values()) + [x for g, x in dev.v.items() if g not in asked]))
    ret, exc = exc_name(lambda: exp.set_gate_voltages(req))
    last = dev.sent[-1] if dev.sent else {}
    t.ev('set', exc=exc, before=before, req=vec(kept, gates), unknown=unknown, refuses=refuses, nsent=len(dev.sent),
         sent=[enc(last[g]) if g in last else MISS for g in gates], more=len([g for g in last if g not in gates]),
         numbers=int(all(type(x) is float for x in last.values())), after=dev.vec(gates),
         ret=vec(ret, gates) if ret is not None else [], retmore=extra(ret, gates) if ret is not None else 0,
         same=int(req.equals(kept) and list(req.index) == list(kept.index)))


def read_event(t, dev, exp, gates):
    ret, exc = exc_name(exp.read_gate_voltages)
    names, exc2 = exc_name(lambda: exp.gate_voltage_names)
    if callable(names):
        names, exc2 = exc_name(names)
    t.ev('read', exc=exc, after=dev.vec(gates), ret=vec(ret, gates) if ret is not None else [],
         retmore=extra(ret, gates) if ret is not None else 0,
         names=int(exc2 == 'none' and sorted(names) == sorted(gates) and list(names) == list(ret.index)))


def replay_gates(rec, rng, graph, tier):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=200)
    rec.count('gate_edges_left', left)
    if tier == 'quick':
        rng.shuffle(paths)
        paths = paths[:120]
    for k, (start, path) in enumerate(paths):
        gates = ['T', 'N', 'B']
        dev = Device(gates, [0., 0., 0.], limit=1.5)
        exps = experiments(dev)
        t = rec.new('gates replay%d' % k, dict(none=0))
        for a, i, b in path:
            act = edges[a][i][0].split('(')[0]
            if act == 'Ask':
                req = [int(x) for x in nodes[b]['req'].strip('<>() ').replace(':>', ' ').split(',')] \
                    if '<<' in nodes[b]['req'] else []
                s = pd.Series({g: float(x) for g, x in zip(gates, req) if x != -1}, dtype=float)
                s = s.sample(frac=1, random_state=rng.randrange(1000))
                set_event(t, dev, exps[nodes[b]['through'].strip('"')], gates, s)
                rec.count('gate_requests')


ALLGATES = ['SB', 'BB', 'T', 'N', 'SA', 'BA', 'RFA', 'RFB', 'SDB1', 'SDB2', 'LT', 'RP']


def random_gates(rec, rng, k):
    n = rng.randint(1, 10)
    gates = rng.sample(ALLGATES, n)
    ints = rng.random() < .3
    res = rng.choice([None, 2. ** -8])

    def value():
        return float(rng.randint(-2, 1)) if ints else rng.randint(-256, 256) / 256. if res else rng.uniform(-1, 1)

    dev = Device(gates, [value() for _ in gates], limit=rng.choice([2., 8000.]), resolution=res, ints=ints)
    exps = experiments(dev)
    t = rec.new('gates random%d' % k, dict(none=0))
    for _ in range(25):
        exp = rng.choice(list(exps.values()))
        if rng.random() < .15:
            read_event(t, dev, exp, gates)
            continue
        if rng.random() < .1:
            # changed by someone else
            g = rng.choice(gates)
            dev.v[g] = value()
        some = rng.sample(gates, rng.randint(0, n))
        if rng.random() < .06:
            some.insert(rng.randint(0, len(some)), 'unknown')
        kind = rng.choice(['float', 'float', 'float', 'int', 'float32', 'object'])
        values = [rng.randint(-1, 1) if kind == 'int' else rng.randrange(-512, 512) / 256. if kind == 'float32' else
                  rng.uniform(-1, 1) for _ in some]
        if some and rng.random() < .1:
            values[rng.randrange(len(some))] = 5
        s = pd.Series(values, index=some, dtype={'float': float, 'int': int, 'float32': np.float32,
                                                 'object': object}[kind] if some else float)
        set_event(t, dev, exp, gates, s)
        rec.count('random_gate_requests')


# ---------------------------------------------------------------------- measurements

def number(rng):
    return rng.choice([lambda: rng.uniform(-1, 1), lambda: rng.randint(0, 50), lambda: np.float64(rng.uniform(-1, 1)),
                       lambda: np.int64(rng.randint(0, 50))])()


def plain(rng):
    return rng.choice([rng.uniform(-1, 1), rng.randint(0, 50)])


def conf(options, keys):
    return [enc(options[k]) if k in options and not isinstance(options[k], str) else
            MISS if k not in options else 0 for k in keys]


def random_measurements(rec, rng, k):
    gates = ['T', 'N']
    dev = Device(gates, [0., 0.])
    exps = experiments(dev)
    t = rec.new('measure random%d' % k, dict(none=0))
    configured = {}
    for _ in range(12):
        if rng.random() < .5:
            legacy_measurement(rec, rng, t, dev, exps['dqd'], configured)
        else:
            tune_measurement(rec, rng, t, dev, exps['qqd'], configured)


def legacy_measurement(rec, rng, t, dev, exp, configured):
    name = rng.choice(list(FUNCTIONS) + ['none such'])
    if name in configured and rng.random() < .5:
        m = configured[name]
    else:
        if name in ('line_scan', 'detune_scan'):
            opts = {o: number(rng) for o in rng.sample(['N_points', 'N_average', 'center', 'range', 'ramptime'],
                                                       rng.randint(0, 5))}
        elif name == '2d_scan':
            opts = dict(range=number(rng), n_points=number(rng))
        else:
            opts = {}
        if name != '2d_scan':
            for o in rng.sample(['gate', 'AWGorDecaDAC', 'other'], rng.randint(0, 3)):
                opts[o] = rng.choice(['B', 'RFA', 'AWG']) if rng.random() < .6 else plain(rng)
        m = Measurement(name, **opts)
        configured[name] = m
    fn = FUNCTIONS.get(name, '')
    rows = [[rng.uniform(-5, 5) for _ in range(3)] for _ in range(rng.choice([1, 2, 4]))]
    dev.results[fn] = Array(rows)
    keys = list(m.options)
    was, texts = conf(m.options, keys), {o: m.options[o] for o in keys if isinstance(m.options[o], str)}
    dev.measured.clear()
    res, exc = exc_name(lambda: exp.measure(m))
    got = dev.measured[-1][1] if dev.measured else {}
    t.ev('measure', exc=exc, known=int(name in FUNCTIONS), ncalls=len(dev.measured),
         fn=dev.measured[-1][0] if dev.measured else '', wantfn=fn, got=conf(got, keys), want=was,
         texts=int(all(got.get(o) == x for o, x in texts.items())),
         more=len([o for o in got if o not in keys and o != 'file_name']),
         named=int(isinstance(got.get('file_name'), str) and got.get('file_name') != ''), conf=conf(m.options, keys),
         confwas=was, confmore=len([o for o in m.options if o not in keys]),
         res=[enc(x) for x in np.asarray(res).ravel()] if exc == 'none' else [],
         wantres=[enc(x) for r in rows for x in r] if name in FUNCTIONS else [])
    rec.count('legacy_measurements')


TUNE = ['sensor 2d', 'sensor', 'chrg', 'resp', 'line', 'lead', 'load', 'load pos', 'chrg rnd', 'chrg s', 'stp', 'tl']


def tune_measurement(rec, rng, t, dev, exp, configured):
    name = rng.choice(TUNE + ['stp', 'tl', 'none such'])
    if ('t', name) in configured and rng.random() < .5:
        m = configured['t', name]
    else:
        opts = {o: number(rng) if rng.random() < .7 else 'text'
                for o in rng.sample(['xr', 'yr', 'nrep', 'res', 'npix', 'center'], rng.randint(0, 5))}
        opts['index'] = rng.choice([rng.randint(1, 3), np.int64(2), 3.])
        keys = list(opts)
        rng.shuffle(keys)
        m = Measurement(name, **{o: opts[o] for o in keys})
        configured['t', name] = m
    keys = list(m.options)
    was, texts = conf(m.options, keys), {o: m.options[o] for o in keys if isinstance(m.options[o], str)}
    dev.measured.clear()
    res, exc = exc_name(lambda: exp.measure(m))
    args = list(dev.measured[-1][1]) if dev.measured else []
    got = dict(zip(args[2::2], args[3::2]))
    if len(args) > 1:
        got['index'] = args[1]
    ok = len(args) % 2 == 0 and args[:1] == [name] and len(args) == 2 + 2 * (len(keys) - 1)
    want = []
    if name == 'stp':
        want = [1., 2.]
    elif name == 'tl':
        want = [3., 4.]
    t.ev('measure', exc=exc, known=int(name in TUNE), ncalls=len(dev.measured),
         fn=dev.measured[-1][0] if dev.measured and ok else '', wantfn='tune.tune', got=conf(got, keys), want=was,
         texts=int(all(got.get(o) == x for o, x in texts.items())), more=len([o for o in got if o not in keys]),
         named=2, conf=conf(m.options, keys), confwas=was, confmore=len([o for o in m.options if o not in keys]),
         res=[enc(x) for x in np.asarray(res).ravel()] if exc == 'none' and want else [], wantres=[enc(x) for x in want])
    rec.count('tune_measurements')


# ---------------------------------------------------------------------- conversion

def flatten(x):
    """structure, numbers"""
    if isinstance(x, Array):
        return '[%dx%d]' % x.size, [enc(v) for r in x.rows for v in r]
    if isinstance(x, np.ndarray):
        x = np.atleast_2d(x)
        return '[%dx%d]' % x.shape, [enc(v) for v in x.ravel()]
    if isinstance(x, (dict, pd.Series)):
        parts = [(str(k), flatten(x[k])) for k in sorted(dict(x))]
        return '{' + ' '.join(k + '=' + p[0] for k, p in parts) + '}', [v for _, p in parts for v in p[1]]
    if isinstance(x, (list, tuple)):
        parts = [flatten(v) for v in x]
        return '(' + ' '.join(p[0] for p in parts) + ')', [v for p in parts for v in p[1]]
    if isinstance(x, (set, frozenset)):
        return flatten(sorted(float(v) for v in x))
    if isinstance(x, (int, float, np.generic)):
        return 'x', [enc(x)]
    return type(x).__name__, []


def random_object(rng, depth=0):
    k = rng.random()
    if k < .4 or depth > 2:
        return number(rng)
    if k < .65:
        dt = rng.choice([np.float64, np.float64, np.float32, np.int32, np.uint64])
        shape = rng.choice([(rng.randint(1, 6),), (rng.randint(1, 5), rng.randint(1, 5))])
        a = np.array([rng.randint(-512, 512) / 64. if dt in (np.float64, np.float32) else rng.randint(0, 100)
                      for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
        j = rng.random()
        if a.ndim == 2 and j < .25:
            a = np.asfortranarray(a)
        elif a.ndim == 2 and j < .5:
            a = a.T
        elif j < .7:
            a = a[::-1]
        elif j < .8:
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        return a
    if k < .75:
        return pd.Series({n: number(rng) for n in rng.sample('abcdef', rng.randint(1, 4))})
    if k < .83:
        return [random_object(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    if k < .9:
        return tuple(random_object(rng, depth + 1) for _ in range(rng.randint(1, 3)))
    if k < .95:
        return {float(rng.randint(0, 9)) for _ in range(3)}
    return {n: random_object(rng, depth + 1) for n in rng.sample('abcdef', rng.randint(1, 3))}


def acceptable(x):
    try:
        to_engine(x)
        return 1
    except TypeError:
        return 0


def random_conversions(rec, rng, k):
    dev = Device(['T'], [0.])
    t = rec.new('convert%d' % k, dict(none=0))
    for _ in range(30):
        obj = random_object(rng)
        shape, want = flatten(obj)
        out, exc = exc_name(lambda: dev.connection.to_matlab(obj))
        got = ('', []) if exc != 'none' else flatten(out)
        t.ev('convert', exc=exc, wantshape=shape, want=want, shape=got[0], got=got[1],
             accepted=acceptable(out) if exc == 'none' else 0)
        rec.count('conversions')


# ---------------------------------------------------------------------- sessions

class Lab:
    """sessions 1 "a", 2 "b", 3 the one that was started"""

    def __init__(self, rng, t, tmp, names=('a', 'b')):
        self.rng, self.t = rng, t
        self.names = list(names)
        self.m = Matlabs(names)
        self.m.prepare = self.prepare
        self.m.install()
        sm.SpecialMeasureMatlab.connected_engines.clear()
        self.other = os.path.join(tmp, 'other')
        os.makedirs(self.other, exist_ok=True)
        self.ran = 0
        for s in self.m.sessions.values():
            self.prepare(s)
        self.users = {}
        self.warned = []

    def prepare(self, s):
        def good():
            self.ran += 1
            s.vars['smdata'] = Struct()

        def bad():
            self.ran += 1
        s.functions['goodscript'] = good
        s.functions['badscript'] = bad

    @property
    def all(self):
        """the last session that was started counts while it is in use"""
        out = [self.m.sessions[n] for n in self.names]
        if self.m.started:
            out.append(self.m.started[-1])
        else:
            out.append(Session('none yet'))
        return out

    def pathof(self, s):
        if not s.path:
            return 'none'
        return 'own' if os.path.realpath(s.path[0]) == os.path.realpath(sm.matlab_files_path()) else 'other'

    def number(self, s):
        return next((i + 1 for i, x in enumerate(self.all) if x is s), 0)

    def connect(self, user, to, script, overwrite, broken=0):
        gc.collect()
        gui = None
        if to == 'start':
            gui = self.rng.choice([None, True, False])
        n = len(self.m.started)
        if to == 'start':
            # it is not yet there
            state = self.all[:-1] + [Session('new')]
        else:
            state = self.all
        before = dict(inuse=[int(s.in_use > 0) for s in state], smdata=[int('smdata' in s.vars) for s in state],
                      path=[self.pathof(s) for s in state])
        conns = [s.connections for s in state]
        for s in self.m.sessions.values():
            s.broken_path = bool(broken)
        self.ran = 0
        arg = dict(start=None if self.rng.random() < .5 else False, any=True).get(to, to)
        asked = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            script_name = dict(good='goodscript', bad='badscript').get(script)
            kw = dict(silently_overwrite_path=dict(ask=None, no=False, yes=True)[overwrite],
                      special_measure_setup_script=script_name)
            if gui is not None:
                kw['gui'] = gui
            real = Engine._call
            calls = []

            def record(e, name, args):
                calls.append(e._session)
                return real(e, name, args)

            Engine._call = record
            try:
                new, exc = exc_name(lambda: sm.SpecialMeasureMatlab(arg, **kw))
            finally:
                Engine._call = real
        sys.last_traceback = None
        if new is not None:
            self.users[user] = new
            x = self.number(new.engine._session)
        else:
            x = self.number(calls[-1]) if calls else 0
        del new
        gc.collect()
        state = self.all
        started = state[-1]
        self.t.ev('connect', exc=exc, to=dict(start=0, any=-1).get(to, 0) or
                  (0 if to == 'start' else self.names.index(to) + 1), x=x, startedno=len(state), script=script,
                  overwrite=overwrite, broken=broken, gui=0 if gui is False else 1,
                  desktop=int(getattr(started, 'args', ('',))[0] == '-desktop'), ran=self.ran,
                  warned=int(any(issubclass(i.category, UserWarning) for i in w)),
                  conns=[s.connections - c for s, c in zip(state, conns)],
                  smafter=[int('smdata' in s.vars) for s in state], pathafter=[self.pathof(s) for s in state], **before)
        return exc

    def drop(self, user):
        s = self.users[user].engine._session
        others = [u for u in self.users if u != user and self.users[u].engine._session is s]
        del self.users[user]
        gc.collect()
        self.t.ev('drop', usedafter=s.in_use, wantused=1 if others else 0)


def replay_sessions(rec, rng, graph, tier, tmp):
    nodes, edges, init = read_graph(graph)
    paths, left = cover_paths(nodes, edges, init, rng, max_len=60)
    if tier == 'quick':
        rng.shuffle(paths)
        paths = paths[:700]
    for k, (start, path) in enumerate(paths):
        t = rec.new('sessions replay%d' % k, dict(none=0))
        lab = Lab(rng, t, tmp)
        lab.m.sessions['b'].path = [lab.other]
        lab.m.sessions['b'].vars['smdata'] = Struct()
        for a, i, b in path:
            act, d = edges[a][i][0].split('(')[0], nodes[b]
            if act == 'Answer':
                u, to, script, overwrite = [x.strip().strip('"') for x in nodes[a]['req'].strip('<>').split(',')]
                # "any" may be answered by a different session than in the model
                if int(u) in lab.users or (to == 'start' and lab.m.started and lab.m.started[-1].in_use):
                    continue
                lab.connect(int(u), to, script, overwrite)
                rec.count('connections')
            elif act == 'Drop':
                u = next(j for j in (1, 2) if users_of(nodes[a])[j] != users_of(d)[j])
                if u in lab.users:
                    lab.drop(u)


def users_of(node):
    parts = [x.strip().strip('"') for x in node['users'].strip('<>').split(',')]
    return {1: parts[0], 2: parts[1]}


def random_sessions(rec, rng, k, tmp):
    t = rec.new('sessions random%d' % k, dict(none=0))
    names = rng.sample(['MATLAB_1', 'lab', 'b7', 'start_here'], rng.randint(1, 4))
    lab = Lab(rng, t, tmp, names)
    for s in lab.m.sessions.values():
        if rng.random() < .4:
            s.vars['smdata'] = Struct()
        s.path = rng.choice([[], [lab.other], [sm.matlab_files_path()], [os.path.join(sm.matlab_files_path(), '')]])
    free = iter(range(1000))
    for _ in range(20):
        if lab.users and rng.random() < .35:
            lab.drop(rng.choice(list(lab.users)))
        else:
            to = rng.choice(['start', 'any', 'any'] + names)
            if to == 'start' and lab.m.started and lab.m.started[-1].in_use:
                continue
            lab.connect(next(free), to, rng.choice(['none', 'good', 'bad']), rng.choice(['ask', 'no', 'yes']),
                        broken=int(rng.random() < .4 and to in names))
            rec.count('random_connections')
    lab.users.clear()
    gc.collect()


# ---------------------------------------------------------------------- analyses

def label_of(x, params):
    return vec(x, params) if isinstance(x, pd.Series) else [WRONG] * len(params)


class Analyses:
    """evaluators of the quadruple dot with prepared results of the analysis"""

    def __init__(self, rec, rng, name, tmp):
        self.rec, self.rng, self.tmp = rec, rng, tmp
        self.t = rec.new(name, dict(none=0))
        self.dev = Device(['T'], [0.])
        self.exp = sm_tune_qqd.SMTuneQQD(self.dev.connection)
        self.kind = rng.choice(KINDS)
        self.m = Measurement(self.kind.measurement, index=rng.randint(1, 3), **({'nrep': 3} if rng.random() < .5 else {}))
        n = self.kind.n or rng.choice([2, 4])
        self.params = ['par %s %d' % (rng.choice('abxyz'), i) for i in range(n)]
        rng.shuffle(self.params)
        self.kw, self.k = self.kind.config(rng, self.params)
        self.ev = self.kind.cls(self.exp, [self.m], self.params, 'name', **self.kw)

    def restored(self, data):
        path = os.path.join(self.tmp, 'q.hdf5')
        if os.path.exists(path):
            os.remove(path)
        to_hdf5(path, 'e', self.ev, reserved={'experiment': self.exp})
        ev = from_hdf5(path, reserved={'experiment': self.exp})['e']
        r = ev.evaluate()
        return label_of(r[0], self.params), label_of(r[1], self.params)

    def evaluate(self, rounds):
        for i in range(rounds):
            ana, want, wantvar = self.kind.make(self.rng, self.params, self.k)
            raises = self.rng.random() < .1
            self.dev.analysis = Injected('tune') if raises else ana
            self.dev.measured.clear()
            r, exc = exc_name(self.ev.evaluate)
            calls = len(self.dev.measured)
            file = 0
            again = againvar = []
            if exc == 'none':
                file = int(self.ev.to_hdf5().get('last_file_names') == 'file 1')
                if self.rng.random() < .25:
                    got, e2 = exc_name(lambda: self.restored(ana))
                    again, againvar = got if e2 == 'none' else ([WRONG], [WRONG])
                    self.rec.count('restored')
            self.t.ev('qqd', exc=exc, kind='raise' if raises else 'good', np=len(self.params),
                      val=label_of(r[0], self.params) if r else [], var=label_of(r[1], self.params) if r else [],
                      more=(extra(r[0], self.params) + extra(r[1], self.params)) if r else 0,
                      want=[enc(x) for x in want], wantvar=[enc(x) for x in wantvar], calls=calls, file=file,
                      again=again, againvar=againvar)
            self.rec.count('analyses')


def limits(rng):
    kw = {}
    if rng.random() < .5:
        kw['minimal_value'] = rng.uniform(-1, 0)
    if rng.random() < .5:
        kw['maximal_value'] = rng.uniform(0, 1)
    return kw


def limited(x, k):
    return float('nan') if x < k.get('minimal_value', -np.inf) or x > k.get('maximal_value', np.inf) else x


class Line:
    cls, measurement, n = sm_tune_qqd.QQDLine, 'line', 1

    @staticmethod
    def config(rng, params):
        kw = limits(rng)
        return kw, kw

    @staticmethod
    def make(rng, params, k):
        w = [rng.uniform(-1, 1) for _ in range(rng.randint(2, 5))]
        return StructArray(Struct(width=x) for x in w), [limited(np.mean(w), k)], \
            [np.mean((np.array(w) - np.mean(w)) ** 2) / len(w)]


class LeadA:
    cls, measurement, n = sm_tune_qqd.QQDLead, 'lead', 1

    @staticmethod
    def config(rng, params):
        kw = limits(rng)
        if rng.random() < .6:
            kw['error'] = rng.uniform(.1, 2)
        if rng.random() < .6:
            kw['reference_residual_sum'] = rng.uniform(.1, 2)
        return kw, kw

    @staticmethod
    def make(rng, params, k):
        p = [[rng.uniform(-1, 1) for _ in range(5)] for _ in range(2)]
        s = rng.uniform(0, 3)
        return Struct(fitParams=Array(p), sumResiduals=s), [limited(p[1][3], k)], \
            [k.get('error', 1.) * s / k.get('reference_residual_sum', 1.)]


NAN = float('nan')


class Sensor1:
    cls, measurement, n = sm_tune_qqd.QQDSensor1D, 'sensor', 2

    @staticmethod
    def config(rng, params):
        return {}, {}

    @staticmethod
    def make(rng, params, k):
        x, g = rng.uniform(-1, 1), rng.uniform(-5, 5)
        return Struct(xVal=x, minGradData=g), [x, abs(g)], [NAN, NAN]


class Sensor2:
    cls, measurement, n = sm_tune_qqd.QQDSensor2D, 'sensor 2d', 3

    @staticmethod
    def config(rng, params):
        return {}, {}

    @staticmethod
    def make(rng, params, k):
        x, y, g = rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-5, 5)
        return Struct(xVal=x, yVal=y, minGradData=g), [x, y, abs(g)], [NAN] * 3


class Charge:
    cls, measurement, n = sm_tune_qqd.QQDCharge, 'chrg', None

    @staticmethod
    def config(rng, params):
        kw = dict(error=rng.uniform(.1, 2)) if rng.random() < .7 else {}
        return kw, kw

    @staticmethod
    def make(rng, params, k):
        x = [rng.uniform(-1, 1) for _ in params]
        return Struct(O=Array([x] if rng.random() < .5 else [[v] for v in x])), x, [k.get('error', 1.)] * len(x)


class Triple:
    cls, measurement, n = sm_tune_qqd.QQDDistTP, 'chrg', 1
    config = Charge.config

    @staticmethod
    def make(rng, params, k):
        a, b = ([rng.uniform(-1, 1) for _ in range(2)] for _ in range(2))
        return Struct(triplePointLeft=Array([a]), triplePointRight=Array([b])), \
            [((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5], [k.get('error', 1.)]


class Resp:
    cls, measurement, n = sm_tune_qqd.QQDResp, 'resp', 2

    @staticmethod
    def config(rng, params):
        kw, k = {}, {}
        for name, sign in (('min_position', -1), ('max_position', 1)):
            j = rng.random()
            if j < .3:
                kw[name] = sign * rng.uniform(0, 1)
                k[name] = [kw[name]] * 2
            elif j < .6:
                k[name] = [sign * rng.uniform(0, 1) for _ in params]
                kw[name] = pd.Series(k[name], index=params)
                if rng.random() < .5:
                    kw[name] = kw[name][::-1]
        if rng.random() < .6:
            kw['min_transition_height'] = k['height'] = rng.uniform(.2, .8)
        j = rng.random()
        if j < .3:
            kw['error'] = rng.uniform(.1, 2)
            k['error'] = [kw['error']] * 2
        elif j < .6:
            k['error'] = [rng.uniform(.1, 2) for _ in params]
            kw['error'] = pd.Series(k['error'], index=params)
        return kw, k

    @staticmethod
    def make(rng, params, k):
        x = [rng.uniform(-1.2, 1.2) for _ in params]
        h = [rng.uniform(0, 1) for _ in params]
        lo, hi = k.get('min_position', [-np.inf] * 2), k.get('max_position', [np.inf] * 2)
        want = [NAN if h[i] < k.get('height', -np.inf) or not lo[i] <= x[i] <= hi[i] else x[i] for i in range(2)]
        return StructArray(Struct(position=a, visiblity=b) for a, b in zip(x, h)), want, k.get('error', [1., 1.])


KINDS = [Line, LeadA, Sensor1, Sensor2, Charge, Triple, Resp, Resp]


def random_analyses(rec, rng, k, tmp):
    Analyses(rec, rng, 'analyses%d' % k, tmp).evaluate(12)


# ---------------------------------------------------------------------- all

def run(rec, rng, tier, pid, graphs):
    tmp = tempfile.mkdtemp(prefix='qtune_matlab')
    gc.collect()
    gc.freeze()
    f = 1 if tier == 'quick' else 8
    try:
        if pid in ('', 'M01'):
            length = 6 if tier == 'quick' else 9
            bounds = [None] + list(range(-length - 2, length + 3))
            rec.guard('slices', slices, rec, rng, length, bounds, [None, 1, 2, 3, -1, -2, -3], pids='M01')
            for k in range(12 * f):
                rec.guard('tuples%d' % k, tuples, rec, rng, k, pids='M01')
                rec.guard('views%d' % k, views, rec, rng, k, pids='M01')
        if pid in ('', 'M02'):
            for g in graphs:
                if 'Gates' in g:
                    rec.guard('gates replay', replay_gates, rec, rng, g, tier, pids='M02')
            for k in range(40 * f):
                rec.guard('gates random%d' % k, random_gates, rec, rng, k, pids='M02')
                rec.guard('measure random%d' % k, random_measurements, rec, rng, k, pids='M02')
                rec.guard('convert%d' % k, random_conversions, rec, rng, k, pids='M02')
        if pid in ('', 'M03'):
            for g in graphs:
                if 'Sessions' in g:
                    rec.guard('sessions replay', replay_sessions, rec, rng, g, tier, tmp, pids='M03')
            for k in range(60 * f):
                rec.guard('sessions random%d' % k, random_sessions, rec, rng, k, tmp, pids='M03')
        if pid in ('', 'M04'):
            for k in range(120 * f):
                rec.guard('analyses%d' % k, random_analyses, rec, rng, k, tmp, pids='M04')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    driver_main(run)
