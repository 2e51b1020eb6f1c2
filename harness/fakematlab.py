"""A MATLAB that understands the few expressions qtune sends to it: assignments, fields, cells, indices, ranges, calls."""
import re
import os
import sys
import warnings

sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'))
import matlab.engine  # noqa: E402

Error = matlab.engine.MatlabExecutionError


class EngineError(Exception):
    """a second connection to the same session"""


class Struct(dict):
    pass


class StructArray(list):
    """1 x n array of structs"""


class Cell(list):
    """1 x n cell array"""


class Array:
    """numeric array: rows"""

    def __init__(self, rows):
        self.rows = [list(r) for r in rows]

    @property
    def size(self):
        return len(self.rows), len(self.rows[0]) if self.rows else 0

    def column_major(self):
        r, c = self.size
        return [self.rows[i][j] for j in range(c) for i in range(r)]

    def __getitem__(self, i):      # as seen from python
        return self.rows[i]

    def __len__(self):
        return len(self.rows)

    def __array__(self, dtype=None):
        import numpy as np
        return np.array(self.rows, dtype=dtype)


class Colon(list):
    """values of a range"""


TOKEN = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*)|('(?:[^']|'')*')|(.))")


def tokens(text):
    out, pos = [], 0
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        pos = m.end()
        if m.group(1):
            out.append(('num', float(m.group(1))))
        elif m.group(2):
            out.append(('id', m.group(2)))
        elif m.group(3):
            out.append(('str', m.group(3)[1:-1].replace("''", "'")))
        elif m.group(4).strip():
            out.append(('op', m.group(4)))
    return out


def numel(x):
    if isinstance(x, Array):
        return x.size[0] * x.size[1]
    if isinstance(x, (StructArray, Cell, list)):
        return len(x)
    return 1


class Session:
    """one MATLAB process: variables, functions and the search path"""

    def __init__(self, name, pid=1):
        self.name, self.pid = name, pid
        self.vars = {}
        self.functions = {}
        self.calls = []
        self.connections = 0       # made in total
        self.in_use = 0
        self.path = []             # folders with files of qtune that are found
        self.broken_path = False

    # ------------------------------------------------------------ expressions

    def parse_at(self, end):
        return Parser(self, end)

    def run(self, text, end=None):
        return Parser(self, end).statement(text)

    def subsref(self, x, s):
        kind, subs = s['type'], s['subs']
        if kind == '.':
            return self.field(x, subs)
        if kind == '()':
            return self.paren(x, subs)
        if kind == '{}':
            return self.brace(x, subs if isinstance(subs, Cell) else [subs])
        raise Error('subsref')

    def field(self, x, name):
        if isinstance(x, StructArray) and len(x) == 1:
            x = x[0]
        if not isinstance(x, Struct) or name not in x:
            raise Error('there is no field ' + str(name))
        return x[name]

    def linear(self, x, subs):
        """0-based positions selected by the subscripts"""
        n = numel(x)
        if len(subs) == 2:
            if subs[0] not in (1, 1., [1.], ':'):
                raise Error('only one row')
            subs = subs[1:]
        i = subs[0]
        if i == ':':
            return list(range(n))
        pos = [int(k) - 1 for k in (i if isinstance(i, list) else [i])]
        if any(k < 0 or k >= n for k in pos):
            raise Error('index out of range')
        return pos

    def paren(self, x, subs):
        pos = self.linear(x, list(subs))
        if isinstance(x, (StructArray, Cell)):
            return type(x)([x[k] for k in pos])
        if isinstance(x, Struct):
            return StructArray([x])
        flat = x.column_major() if isinstance(x, Array) else [x]
        got = [flat[k] for k in pos]
        return got[0] if len(got) == 1 else Array([got])

    def brace(self, x, subs):
        if not isinstance(x, Cell):
            raise Error('not a cell')
        if any(isinstance(s, str) and s != ':' for s in subs):
            raise Error('text is no index')
        got = [x[k] for k in self.linear(x, list(subs))]
        return got[0] if len(got) == 1 else CommaList(got)

    def call(self, name, args):
        if name in self.functions:
            self.calls.append((name, args))
            return self.functions[name](*args)
        f = getattr(self, 'f_' + name, None)
        if f is None:
            raise Error("undefined function or variable '%s'" % name)
        return f(*args)

    def f_struct(self, *args):
        n = {len(v) for v in args[1::2] if isinstance(v, Cell) and len(v) != 1}
        if n:
            k = n.pop()
            return StructArray([Struct((f, v[i] if isinstance(v, Cell) and len(v) != 1 else
                                        v[0] if isinstance(v, Cell) else v) for f, v in zip(args[::2], args[1::2]))
                                for i in range(k)])
        return Struct((f, v[0] if isinstance(v, Cell) else v) for f, v in zip(args[::2], args[1::2]))

    def f_subsref(self, x, s):
        return self.subsref(x, s)

    def f_subsasgn(self, x, s, v):
        if s['type'] != '.':
            raise Error('subsasgn')
        return Struct(x, **{s['subs']: v})

    def f_setfield(self, x, name, v):
        return Struct(x, **{name: v})

    def f_getfield(self, x, name):
        return self.field(x, name)

    def f_rmfield(self, x, name):
        return Struct((k, v) for k, v in x.items() if k != name)

    def f_isfield(self, x, name):
        return isinstance(x, Struct) and name in x

    def f_isstruct(self, x):
        return isinstance(x, (Struct, StructArray))

    def f_iscell(self, x):
        return isinstance(x, Cell)

    def f_istable(self, x):
        return False

    def f_isscalar(self, x):
        return numel(x) == 1

    def f_numel(self, x):
        return float(numel(x))

    def f_length(self, x):
        return float(numel(x))

    def f_size(self, x):
        return Array([list(map(float, x.size))]) if isinstance(x, Array) else Array([[1., float(numel(x))]])

    def f_fieldnames(self, x):
        return Cell((x[0] if isinstance(x, StructArray) else x).keys())

    def f_cell(self, r=0, c=0):
        return Cell([Array([]) for _ in range(int(r * c))])

    def f_disp(self, x):
        return None

    def f_clear(self, *names):
        for n in names:
            self.vars.pop(n, None)

    def f_functions(self, handle):
        return Struct(type='simple', file=handle.file, function=handle.name)

    def f_exist(self, name, what=None):
        if name in self.vars:
            return 1.
        if what in (None, 'file') and name in self.functions:
            return 2.
        return 0.

    def f_typecast(self, raw, kind):
        import struct
        raw = bytes(raw)
        code, size = {'double': ('d', 8), 'single': ('f', 4), 'int32': ('i', 4), 'uint32': ('I', 4), 'int64': ('q', 8),
                      'uint64': ('Q', 8), 'int16': ('h', 2), 'uint16': ('H', 2), 'int8': ('b', 1),
                      'uint8': ('B', 1), 'logical': ('?', 1)}[kind]
        if len(raw) % size:
            raise Error('typecast')
        return Array([list(struct.unpack('=%d%s' % (len(raw) // size, code), raw))])

    def f_reshape(self, x, *dims):
        if len(dims) == 1:
            dims = list(dims[0])
        r, c = map(int, dims)
        flat = x.column_major()
        if len(flat) != r * c:
            raise Error('the number of elements must not change')
        return Array([[flat[j * r + i] for j in range(c)] for i in range(r)])

    def f_transpose(self, x):
        r, c = x.size
        return Array([[x.rows[i][j] for i in range(r)] for j in range(c)])

    f_ctranspose = f_transpose

    def f_double(self, x):
        return x

    def f_feature(self, what):
        return float(self.pid)


class CommaList(list):
    pass


class Handle:
    def __init__(self, name, file):
        self.name, self.file = name, file


class Parser:
    def __init__(self, session, end=None):
        self.s, self.end = session, [end] if end is not None else []

    def statement(self, text):
        out = None
        for part in self.split(tokens(text)):
            out = self.single(part)
        return out

    @staticmethod
    def split(ts):
        parts, depth = [[]], 0
        for k, v in ts:
            if k == 'op' and v in '([{':
                depth += 1
            if k == 'op' and v in ')]}':
                depth -= 1
            if k == 'op' and v == ';' and not depth:
                parts.append([])
            else:
                parts[-1].append((k, v))
        return [p for p in parts if p]

    def single(self, ts):
        depth = 0
        for i, (k, v) in enumerate(ts):
            if k == 'op' and v in '([{':
                depth += 1
            elif k == 'op' and v in ')]}':
                depth -= 1
            elif k == 'op' and v == '=' and not depth and ts[i + 1:i + 2] != [('op', '=')]:
                self.start(ts[i + 1:])
                value = self.expr()
                self.done()
                self.assign(ts[:i], value)
                return None
        self.start(ts)
        value = self.expr()
        self.done()
        return value

    def start(self, ts):
        self.ts, self.i = ts, 0

    def done(self):
        if self.i != len(self.ts):
            raise SyntaxError(self.ts[self.i:])

    def peek(self, *ops):
        return self.i < len(self.ts) and self.ts[self.i][0] == 'op' and self.ts[self.i][1] in ops

    def take(self, op):
        if not self.peek(op):
            raise SyntaxError('%s expected, %s' % (op, self.ts[self.i:]))
        self.i += 1

    def expr(self):
        first = self.sum()
        if not self.peek(':'):
            return first
        parts = [first]
        while self.peek(':'):
            self.take(':')
            parts.append(self.sum())
        a, c, b = (parts[0], 1., parts[1]) if len(parts) == 2 else parts
        if c == 0:
            return Colon()
        return Colon(a + k * c for k in range(max(0, int((b - a) // c) + 1)))

    def sum(self):
        x = self.product()
        while self.peek('+', '-'):
            op = self.ts[self.i][1]
            self.i += 1
            y = self.product()
            x = x + y if op == '+' else x - y
        return x

    def product(self):
        x = self.unary()
        while self.peek('*'):
            self.take('*')
            x = x * self.unary()
        return x

    def unary(self):
        if self.peek('-'):
            self.take('-')
            return -self.unary()
        if self.peek('+'):
            self.take('+')
            return self.unary()
        return self.postfix()

    def items(self, close, of=None):
        """comma separated list; of: what end refers to"""
        out = []
        if of is not None:
            self.end.append(numel(of))
        while not self.peek(close):
            if self.peek(':') and self.ts[self.i + 1:self.i + 2] in ([('op', close)], [('op', ',')]):
                self.take(':')
                x = ':'
            else:
                x = self.expr()
            out.extend(x) if isinstance(x, CommaList) else out.append(x)
            if not self.peek(close):
                if self.peek(';'):
                    raise SyntaxError('rows')
                if self.peek(','):
                    self.take(',')
        self.take(close)
        if of is not None:
            self.end.pop()
        return out

    def postfix(self):
        k, v = self.ts[self.i]
        if k == 'num':
            self.i += 1
            return v
        if k == 'str':
            self.i += 1
            return v
        if k == 'op':
            if v == '(':
                self.take('(')
                x = self.expr()
                self.take(')')
                return x
            if v == '{':
                self.take('{')
                return Cell(self.items('}'))
            if v == '[':
                self.take('[')
                got = self.items(']')
                return Array([got] if got else [])
            if v == '@':
                self.i += 1
                name = self.dotted()
                f = self.s.functions.get(name)
                return Handle(name, 'file.m' if f else '')
            raise SyntaxError(v)
        if v == 'end':
            self.i += 1
            if not self.end:
                raise Error('end outside of an index')
            return float(self.end[-1])
        if v in ('true', 'false'):
            self.i += 1
            return v == 'true'
        if v not in self.s.vars:
            at = self.i
            name = self.dotted()
            if name not in self.s.functions and not hasattr(self.s, 'f_' + name):
                self.i = at
                raise Error("undefined function or variable '%s'" % name)
            args = []
            if self.peek('('):
                self.take('(')
                # end within the arguments of subsref refers to what is indexed
                first = None
                if name == 'subsref':
                    first = self.expr()
                    self.take(',')
                args = ([first] if name == 'subsref' else []) + self.items(')', first)
            return self.trailers(self.s.call(name, args))
        self.i += 1
        return self.trailers(self.s.vars[v])

    def dotted(self):
        parts = [self.ts[self.i][1]]
        self.i += 1
        while self.peek('.') and self.i + 1 < len(self.ts) and self.ts[self.i + 1][0] == 'id':
            parts.append(self.ts[self.i + 1][1])
            self.i += 2
        return '.'.join(parts)

    def trailers(self, x):
        while True:
            if self.peek('.'):
                self.take('.')
                if self.peek('('):
                    self.take('(')
                    x = self.s.field(x, self.expr())
                    self.take(')')
                else:
                    x = self.s.field(x, self.ts[self.i][1])
                    self.i += 1
            elif self.peek('{'):
                self.take('{')
                x = self.s.brace(x, self.items('}', x))
            elif self.peek('('):
                self.take('(')
                x = self.s.paren(x, self.items(')', x))
            else:
                return x

    # ------------------------------------------------------------ assignments

    def assign(self, ts, value):
        self.start(ts)
        name = self.ts[0][1]
        self.i = 1
        self.s.vars[name] = self.put(self.s.vars.get(name), value)

    def put(self, x, value):
        if self.i == len(self.ts):
            return value
        if self.peek('.'):
            self.take('.')
            if self.peek('('):
                self.take('(')
                f = self.expr()
                self.take(')')
            else:
                f = self.ts[self.i][1]
                self.i += 1
            x = Struct(x or {})
            x[f] = self.put(x.get(f), value)
            return x
        if self.peek('{'):
            self.take('{')
            x = Cell(x or [])
            k, = self.items('}', x)
            while len(x) < k:
                x.append(Array([]))
            x[int(k) - 1] = self.put(x[int(k) - 1], value)
            return x
        raise SyntaxError(self.ts[self.i:])


class Space:
    """engine.qtune, engine.util.py, ...: functions with a dotted name"""

    def __init__(self, engine, name):
        self._e, self._n = engine, name

    def __getattr__(self, part):
        if part.startswith('__'):
            raise AttributeError(part)
        return Space(self._e, self._n + '.' + part)

    def __call__(self, *args, stdout=None, stderr=None, nargout=1, **kw):
        return self._e._call(self._n, args)


class Workspace:
    def __init__(self, session):
        self._s = session

    def __getitem__(self, name):
        return self._s.vars[name]

    def __setitem__(self, name, value):
        self._s.vars[name] = to_engine(value)


def to_engine(x):
    """what the engine makes of an object of python"""
    import numpy as np
    if isinstance(x, (np.generic, np.ndarray)):
        raise TypeError('unsupported Python data type: %s' % type(x).__name__)
    if isinstance(x, dict):
        return Struct((k, to_engine(v)) for k, v in x.items())
    if isinstance(x, (list, tuple, set)) and not isinstance(x, (Cell, StructArray)):
        return Cell(to_engine(v) for v in x)
    if isinstance(x, (int, float, str, bool, bytes, bytearray, complex, Array, Struct, StructArray, Cell)) or x is None:
        return x
    raise TypeError('unsupported Python data type: %s' % type(x).__name__)


class Engine(matlab.engine.MatlabEngine):
    """a connection to a session; it ends when it is forgotten"""

    def __init__(self, session):
        self._session = session
        session.connections += 1
        session.in_use += 1

    def __del__(self):
        self._session.in_use -= 1

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name == 'workspace':
            return Workspace(self._session)
        return Space(self, name)

    def _call(self, name, args):
        s = self._session
        args = [to_engine(a) for a in args]
        if name in ('eval', 'util.py.my_eval'):
            return s.run(args[0])
        if name == 'evalc':
            s.run(args[0])
            return ''
        if name == 'matlab.engine.engineName':
            return s.name
        if name == 'qtune.find_qtune':
            if not s.path:
                raise Error('undefined')
            return s.path[0]
        if name == 'addpath':
            if not s.broken_path:
                s.path.insert(0, args[0])
            return None
        if name == 'util.py.get_from_workspace':
            if args[0] not in s.vars:
                raise Error('undefined')
            return s.vars[args[0]]
        return s.call(name, args)


class Matlabs:
    """all sessions on this computer; takes the place of matlab.engine"""

    def __init__(self, names=()):
        self.sessions = {n: Session(n, 100 + i) for i, n in enumerate(names)}
        self.started = []
        self.prepare = lambda s: None
        self.problems = []

    def install(self):
        matlab.engine.start_matlab = self.start_matlab
        matlab.engine.connect_matlab = self.connect_matlab
        return self

    def start_matlab(self, *args, **kw):
        s = Session('started%d' % len(self.started), 1000 + len(self.started))
        s.args = args
        self.started.append(s)
        self.prepare(s)
        return Engine(s)

    def connect_matlab(self, name=None, **kw):
        if name is None:
            free = [s for s in self.sessions.values() if not s.in_use]
            if not free:
                raise EngineError('there is no session')
            return Engine(free[0])
        if name not in self.sessions:
            raise EngineError('there is no session ' + str(name))
        if self.sessions[name].in_use:
            raise EngineError('already connected')
        return Engine(self.sessions[name])
