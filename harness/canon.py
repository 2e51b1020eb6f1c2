"""Graphs and digests of objects that can be stored."""
import hashlib

from common import *
from qtune.storage import HDF5Serializable


def is_object(x):
    return isinstance(type(x), HDF5Serializable)


def exact(x):
    if isinstance(x, (bool, np.bool_)):
        return 'bool', str(bool(x))
    if isinstance(x, (int, np.integer)):
        return 'int', str(int(x))
    if isinstance(x, (float, np.floating)):
        return 'float', 'nan' if x != x else float(x).hex()
    if isinstance(x, (complex, np.complexfloating)):
        return 'complex', repr(complex(x))
    if isinstance(x, str):
        return 'str', str(x)
    if x is None:
        return 'None', ''
    return type(x).__name__, repr(x)


def values(arr):
    return ','.join(':'.join(exact(x)) for x in np.asarray(arr).ravel().tolist())


def labels(index):
    return ','.join(':'.join(exact(x)) for x in list(index))


class Graph:
    """nodes [kind, val, kids] as demanded by Store.tla"""

    def __init__(self, root, reserved=()):
        self.nodes, self.ids, self.keep = [], {}, []
        self.reserved = {id(v): k for k, v in dict(reserved).items()}
        self.add(root, True)

    def new(self, kind, val='', obj=None):
        self.nodes.append(dict(kind=kind, val=val, kids=[]))
        n = len(self.nodes)
        if obj is not None:
            self.ids[id(obj)] = n
            self.keep.append(obj)
        return n

    def add(self, x, strict):
        """strict: identity of data and containers counts, too (not inside of objects of the library, which may copy)"""
        if id(x) in self.reserved:
            n = self.ids.get(id(x))
            return n or self.new('reserved', self.reserved[id(x)], x)
        if is_object(x):
            if id(x) in self.ids:
                return self.ids[id(x)]
            n = self.new('object ' + type(x).__name__, '', x)
            content = x.to_hdf5()
            self.keep.append(content)
            inner = strict and type(x).__name__ in ('Holder', 'Other')
            kids = [(k, content[k], inner) for k in sorted(content) if k not in UNSAVED]
        elif isinstance(x, dict):
            if strict and id(x) in self.ids:
                return self.ids[id(x)]
            n = self.new('dict', '', x if strict else None)
            kids = [(k, x[k], strict) for k in sorted(x)]
        elif isinstance(x, (list, tuple)):
            if strict and id(x) in self.ids and len(x):
                return self.ids[id(x)]
            n = self.new('list' if isinstance(x, list) else 'tuple', '', x if strict and len(x) else None)
            kids = [(str(i), y, strict) for i, y in enumerate(x)]
        elif isinstance(x, pd.DataFrame):
            if strict and id(x) in self.ids:
                return self.ids[id(x)]
            return self.new('DataFrame', labels(x.index) + '|' + labels(x.columns) + '|' + values(x.values),
                            x if strict else None)
        elif isinstance(x, pd.Series):
            if strict and id(x) in self.ids:
                return self.ids[id(x)]
            return self.new('Series', labels(x.index) + '|' + values(x.values), x if strict else None)
        elif isinstance(x, np.ndarray):
            if x.shape == ():
                return self.new(*exact(x[()]))
            return self.new('array', str(x.shape) + x.dtype.kind + values(x))
        else:
            return self.new(*exact(x))
        for k, y, s in kids:
            self.nodes[n - 1]['kids'].append(dict(l=k, n=self.add(y, s)))
        return n


def _num(x):
    k, v = exact(x)
    if k in ('float', 'int', 'bool'):
        x = float(x)
        # rounding that is not sensitive to the last bits
        return 'nan' if x != x else '%.10g' % (x * 1.0000317123 + 1.234567891e-5)
    return v


# a reloaded autotuner stores its states in a new directory
UNSAVED = ('hdf5_storage_path',)


def canonical(x, seen=None, reserved=(), drop=UNSAVED):
    """text of the content of x; the same for equal content"""
    seen = {} if seen is None else seen
    for k, v in dict(reserved).items():
        if v is x:
            return '<%s>' % k
    if is_object(x):
        if id(x) in seen:
            return '#%d' % seen[id(x)][0]
        seen[id(x)] = (len(seen), x)
        content = x.to_hdf5()
        seen[id(content)] = (len(seen), content)
        return type(x).__name__ + '{' + ';'.join(
            k + '=' + canonical(content[k], seen, reserved, drop) for k in sorted(content) if k not in drop) + '}'
    if isinstance(x, dict):
        return '{' + ';'.join(str(k) + '=' + canonical(x[k], seen, reserved, drop) for k in sorted(x)) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ';'.join(canonical(y, seen, reserved, drop) for y in x) + ']'
    if isinstance(x, pd.DataFrame):
        return 'D(' + labels(x.index) + '|' + labels(x.columns) + '|' + ','.join(_num(v) for v in x.values.ravel()) + ')'
    if isinstance(x, pd.Series):
        return 'S(' + labels(x.index) + '|' + ','.join(_num(v) for v in x.values) + ')'
    if isinstance(x, np.ndarray) and x.shape != ():
        return '[' + ';'.join(canonical(y, seen, reserved, drop) for y in x) + ']'
    if isinstance(x, np.ndarray):
        x = x[()]
    return _num(x)


def digest(x, reserved=(), drop=()):
    return hashlib.sha1(canonical(x, None, reserved, UNSAVED + tuple(drop)).encode()).hexdigest()[:16]
