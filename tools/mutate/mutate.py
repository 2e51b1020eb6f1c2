"""Random mutants of the modules that pass the stable tests: which do the checks not see?

python3 mutate.py OUT N SEED WORKERS MODULE...     (survivors and their patches are written to OUT)
Each mutant is judged by the whole driver of each family that can see its module and the trace specification."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..'))
import check                                                        # noqa: E402
from families import FAMILIES                                       # noqa: E402

SEEN_BY = dict(autotuner=['loop', 'store:H02', 'store:H03'], parameter_tuner=['subset', 'loop', 'store:H02'],
               solver=['solver', 'loop', 'store:H02'], gradient=['gradient', 'solver', 'store:H02'],
               kalman_gradient=['gradient', 'solver'], history=['history:Y02', 'history:Y04', 'history:Y03'],
               evaluator=['evaluator', 'history:Y04'], experiment=['simulated', 'evaluator'],
               basic_dqd=['simulated', 'evaluator'], util=['evaluator', 'gradient', 'solver', 'subset', 'history:Y02'],
               storage=['store'], gui=['gui'], mat2py=['matlab'], sm=['matlab'], sm_tune_qqd=['matlab'])
out, number, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
modules = sys.argv[5:] or list(SEEN_BY)
os.makedirs(out, exist_ok=True)
graphs = {}
lock = threading.Lock()


def graph(fam):
    with lock:
        if fam not in graphs:
            graphs[fam] = []
            for m in FAMILIES[fam]['models']:
                if m.get('dump'):
                    d = os.path.join(out, 'graphs')
                    os.makedirs(d, exist_ok=True)
                    graphs[fam].append(check.check_model(FAMILIES[fam], m, d, 'quick')[1])
    return graphs[fam]


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.And: ast.Or, ast.Or: ast.And,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.USub: ast.UAdd, ast.Pow: ast.Mult}


def logs(node):
    """messages are not judged"""
    return any(isinstance(n, ast.Attribute) and n.attr in ('logger', 'info', 'warning', 'error', 'debug', 'warn')
               for n in ast.walk(node)) or isinstance(getattr(node, 'value', None), ast.Constant)


def candidates(tree):
    skip, res = set(), []
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr, ast.Raise, ast.Import, ast.ImportFrom)) and (not isinstance(n, ast.Expr) or logs(n)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', 'logger', 'plot_raw_data_fit'):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)):
            for a in ([n.returns] if isinstance(n, ast.FunctionDef) else [n.annotation]):
                if a is not None:
                    skip |= {id(x) for x in ast.walk(a)}
    inside = {id(x) for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) for x in ast.walk(f)}
    i = -1
    for n in ast.walk(tree):
        i += 1
        if id(n) in skip or id(n) not in inside:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            res.append((i, 'compare'))
        elif isinstance(n, (ast.BoolOp, ast.BinOp)) and type(n.op) in SWAP:
            res.append((i, 'operator'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            res.append((i, 'unary'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
            res.append((i, 'constant'))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            res.append((i, 'remove'))
        elif isinstance(n, ast.If):
            res += [(i, 'always'), (i, 'never')]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            res += [(i, 'no copy')] * 2
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            res.append((i, 'slice'))
        elif isinstance(n, ast.keyword) and n.arg:
            res.append((i, 'keyword'))
    return res


class Mutate(ast.NodeTransformer):
    def __init__(self, target, kind):
        self.target, self.kind = target, kind

    def generic(self, n):
        return super().generic_visit(n)

    def visit(self, n):
        if n is not self.target:
            return self.generic(n)
        k = self.kind
        if k in ('compare',):
            n.ops = [SWAP[type(n.ops[0])]()]
        elif k == 'operator':
            n.op = SWAP[type(n.op)]()
        elif k == 'unary':
            return n.operand
        elif k == 'constant':
            return ast.Constant(not n.value if isinstance(n.value, bool) else n.value + 1)
        elif k == 'remove':
            return ast.Pass()
        elif k == 'always':
            n.test = ast.Constant(True)
        elif k == 'never':
            n.test = ast.Constant(False)
        elif k == 'no copy':
            return n.func.value
        elif k == 'slice':
            return n.value
        return n


def mutant(source, i, kind):
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    if kind == 'keyword':
        for n in nodes:
            if isinstance(n, ast.Call) and nodes[i] in n.keywords:
                n.keywords.remove(nodes[i])
    else:
        tree = Mutate(nodes[i], kind).visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)) + '\n', getattr(nodes[i], 'lineno', 0)


def judge(tree, what, scratch):
    """what is seen: '' if nothing"""
    fam, _, pid = what.partition(':')
    f = dict(FAMILIES[fam], timeout=240)
    os.environ['QTUNE_REPO'] = tree
    path = os.path.join(scratch, 'x.json')
    for p in (path, path + '.meta'):
        if os.path.exists(p):
            os.remove(p)
    meta, text, how = check.run_driver(f, path, 'quick', 1, pid, graph(fam), scratch)
    if how != 'ok':
        return how
    if meta['crashes']:
        return 'scenario ' + meta['crashes'][0]['error'][:80]
    viol, hits, r, ok = check.validate(f, path, scratch)
    if viol:
        return viol[0][2]
    return '' if ok else 'tlc'


def run(job):
    k, (module, i, kind) = job
    me = threading.current_thread().name.split('_')[-1]
    tree = os.path.join(out, 'tree' + me)
    scratch = os.path.join(out, 'scratch' + me)
    os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
    name = os.path.join(tree, 'qtune', module + '.py')
    original = open(os.path.join('/repo/qtune', module + '.py')).read()
    text, line = mutant(original, i, kind)
    plain = ast.unparse(ast.parse(original)) + '\n'
    if text == plain:
        return
    with open(name, 'w') as f:
        f.write(text)
    try:
        env = dict(os.environ, PYTHONPATH=tree, MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100', 'tests',
                            '--deselect', 'tests/test_gradient.py::FiniteDiffGradientTest::test_require_update_measurement',
                            '--deselect', 'tests/test_parameter_tuner.py::SubsetTunerTest::test_recovery'],
                           cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            seen = 'tests'
        else:
            seen = ''
            for what in SEEN_BY[module]:
                try:
                    seen = judge_in(tree, what, scratch)
                except Exception as e:
                    seen = 'error ' + repr(e)[:100]
                if seen:
                    break
        import difflib
        diff = ''.join(difflib.unified_diff(plain.splitlines(True), text.splitlines(True), n=2))
        with lock:
            print('%4d %-16s line %d %s: %s' % (k, module, line, kind, seen or 'SURVIVED'), flush=True)
            if not seen:
                with open(os.path.join(out, 'survivors'), 'a') as f:
                    f.write('==== %d %s line %d %s\n%s\n' % (k, module, line, kind, diff))
    finally:
        with open(name, 'w') as f:
            f.write(original)


def judge_in(tree, what, scratch):
    # the environment is shared by threads, so every judgement is a process of its own
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.argv=["m", %r, "0", "0", "1"]; sys.path.insert(0, %r); import mutate; '
                        'mutate.graphs.update(%r); print("SEEN " + mutate.judge(%r, %r, %r))' % (
                            out, os.path.dirname(os.path.abspath(__file__)), {what.split(':')[0]: graph(what.split(':')[0])},
                            tree, what, scratch)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    line = [x for x in p.stdout.splitlines() if x.startswith('SEEN ')]
    return line[0][5:] if line else 'error ' + p.stdout[-200:]


if __name__ == '__main__':
    rng = random.Random(seed)
    jobs = []
    for m in modules:
        source = open('/repo/qtune/%s.py' % m).read()
        c = candidates(ast.parse(source))
        rng.shuffle(c)
        jobs += [(m, i, kind) for i, kind in c[:number]]
    rng.shuffle(jobs)
    for w in range(workers):
        shutil.rmtree(os.path.join(out, 'tree%d' % w), ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', os.path.join(out, 'tree%d' % w)], check=True)
    with ThreadPoolExecutor(workers) as pool:
        for r in pool.map(run, enumerate(jobs)):
            pass
