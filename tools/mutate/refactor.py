"""Behaviour preserving edits of all modules of a copy of the repository: python3 refactor.py COPY SEED

Every statement may be rewritten: results in temporaries, conditions negated with exchanged branches, comparisons turned
around, augmented assignments of names spelled out, comprehensions over named sequences; private methods and attributes
are renamed, docstrings are dropped.  The checks have to stay quiet on the result."""
import ast
import glob
import os
import random
import re
import subprocess
import sys

root, seed = sys.argv[1], int(sys.argv[2])
rng = random.Random(seed)
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def simple(n):
    """evaluating this has no effect and does not depend on the order"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Load, ast.UnaryOp, ast.USub)) for x in ast.walk(n))


class Edit(ast.NodeTransformer):
    n = 0
    counts = {}

    def did(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP and simple(node.left) and simple(node.comparators[0]) and \
                rng.random() < .5:
            self.did('flip')
            return ast.Compare(node.comparators[0], [FLIP[type(node.ops[0])]()], [node.left])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)) and rng.random() < .6:
            self.did('branches')
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        if not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and \
                len(node.test.values) == 2 and rng.random() < .5:
            self.did('nested')
            return ast.If(node.test.values[0], [ast.If(node.test.values[1], node.body, [])], [])
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and not simple(node.value) and rng.random() < .6:
            self.n += 1
            self.did('return')
            name = 'outcome_%d' % self.n
            return [ast.Assign([ast.Name(name, ast.Store())], node.value), ast.Return(ast.Name(name, ast.Load()))]
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and simple(v.func) and len(v.args) == 1 and \
                not v.keywords and not isinstance(v.args[0], ast.Starred) and not simple(v.args[0]) and rng.random() < .6:
            self.n += 1
            self.did('argument')
            name = 'argument_%d' % self.n
            return [ast.Assign([ast.Name(name, ast.Store())], v.args[0]),
                    ast.Expr(ast.Call(v.func, [ast.Name(name, ast.Load())], []))]
        return node

    def visit_AugAssign(self, node):
        # only for numbers is this the same
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if rng.random() < .5:
            self.n += 1
            self.did('loop')
            name = 'sequence_%d' % self.n
            return [ast.Assign([ast.Name(name, ast.Store())], node.iter),
                    ast.For(node.target, ast.Name(name, ast.Load()), node.body, node.orelse)]
        return node


files = sorted(glob.glob(os.path.join(root, 'qtune', '*.py')))
text = {f: open(f).read() for f in files}
tests = '\n'.join(open(f).read() for f in glob.glob(os.path.join(root, 'tests', '**', '*.py'), recursive=True))
private = set()
for f, t in text.items():
    for n in ast.walk(ast.parse(t)):
        if isinstance(n, ast.FunctionDef) and re.match('_[a-z]', n.name):
            private.add(n.name)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and re.match('_[a-z]', n.attr) \
                and isinstance(n.ctx, ast.Store):
            private.add(n.attr)
strings = '\n'.join(n.value for t in text.values() for n in ast.walk(ast.parse(t))
                    if isinstance(n, ast.Constant) and isinstance(n.value, str))
private = {p for p in private if not re.search(r'\b%s\b' % p, tests) and not re.search(r'\b%s\b' % p, strings)}
# functions of modules and attributes of classes have to keep their names, those subclasses of users set, too
keep = {n.id for t in text.values() for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Name)} | {'_asdict', '_fields', '_raw_x_data', '_raw_y_data'}
renamed = {p: p + '_' if rng.random() < .9 else p for p in sorted(private - keep)}
for f, t in text.items():
    tree = ast.parse(t)
    e = Edit()
    e.visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr in renamed:
            n.attr = renamed[n.attr]
        if isinstance(n, ast.FunctionDef) and n.name in renamed:
            n.name = renamed[n.name]
    ast.fix_missing_locations(tree)
    open(f, 'w').write(ast.unparse(tree) + '\n')
print(Edit.counts, len(renamed), 'renamed')
