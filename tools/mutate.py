#!/usr/bin/env python3
"""Looks for blind spots: random mutants of /repo/orient in scratch copies.

    tools/mutate.py list                 number of mutants
    tools/mutate.py run OUT [START STEP LIMIT]

Every mutant is given to all properties, round robin, until one of them fails
or the CPU budget is over; survivors are written to OUT (JSON lines)."""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['contour', 'event', 'events_queue', 'multipolygon', 'multiregion',
         'multisegment', 'polygon', 'processing', 'region', 'segment',
         'sweep_line', 'utils', 'box', 'enums']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
RELATIONS = ['DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER', 'ENCLOSES',
             'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN']
NEAR = {'DISJOINT': ['TOUCH'], 'TOUCH': ['DISJOINT', 'CROSS'],
        'CROSS': ['TOUCH', 'OVERLAP'], 'OVERLAP': ['CROSS', 'COMPONENT'],
        'COVER': ['ENCLOSES'], 'ENCLOSES': ['COVER', 'COMPOSITE'],
        'COMPOSITE': ['ENCLOSES'], 'EQUAL': ['COMPONENT'],
        'COMPONENT': ['ENCLOSED', 'TOUCH'], 'ENCLOSED': ['WITHIN',
                                                         'COMPONENT'],
        'WITHIN': ['ENCLOSED'], 'BOUNDARY': ['INTERIOR'],
        'INTERIOR': ['BOUNDARY'], 'EXTERIOR': ['BOUNDARY'],
        'COLLINEAR': ['CLOCKWISE'], 'CLOCKWISE': ['COUNTERCLOCKWISE'],
        'COUNTERCLOCKWISE': ['CLOCKWISE'], 'start': ['end'], 'end': ['start'],
        'x': ['y'], 'y': ['x'], 'min_x': ['max_x'], 'max_x': ['min_x'],
        'min_y': ['max_y'], 'max_y': ['min_y'], 'from_left': [],
        'NONE': ['OVERLAP_SAME']}


def mutants_of(source):
    """Yields (line, description, new source)."""
    base = ast.parse(source)
    nodes = list(ast.walk(base))
    for i, node in enumerate(nodes):
        for what, change in changes(node):
            tree = ast.parse(source)
            target = list(ast.walk(tree))[i]
            try:
                if change(target, tree) is False:
                    continue
                text = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(text)
            except Exception:
                continue
            yield getattr(node, 'lineno', 0), what, text


def replace(tree, target, new):
    for n in ast.walk(tree):
        for name, value in ast.iter_fields(n):
            if value is target:
                setattr(n, name, new)
                return True
            if isinstance(value, list):
                for j, v in enumerate(value):
                    if v is target:
                        if isinstance(new, list):
                            value[j:j + 1] = new
                        else:
                            value[j] = new
                        return True
    return False


def changes(node):
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), ()):
            def f(t, tree, op=op):
                t.ops = [op()]
            yield '%s -> %s' % (type(node.ops[0]).__name__, op.__name__), f
    if isinstance(node, ast.BoolOp):
        def f(t, tree):
            t.op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
        yield 'and/or', f
        for j in range(len(node.values)):
            def f(t, tree, j=j):
                new = (t.values[:j] + t.values[j + 1:])
                return replace(tree, t, new[0] if len(new) == 1
                               else ast.BoolOp(t.op, new))
            yield 'drop operand %d' % j, f
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'drop not', lambda t, tree: replace(tree, t, t.operand)
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        def f(t, tree):
            t.test = ast.UnaryOp(ast.Not(), t.test)
        yield 'negate condition', f
        if not isinstance(node, ast.While):
            def f(t, tree):
                t.test = ast.Constant(True)
            yield 'condition True', f
            def f(t, tree):
                t.test = ast.Constant(False)
            yield 'condition False', f
    if isinstance(node, ast.Attribute) and node.attr in NEAR:
        for a in NEAR[node.attr]:
            def f(t, tree, a=a):
                t.attr = a
            yield '%s -> %s' % (node.attr, a), f
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        def f(t, tree):
            t.value = not t.value
        yield 'flip %s' % node.value, f
    elif isinstance(node, ast.Constant) and isinstance(node.value, int):
        for d in (1, -1):
            def f(t, tree, d=d):
                t.value += d
            yield '%s%+d' % (node.value, d), f
    if isinstance(node, ast.BinOp) and isinstance(
            node.op, (ast.Add, ast.Sub)):
        def f(t, tree):
            t.op = (ast.Sub() if isinstance(t.op, ast.Add) else ast.Add())
        yield '+/-', f
    if isinstance(node, ast.Call) and len(node.args) == 2 and not (
            node.keywords):
        def f(t, tree):
            t.args = t.args[::-1]
        yield 'swap arguments', f
    if isinstance(node, ast.Call) and len(node.args) >= 3:
        def f(t, tree):
            t.args[0], t.args[1] = t.args[1], t.args[0]
        yield 'swap first arguments', f
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
            node.func.id in ('min', 'max', 'any', 'all')):
        def f(t, tree):
            t.func.id = {'min': 'max', 'max': 'min', 'any': 'all',
                         'all': 'any'}[t.func.id]
        yield node.func.id, f
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
            isinstance(node, ast.Expr)
            and isinstance(node.value, ast.Constant)):
        yield 'drop statement', lambda t, tree: replace(tree, t, ast.Pass())
    if isinstance(node, (ast.Break, ast.Continue)):
        yield 'drop ' + type(node).__name__.lower(), (
            lambda t, tree: replace(tree, t, ast.Pass()))


def all_mutants():
    for name in FILES:
        path = 'orient/core/%s.py' % name
        with open(os.path.join(REPO, path)) as f:
            source = f.read()
        for k, (line, what, text) in enumerate(mutants_of(source)):
            yield '%s:%d#%d' % (name, line, k), what, path, text


RUN = r'''
import sys, json, random, time, signal, os
sys.path.insert(0, os.environ['VROOT'])
from vlib.props import PROPS
from vlib import runner
runner._setup_worker()
runner.CASE_CPU_LIMIT = 5.
budget = float(sys.argv[1])
skip = {'P23', 'P25'}
ids = [p for p in PROPS if p not in skip]
n, size = 0, 6
t0 = time.process_time()
while time.process_time() - t0 < budget:
    for id_ in ids:
        p = PROPS[id_]
        for i in range(size):
            r = random.Random('mut:%s:%s:%s' % (id_, n, i))
            c = p.gen(r)
            if c is None: continue
            f, label = runner.run_check(p, c)
            if f is not None and p.valid(c):
                print(json.dumps([id_, time.process_time() - t0]))
                sys.exit(1)
    n += 1
    size = min(size * 2, 200)
sys.exit(0)
'''


def run_one(job, budget):
    name, what, path, text = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree(os.path.join(REPO, 'orient'),
                        os.path.join(d, 'orient'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(d, path), 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', VROOT=ROOT)
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-c', RUN,
                                str(budget)], env=env, capture_output=True,
                               text=True, timeout=budget * 6 + 120)
        except subprocess.TimeoutExpired:
            return name, what, path, 'timeout'
        if p.returncode == 0:
            return name, what, path, 'survived'
        if p.returncode == 1 and p.stdout.startswith('['):
            return name, what, path, json.loads(p.stdout)
        return name, what, path, 'error ' + p.stderr[-200:]
    finally:
        shutil.rmtree(d)


def main(argv):
    if argv[0] == 'list':
        print(sum(1 for _ in all_mutants()))
        return
    out = argv[1]
    start, step, budget = ([int(a) for a in argv[2:5]] if len(argv) > 2
                           else (0, 1, 60))
    jobs = list(all_mutants())[start::step]
    with concurrent.futures.ThreadPoolExecutor(8) as ex, open(out,
                                                              'a') as f:
        for res in ex.map(lambda j: run_one(j, budget), jobs):
            f.write(json.dumps(res) + '\n')
            f.flush()


main(sys.argv[1:])
