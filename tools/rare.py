#!/usr/bin/env python3
"""How many generated cases reach every line of orient/core:
    tools/rare.py CASES P01 P02 ...   (lines reached by few cases of all)"""
import ast
import collections
import multiprocessing
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']
import vlib.props as props  # noqa


def work(args):
    pid, start, count = args
    p = props.PROPS[pid]
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'rare')
    hit = set()

    def line(code, number):
        if '/orient/core/' in code.co_filename:
            hit.add((os.path.basename(code.co_filename), number))
        else:
            return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, line)
    total = collections.Counter()
    for i in range(start, start + count):
        case = p.gen(random.Random('rare:%s:%s' % (pid, i)))
        if case is None:
            continue
        hit.clear()
        mon.set_events(tool, mon.events.LINE)
        p.check(case)
        mon.set_events(tool, 0)
        total.update(hit)
    mon.free_tool_id(tool)
    return pid, total


if __name__ == '__main__':
    n = int(sys.argv[1])
    ids = sys.argv[2:] or ['P%02d' % i for i in range(1, 16)]
    chunk = max(n // 16, 1)
    jobs = [(p, s, chunk) for p in ids for s in range(0, n, chunk)]
    by = collections.defaultdict(collections.Counter)
    with multiprocessing.Pool(8) as pool:
        for pid, total in pool.imap_unordered(work, jobs):
            by[pid] += total
    for name in sorted(os.listdir('/repo/orient/core')):
        if not name.endswith('.py'):
            continue
        src = open('/repo/orient/core/' + name).read()
        lines = src.splitlines()
        stmts = set()
        for f in ast.walk(ast.parse(src)):
            if isinstance(f, ast.FunctionDef):
                for s in ast.walk(f):
                    if isinstance(s, (ast.stmt, ast.expr)) and s is not f:
                        stmts.add(s.lineno)
        reached = set()
        for pid in by:
            reached |= {ln for (fn, ln) in by[pid] if fn == name}
        for ln in sorted(reached):
            best = max(by[pid][name, ln] for pid in by)
            if best < n / 300:
                print('%s:%d %s  %s' % (name, ln, {
                    pid: by[pid][name, ln] for pid in by
                    if by[pid][name, ln]}, lines[ln - 1].strip()))
        for f in ast.walk(ast.parse(src)):
            if isinstance(f, (ast.Return, ast.Assign, ast.Expr)):
                if f.lineno not in reached and any(
                        isinstance(g, ast.FunctionDef)
                        and g.lineno < f.lineno <= g.end_lineno
                        for g in ast.walk(ast.parse(src))):
                    print('%s:%d NEVER %s' % (name, f.lineno,
                                              lines[f.lineno - 1].strip()))
