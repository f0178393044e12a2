"""Properties about histories, contexts, kinds of numbers and cost."""
from __future__ import annotations

import collections
import gc
import json
import os
import random
import signal
import sys
import threading
import tracemalloc
from fractions import Fraction

from ground.base import Context, Mode, get_context, set_context

from . import adapter, gen, geom
from .adapter import FUNCTIONS, Builder, Hang, call_built
from .geom import AREAL, LINEAR
from .meta import Pairwise, fail
from .props import (MEET, PAIRS, POINT_PAIRS, Prop, ask, fits_float, name_of,
                    pick_num, register, truth)


# contexts -------------------------------------------------------------------

class Tapped(Context):
    """Context which reports every use of its functions."""

    def __init__(self, tap, **kwargs):
        super().__init__(**kwargs)
        self.tap = tap

    def __getattribute__(self, name):
        value = super().__getattribute__(name)
        if (name.startswith('_') or name in ('tap', 'replace')
                or isinstance(value, type) or not callable(value)):
            return value
        tap = super().__getattribute__('tap')

        def tapped(*args, **kwargs):
            tap(name)
            return value(*args, **kwargs)
        return tapped


class Fault(Exception):
    pass


class Poisoned(Exception):
    pass


def failing_context(n):
    left = [n]

    def tap(name):
        left[0] -= 1
        if left[0] < 0:
            raise Fault(name)
    return Tapped(tap)


class PoisonedContext(Context):
    """Context of which nothing may be asked."""

    def __getattribute__(self, name):
        if name.startswith('_'):
            return super().__getattribute__(name)
        raise Poisoned(name)


class FalsyContext(Context):
    """As good as any other context."""

    def __bool__(self):
        return False


class Trap:
    """Counts down readings of coordinates, the last one fails."""
    left = None
    error = None

    @classmethod
    def step(cls):
        if cls.left is not None:
            cls.left -= 1
            if cls.left < 0:
                # once
                cls.left = None
                raise cls.error or Fault('coordinate')


class MyPoint:
    """Minimal own implementation of points."""

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, other):
        return (self.x == other.x and self.y == other.y
                if isinstance(other, MyPoint) else NotImplemented)

    def __hash__(self):
        return hash((self.x, self.y))

    def __lt__(self, other):
        return ((self.x, self.y) < (other.x, other.y)
                if isinstance(other, MyPoint) else NotImplemented)

    def __le__(self, other):
        return ((self.x, self.y) <= (other.x, other.y)
                if isinstance(other, MyPoint) else NotImplemented)

    def __gt__(self, other):
        return ((self.x, self.y) > (other.x, other.y)
                if isinstance(other, MyPoint) else NotImplemented)

    def __ge__(self, other):
        return ((self.x, self.y) >= (other.x, other.y)
                if isinstance(other, MyPoint) else NotImplemented)


class TrapPoint(MyPoint):
    """Reading of a coordinate may fail."""

    def __init__(self, x, y):
        self._x, self._y = x, y

    @property
    def x(self):
        Trap.step()
        return self._x

    @property
    def y(self):
        Trap.step()
        return self._y


class MySegment:
    def __init__(self, start, end):
        self.start, self.end = start, end

    def __eq__(self, other):
        return ({self.start, self.end} == {other.start, other.end}
                if isinstance(other, MySegment) else NotImplemented)

    def __hash__(self):
        return hash(frozenset((self.start, self.end)))


class Compared:
    """Equality by content, as of the classes of the default context."""

    def __eq__(self, other):
        return (list(map(self.canonic, vars(self).values()))
                == list(map(self.canonic, vars(other).values()))
                if type(other) is type(self) else NotImplemented)

    def __hash__(self):
        return hash(type(self).__name__)

    @staticmethod
    def canonic(value):
        return list(value) if isinstance(value, (list, tuple)) else value


class MyMultisegment(Compared):
    def __init__(self, segments):
        self.segments = segments


class MyContour(Compared):
    def __init__(self, vertices):
        self.vertices = vertices


class MyPolygon(Compared):
    def __init__(self, border, holes):
        self.border, self.holes = border, holes


class MyMultipolygon(Compared):
    def __init__(self, polygons):
        self.polygons = polygons


class MyBox(Compared):
    def __init__(self, min_x, max_x, min_y, max_y):
        self.min_x, self.max_x = min_x, max_x
        self.min_y, self.max_y = min_y, max_y


OWN = dict(point_cls=MyPoint, segment_cls=MySegment,
           multisegment_cls=MyMultisegment, contour_cls=MyContour,
           polygon_cls=MyPolygon, multipolygon_cls=MyMultipolygon,
           box_cls=MyBox)


TRAP = dict(OWN, point_cls=TrapPoint)


def build_and_call(k1, g1, k2, g2, num, build, context=None, seq=list):
    b = Builder(num, build, seq)
    return call_built(k1, b.build(k1, g1), k2, b.build(k2, g2), context)


@register
class P24(Pairwise):
    id = 'P24'
    cases = {'quick': 24000, 'thorough': 600000}
    title = 'contexts and kinds of numbers'
    rule = (MEET + 'every case is asked with the default context, the same '
            'one passed explicitly while the current one is unusable, a '
            'context with own classes (passed, then set as current), '
            'sequences of other types, and coordinates as int, Fraction, '
            'float or mixed, of ordinary and of rounded to float values; '
            'non-trivial when bounding boxes of arguments meet')

    def gen(self, r):
        k1, k2 = self.pick(r)
        if r.random() < .4:
            c = gen.raw_case(r, k1, k2)
            if c is None:
                return None
            m, t = r.choice(gen.MATRICES), (0, 0)
            pairs, den = gen.rounded(r, [
                (k, gen.map_points(k, g, lambda p: gen.apply_matrix(m, t, p)))
                for k, g in zip((k1, k2), c)])
            if not all(geom.valid(k, g) for k, g in pairs):
                return None
            return {'k': [k1, k2], 'g': [g for _, g in pairs], 'den': den,
                    'aux': r.randrange(10 ** 9)}
        c = gen.case(r, k1, k2)
        if c is None:
            return None
        den = r.choice((1, 1, 2, 3, 8, 10, 2 ** 20, 10 ** 12))
        return {'k': [k1, k2], 'g': list(c), 'den': den,
                'aux': r.randrange(10 ** 9)}

    def check(self, case):
        (k1, k2), (g1, g2), den = case['k'], case['g'], case['den']
        name = name_of(k1, k2)
        base = ask(k1, g1, k2, g2)
        label = '%s %s' % (name, base)
        if base.startswith('!'):
            return fail(name, 'an answer', base), label
        r = random.Random(case['aux'])
        default = get_context()
        own = (Context if r.random() < .7 else FalsyContext)(**OWN)
        floats = all(Fraction(v / den) == Fraction(v, den)
                     for k, g in ((k1, g1), (k2, g2))
                     for p in gen.points_of(k, g) for v in p)
        nums = [('frac', den), ('mixed', den)]
        if floats:
            nums.append(('float', den))
        num = r.choice(nums)
        try:
            for what, f in (
                    ('kind of numbers %s' % (num,), lambda: build_and_call(
                        k1, g1, k2, g2, num, default)),
                    ('explicit context', lambda: self.explicit(
                        k1, g1, k2, g2, num, default)),
                    ('context with own classes', lambda: self.explicit(
                        k1, g1, k2, g2, num, own)),
                    ('current context with own classes',
                     lambda: self.current(k1, g1, k2, g2, num, own)),
                    ('tuples', lambda: build_and_call(
                        k1, g1, k2, g2, num, default, None, tuple)),
                    ('plain mode', lambda: self.explicit(
                        k1, g1, k2, g2, ('frac', den),
                        default.replace(mode=Mode.PLAIN)))):
                if r.random() < .35:
                    continue
                got = f()
                if got != base:
                    return fail('%s: %s' % (name, what), base, got), label
        finally:
            set_context(default)
        return None, label

    @staticmethod
    def explicit(k1, g1, k2, g2, num, context):
        """The current context must not be consulted if one is given."""
        current = get_context()
        set_context(PoisonedContext())
        try:
            return build_and_call(k1, g1, k2, g2, num, context, context)
        finally:
            set_context(current)

    @staticmethod
    def current(k1, g1, k2, g2, num, context):
        current = get_context()
        set_context(context)
        try:
            return build_and_call(k1, g1, k2, g2, num, context)
        finally:
            set_context(current)


# histories ------------------------------------------------------------------

def in_child(f, *args):
    """Result of a function run in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_VIRTUAL, 20.)
            try:
                res = f(*args)
            except Hang:
                res = {'hang': True}
            with os.fdopen(wr, 'w') as w:
                json.dump(res, w)
            code = 0
        except BrokenPipeError:  # the parent is gone
            pass
        except BaseException:  # noqa
            try:
                import traceback
                traceback.print_exc()
            except BaseException:  # noqa
                pass
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f_:
        data = f_.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child died')
    return json.loads(data)


def snapshot(kind, x):
    """Values, types of numbers and identities of everything mutable."""
    def point(p):
        return (id(p), type(p.x).__name__, p.x, type(p.y).__name__, p.y)

    def segment(s):
        return (id(s), point(s.start), point(s.end))

    def contour(c):
        return (id(c), id(c.vertices), tuple(map(point, c.vertices)))

    def polygon(p):
        return (id(p), contour(p.border), id(p.holes),
                tuple(map(contour, p.holes)))
    if kind == 'point':
        return point(x)
    if kind == 'segment':
        return segment(x)
    if kind == 'multisegment':
        return (id(x.segments), tuple(map(segment, x.segments)))
    if kind in ('contour', 'region'):
        return contour(x)
    if kind == 'multiregion':
        return (id(x), tuple(map(contour, x)))
    if kind == 'polygon':
        return polygon(x)
    return (id(x.polygons), tuple(map(polygon, x.polygons)))


def pristine(ks, gs, i, j):
    b = Builder()
    return call_built(ks[i], b.build(ks[i], gs[i]),
                      ks[j], b.build(ks[j], gs[j]))


def history(ks, gs, ops):
    """Runs operations one after another on shared objects; returns a list of
    [number of the operation, content of left, content of right, answer] and
    the description of an unexpected side effect."""
    b = Builder()
    default = get_context()
    objs = [b.build(k, g) for k, g in zip(ks, gs)]
    content = list(range(len(ks)))
    out = []
    threading.stack_size(4 << 20)
    for n, op in enumerate(ops):
        snaps = [snapshot(k, o) for k, o in zip(ks, objs)]
        if op[0] == 'call':
            _, i, j = op
            out.append([n, content[i], content[j],
                        call_built(ks[i], objs[i], ks[j], objs[j])])
        elif op[0] == 'context':
            _, i, j = op
            out.append([n, content[i], content[j],
                        call_built(ks[i], objs[i], ks[j], objs[j],
                                   default)])
        elif op[0] == 'fault':
            _, i, j, m = op
            res = call_built(ks[i], objs[i], ks[j], objs[j],
                             failing_context(m))
            if not res.startswith('!Fault'):
                out.append([n, content[i], content[j], res])
        elif op[0] == 'fresh':
            # short-living objects
            _, i, j = op
            out.append([n, i, j, call_built(ks[i], b.build(ks[i], gs[i]),
                                            ks[j], b.build(ks[j], gs[j]))])
        elif op[0] == 'trap':
            _, i, j, m = op
            c = Context(**TRAP)
            tb = Builder(context=c)
            x, y = tb.build(ks[i], gs[i]), tb.build(ks[j], gs[j])
            Trap.left = m
            res = call_built(ks[i], x, ks[j], y, c)
            Trap.left = None
            if not res.startswith('!Fault'):
                out.append([n, i, j, res])
        elif op[0] == 'nested':
            # another call while the context is in use by a call
            _, i, j, m, i2, j2 = op
            uses = [0]

            def tap(_):
                uses[0] += 1
                if uses[0] % m == 0 and uses[0] < 9 * m:
                    out.append([n, content[i2], content[j2],
                                call_built(ks[i2], objs[i2], ks[j2],
                                           objs[j2])])
            out.append([n, content[i], content[j],
                        call_built(ks[i], objs[i], ks[j], objs[j],
                                   Tapped(tap))])
        elif op[0] == 'bad':
            # invalid argument; whatever happens, nothing may remain of it
            _, i, j = op
            p, q = gen.points_of(ks[i], gs[i])[:2]
            call_built('multisegment', b.build('multisegment', [
                [p, q], [q, p], [p, (q[0] * 2 - p[0], q[1] * 2 - p[1])]]),
                       ks[j], objs[j])
        elif op[0] == 'assign':
            # the same list, other content
            _, i, m = op
            objs[i][:] = b.build(ks[m], gs[m])
            content[i] = m
            continue
        elif op[0] == 'threads':
            old = sys.getswitchinterval()
            sys.setswitchinterval(op[2] if len(op) > 2 else 1e-5)
            lists = op[1]
            context = adapter.FAST if len(op) > 3 and op[3] else None
            results = [[] for _ in lists]
            barrier = threading.Barrier(len(lists))

            def work(calls, res):
                barrier.wait()
                for i, j in calls:
                    res.append([n, content[i], content[j],
                                call_built(ks[i], objs[i], ks[j], objs[j],
                                           context)])
            ts = [threading.Thread(target=work, args=(c, res))
                  for c, res in zip(lists, results)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
            for calls, res in zip(lists, results):
                if len(res) != len(calls):
                    return {'out': out, 'effect': 'thread died'}
                out += res
        if get_context() is not default:
            return {'out': out, 'effect': 'current context changed'}
        for k, o, s in zip(ks, objs, snaps):
            if snapshot(k, o) != s:
                return {'out': out,
                        'effect': '%s was changed by operation %d %s' % (
                            k, n, op)}
    return {'out': out, 'effect': None}


@register
class P23(Prop):
    id = 'P23'
    title = 'answers do not depend on history'
    cases = {'quick': 3600, 'thorough': 90000}
    chunk = 10
    cpu_limit = 200.
    rule = ('pools of related geometries and random histories of calls on '
            'shared objects (direct ones, with explicit context, failing in '
            'the middle, concurrent in threads, made by the context in the '
            'middle of another call, lists of regions refilled between '
            'calls); every answer is compared with the one of a '
            'pristine process for fresh objects, arguments and the current '
            'context are compared before and after each operation; a case '
            'is non-trivial when its history has two or more distinct '
            'answers')

    @staticmethod
    def crowd(r):
        """Many calls of a single function at once."""
        # functions of segments have code of their own
        k1, k2 = r.choice(PAIRS if r.random() < .7 else
                          [p for p in PAIRS if p[0] == 'segment'])
        ks, gs = [], []
        for _ in range(r.randrange(3, 12)):
            c = gen.raw_case(r, k1, k2)
            if c is not None:
                ks += [k1, k2]
                gs += c
        if len(ks) < 4:
            return None
        pairs = [[i, i + 1] for i in range(0, len(ks), 2)]
        n = 200 if k1 == 'segment' and k2 not in AREAL else 50
        ops = [['threads', [[r.choice(pairs)
                             for _ in range(r.randrange(n // 5, n))]
                            for _ in range(r.choice((2, 2, 3, 4)))],
                r.choice((1e-5, 1e-4, 1e-4)), r.random() < .8]]
        return {'k': ks, 'g': gs, 'ops': ops}

    def gen(self, r):
        if r.random() < .4:
            return self.crowd(r)
        ks, gs = [], []
        focus = r.choice((None, None, 'multiregion', 'polygon',
                          'multipolygon', 'multisegment'))
        same = r.choice(PAIRS) if r.random() < .5 else None
        for _ in range(r.randrange(2, 5)):
            while True:
                k1, k2 = same or r.choice(PAIRS + POINT_PAIRS)
                if same or focus in (None, k1, k2):
                    break
            c = gen.raw_case(r, k1, k2)
            if c is not None:
                ks += [k1, k2]
                gs += c
        if len(ks) < 4:
            return None
        for _ in range(r.choice((0, 1, 2))):
            # equal but distinct objects
            i = r.randrange(len(ks))
            ks.append(ks[i])
            gs.append(gen.scramble(r, ks[i], gs[i]))
        pairs = [(i, j) for i in range(len(ks)) for j in range(len(ks))
                 if (ks[i], ks[j]) in FUNCTIONS]
        few = r.sample(pairs, min(len(pairs), r.randrange(2, 8)))
        near = [(i, j) for i, j in pairs if j == i + 1 and not i % 2]
        few += r.sample(near, min(len(near), 2))
        lists = [i for i, k in enumerate(ks) if k == 'multiregion']
        bad = [j for j, k in enumerate(ks) if ('multisegment', k) in FUNCTIONS]
        ops = []
        for _ in range(r.randrange(5, 30)):
            t = r.random()
            i, j = r.choice(few)
            if t < .4:
                ops.append(['call', i, j])
            elif t < .5:
                ops.append(['fresh', i, j])
            elif t < .56:
                ops.append(['context', i, j])
            elif t < .66:
                ops.append(['fault', i, j, r.choice((
                    0, 1, 2, 3, 5, 8, 13, 20, 30, 50, 80, 150))])
            elif t < .7:
                ops.append(['nested', i, j, r.choice((1, 2, 3, 5, 9, 20, 40)),
                            *r.choice(few)])
            elif t < .76:
                ops.append(['trap', i, j, r.choice((
                    0, 3, 9, 20, 40, 80, 120, 200, 300, 500, 1000))])
            elif t < .79 and bad:
                ops.append(['bad', r.choice([i for i, k in enumerate(ks)
                                             if k != 'point']),
                            r.choice(bad)])
            elif t < .87 and len(lists) > 1:
                a, m = r.choice(lists), r.choice(lists)
                ops.append(['assign', a, m])
                ops.append(['call', *r.choice([p for p in pairs if a in p])])
            elif t < .92:
                ops.append(['threads', [[list(r.choice(few))
                                         for _ in range(r.randrange(2, 8))]
                                        for _ in range(r.choice((2, 3, 4)))]])
            else:
                ops.append(['call', j, i] if (j, i) in pairs
                           else ['call', i, j])
        if r.random() < .3:
            # the same few calls at once again and again
            hot = r.sample(few, min(len(few), 3))
            ops.append(['threads', [[list(r.choice(hot))
                                     for _ in range(r.randrange(10, 40))]
                                    for _ in range(r.choice((2, 3, 4)))],
                        r.choice((1e-5, 1e-5, 1e-4)), r.random() < .7])
        return {'k': ks, 'g': gs, 'ops': ops}

    def valid(self, case):
        return Prop.valid(self, case)

    def check(self, case):
        ks, gs, ops = case['k'], case['g'], case['ops']
        h = in_child(history, ks, gs, ops)
        if 'hang' in h:
            return fail('history', 'answers', 'no answer'), 'hang'
        expected, answers = {}, set()
        r = random.Random(len(h['out']))
        for n, i, j, got in h['out']:
            if (i, j) not in expected:
                expected[i, j] = truth(ks[i], gs[i], ks[j], gs[j])
                if r.random() < .05:
                    expected[i, j] = self.fresh(ks, gs, i, j)
            if got != expected[i, j]:
                # the model is only a quick hint
                expected[i, j] = self.fresh(ks, gs, i, j)
            answers.add(expected[i, j])
            if got != expected[i, j]:
                return fail('operation %d %s (%s)' % (
                    n, ops[n], name_of(ks[i], ks[j])), expected[i, j],
                    got), 'history'
        if h['effect'] is not None:
            return fail('side effect', 'none', h['effect']), 'history'
        return None, 'history of %d calls, %s answers' % (
            len(h['out']) // 5 * 5,
            'several' if len(answers) > 1 else 'one')

    @staticmethod
    def fresh(ks, gs, i, j):
        res = in_child(pristine, ks, gs, i, j)
        return res if isinstance(res, str) else '!Hang'

    def nontrivial(self, case, label):
        return label.endswith('several answers')


# cost -----------------------------------------------------------------------

# built-in functions and methods which walk along their first argument
SIZED = {list, tuple, dict, set, frozenset, collections.deque, range}
WALKING = {id(f) for f in (sorted, min, max, sum, any, all, list, tuple, set,
                           frozenset, dict)}
WALKING_METHODS = {'index', 'count', 'remove', 'insert', 'copy', 'sort',
                   'reverse', 'rotate', 'heapify', 'merge', 'nsmallest',
                   'nlargest', '__contains__', 'union', 'difference',
                   'intersection', 'issubset', 'issuperset', 'join',
                   'from_iterable'}


def count_lines(f):
    """Numbers of executions of lines of Python code during a call; built-in
    functions which walk along a collection count as its size at the line of
    their call."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'verif')
    counts = {}

    def line(code, number):
        key = code, number
        counts[key] = counts.get(key, 0) + 1

    calls = {}

    def call(code, offset, callable_, first):
        if type(first) in SIZED and (
                id(callable_) in WALKING
                or getattr(callable_, '__name__', None) in WALKING_METHODS):
            key = code, callable_.__name__
            # its size plus one, so that calls for empty ones count too
            calls[key] = calls.get(key, 0) + len(first) + 1
    mon.register_callback(tool, mon.events.LINE, line)
    mon.register_callback(tool, mon.events.CALL, call)
    mon.set_events(tool, mon.events.LINE | mon.events.CALL)
    try:
        res = f()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.register_callback(tool, mon.events.CALL, None)
        mon.free_tool_id(tool)
    counts.update(calls)
    merged = {}
    for (code, number), c in counts.items():
        key = '%s:%s' % (os.path.basename(code.co_filename), number)
        merged[key] = merged.get(key, 0) + c
    return merged, res


def squares(n, x, y, step, side, columns):
    res = []
    for i in range(n):
        a, b = x + i % columns * step, y + i // columns * step
        res.append([(a, b), (a + side, b), (a + side, b + side),
                    (a, b + side)])
    return res


def comb(n, x, y, w, h):
    """Ring of 2 n + 2 vertices with teeth."""
    top = [(x + i * w, y + (h if i % 2 else 0)) for i in range(2 * n)]
    return top[::-1] + [(x, y - h), (top[-1][0], y - h)]


def chain(n, x, y, w, h):
    pts = [(x + i * w, y + (h if i % 2 else 0)) for i in range(n + 1)]
    return [[p, q] for p, q in zip(pts, pts[1:])]


def convex(n, x, y):
    """Parabolic chain."""
    return [(x + i, y + i * i) for i in range(n)]


SHAPES = {
    'point': ('inside', 'outside', 'end'),
    'segment': ('short', 'long', 'far', 'edge'),
    'multisegment': ('chain', 'steps', 'ladder'),
    'contour': ('comb', 'convex', 'spiral', 'frame', 'core'),
    'region': ('comb', 'convex', 'spiral', 'frame', 'core'),
    'multiregion': ('row', 'grid', 'combs', 'frames'),
    'polygon': ('holes', 'comb', 'convex', 'spiral', 'frame', 'sieve',
                'core', 'cores'),
    'multipolygon': ('row', 'grid', 'holes', 'combs', 'frames', 'sieves'),
}


def frame(n, m, inner=0):
    """Ring of ``m`` edges around everything else of size ``n``."""
    big = half(n) - inner
    step = 2 * big // m
    bottom = [(-big + i * step, -big - i % 2) for i in range(m)]
    return bottom + [(big, big), (-big, big)]


def half(n):
    return 4 * n * n


def spiral(n):
    """Staircase band."""
    up, down = [], []
    for i in range(max(n // 4, 1)):
        up += [(i * 4, i * 4), ((i + 1) * 4, i * 4)]
        down += [(i * 4 - 4, i * 4 + 2), (i * 4 - 4, i * 4 + 6)]
    return up + down[::-1]


def sized(kind, shape, n, dx, dy):
    """Geometry of about ``n`` edges moved by (dx, dy)."""
    def ring(shape):
        if shape == 'comb':
            return comb(n // 2, 0, 0, 4, 8)
        if shape == 'convex':
            return convex(n, 0, 0)
        if shape == 'core':  # in the frame
            return frame(n, n, n * n)
        return frame(n, n) if shape == 'frame' else spiral(n)
    if kind == 'point':
        g = {'inside': (2 * n, -4), 'outside': (-7, 3),
             'end': (4 * n, 1)}[shape]
    elif kind == 'segment':
        g = {'short': [(n, -3), (n + 3, -2)], 'long': [(-9, -2), (9 * n, 3)],
             'far': [(-9, -90), (-19, -95)],
             'edge': [(0, 0), (0, -8)]}[shape]
    elif kind == 'multisegment':
        if shape == 'chain':
            g = chain(n, 0, 0, 4, 8)
        elif shape == 'steps':
            s = spiral(n)
            g = [[p, q] for p, q in zip(s, s[1:])]
        else:
            g = [[(i * 4, -20), (i * 4 + 2, 20)] for i in range(n)]
    elif kind in ('contour', 'region'):
        g = ring(shape)
    elif kind in ('multiregion', 'multipolygon'):
        if shape == 'row':
            g = squares(max(n // 4, 2), 0, 0, 8, 6, n)
        elif shape == 'grid':
            g = squares(max(n // 4, 2), 0, 0, 8, 6,
                        max(int((n // 4) ** .5), 1))
        elif shape == 'combs':
            a = comb(n // 4, 0, 0, 4, 8)
            g = [a, [(x, y - 40) for x, y in a]]
        elif shape == 'frames':
            g = [frame(n, n // 2)] + squares(n // 8, half(n) + 99, 0, 8, 6, n)
        else:
            g = None
        if kind == 'multipolygon':
            if shape == 'sieves':
                a = [frame(n, n // 4), squares(n // 16, -9 * n, 0, 8, 6, n)]
                w = 2 * half(n) + 99
                g = [a, gen.map_points('polygon', a,
                                       lambda p: (p[0] + w, p[1]))]
            elif shape == 'holes':
                a = sized('polygon', 'holes', n // 2, 0, 0)
                w = max(x for x, _ in a[0]) + 8
                g = [a, gen.map_points('polygon', a,
                                       lambda p: (p[0] + w, p[1]))]
            else:
                g = [[r, []] for r in g]
    else:
        if shape == 'holes':
            m = max(n // 4, 1)
            c = max(int(m ** .5), 1)
            hs = squares(m, 0, 0, 8, 6, c)
            h = (m - 1) // c * 8 + 8
            g = [[(-2, -2), (c * 8, -2), (c * 8, h), (-2, h)], hs]
        elif shape == 'cores':
            g = [frame(n, n // 2, n * n), squares(n // 8, -18 * n, 0, 8, 6, n)]
        elif shape == 'sieve':
            g = [frame(n, n // 2), squares(n // 8, -9 * n, 0, 8, 6, n)]
        else:
            g = [ring(shape), []]
    return gen.map_points(kind, g, lambda p: (p[0] + dx, p[1] + dy))


MANY = [p for p in PAIRS if set(p) & {'multiregion', 'polygon',
                                      'multipolygon'}]


@register
class P25(Prop):
    id = 'P25'
    title = 'cost grows nearly linearly'
    cases = {'quick': 320, 'thorough': 9000}
    chunk = 4
    cpu_limit = 120.
    shrinkable = False
    N0, N1, LIMIT = 48, 384, 32.
    # size and limit for confirmation (linear: 3, n log n: 3.6, quadratic: 9)
    N2, LIMIT2 = 1152, 6.
    HUGE = 3 * 10 ** 6
    rule = ('families of arguments of growing size (combs, convex chains, '
            'staircases, rows and grids of squares, polygons with grids of '
            'holes; moved by random vectors, so that they coincide, cross in '
            'a linear number of points, nest or are apart); numbers of '
            'executions of every line of code for 48 and 384 edges are '
            'compared: linear cost gives the ratio 8, linearithmic 12, quadratic 64, '
            'the limit is 32 (single lines which exceed it have to grow more '
            'than 6 times up to 1152 edges too); a case is non-trivial when the larger call '
            'executes 2000 or more lines')
    assumptions = ('number of executed lines of Python code stands for time',
                   'number of common points of arguments is proportional to '
                   'their sizes')

    def gen(self, r):
        k1, k2 = r.choice(PAIRS + POINT_PAIRS)
        t = r.random()
        if t < .15:
            big = r.choice(('contour', 'region', 'multisegment'))
            rest = [p for p in PAIRS if big in p]
            k1, k2 = r.choice(rest)
        elif t < .6:  # these have the most of code
            k1, k2 = r.choice(MANY)
        s1, s2 = r.choice(SHAPES[k1]), r.choice(SHAPES[k2])
        t = r.random()
        # boxes of both sizes have to be in the same position
        d = ((0, 0) if t < .3 else (r.randrange(-3, 4), r.randrange(-3, 4))
             if t < .8 else (r.randrange(-9, 10), r.randrange(-9, 10))
             if t < .95 else (-10 ** 8, r.choice((0, 10 ** 8))))
        if k1 == k2 and r.random() < .6:
            # equal geometries: every event coincides with another one
            s2, d = s1, (0, 0)
        return {'k': [], 'g': [], 'kinds': [k1, k2], 'shapes': [s1, s2],
                'shift': list(d), 'swap': r.random() < .5}

    def arguments(self, case, n):
        (k1, k2), (s1, s2) = case['kinds'], case['shapes']
        g1 = sized(k1, s1, n, *case['shift'])
        g2 = sized(k2, s2, n, 0, 0)
        if case['swap']:
            # mirror: the order of sweeping becomes another one
            def f(p):
                return (p[1], p[0])
            g1, g2 = gen.map_points(k1, g1, f), gen.map_points(k2, g2, f)
        return g1, g2

    def cost(self, case, n):
        (k1, k2) = case['kinds']
        g1, g2 = self.arguments(case, n)
        b = Builder()
        x, y = b.build(k1, g1), b.build(k2, g2)
        return count_lines(lambda: call_built(k1, x, k2, y))

    def check(self, case):
        c0, a0 = self.cost(case, self.N0)
        c1, a1 = self.cost(case, self.N1)
        name = name_of(*case['kinds'])
        label = '%s %s' % (name, a1)
        t0, t1 = sum(c0.values()), sum(c1.values())
        case['lines'] = [t0, t1]
        if a0.startswith('!') or a1.startswith('!'):
            return fail(name, 'an answer', a0 if a0.startswith('!')
                        else a1), label
        total = t1 / max(t0, 100)
        ratio, where = max((c / max(c0.get(line, 0), 4 * self.N0), line)
                           for line, c in c1.items())
        case['ratios'] = [round(total, 1), round(ratio, 1)]
        found = None
        if total > self.LIMIT:
            found = total, 'all lines'
        elif ratio > self.LIMIT and t1 > self.HUGE:
            found = ratio, where
        elif t1 <= self.HUGE:
            # rare lines may be just favoured by the bigger size: those which
            # seem to grow too quickly are looked at for a third one
            seem = [line for line, c in c1.items()
                    if c > self.LIMIT * max(c0.get(line, 0), 4 * self.N0)
                    or c > 1.4 * self.LIMIT * max(c0.get(line, 0),
                                                  self.N0 / 2)]
            if seem:
                c2, _ = self.cost(case, self.N2)
                growth, where = max((c2.get(line, 0) / c1[line], line)
                                    for line in seem)
                case['confirmation'] = round(growth, 1)
                if growth > self.LIMIT2:
                    found = c1[where] / max(c0.get(where, 0),
                                            self.N0 / 2), where
        if found:
            return fail(name + ': growth of number of executed lines',
                        'at most %s' % self.LIMIT, round(found[0], 1),
                        where=found[1]), label
        return None, label

    def valid(self, case):
        return all(geom.valid(k, g) for k, g in zip(
            case['kinds'], self.arguments(case, 40)))

    def nontrivial(self, case, label):
        return case['lines'][1] >= 2000


# memory ---------------------------------------------------------------------

def fuse(n):
    """Function whose ``n``-th call fails."""
    left = n

    def tap(name):
        nonlocal left
        left -= 1
        if not left:
            raise Fault(name)
    return tap


@register
class P30(P25):
    id = 'P30'
    title = 'memory grows linearly and is given back'
    cases = {'quick': 240, 'thorough': 9000}
    chunk = 3
    N0, N1, LIMIT = 64, 512, 20.
    CALLS, KEPT = 8, 1024
    rule = ('the same families of arguments as for P25; memory blocks of '
            'Python are traced: the peak during a call for 512 edges is '
            'compared with the one for 64 edges (linear memory gives the '
            'ratio 8, quadratic 64, the limit is 20), and 8 further calls '
            'for new arguments of 64 edges, some of them failing in the '
            'middle, must not leave more than 1 KiB behind after the '
            'arguments are gone; a case is non-trivial when the larger call '
            'needs 4 KiB or more')
    assumptions = ('memory is that of Python objects',
                   'number of common points of arguments is proportional to '
                   'their sizes')

    def gen(self, r):
        case = P25.gen(self, r)
        case['aux'] = r.randrange(10 ** 9)
        return case

    def made(self, case, n, move=0):
        k1, k2 = case['kinds']
        g1, g2 = (gen.map_points(k, g, lambda p: (p[0] + move, p[1] - move))
                  for k, g in zip(case['kinds'], self.arguments(case, n)))
        b = Builder()
        return b.build(k1, g1), b.build(k2, g2)

    def peak(self, case, n):
        """Bytes used by a call on top of its arguments."""
        k1, k2 = case['kinds']
        x, y = self.made(case, n)
        gc.collect()
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        answer = call_built(k1, x, k2, y)
        return tracemalloc.get_traced_memory()[1] - before, answer

    def leftover(self, case):
        """Bytes which are there after calls for arguments which are not."""
        k1, k2 = case['kinds']
        r = random.Random(case['aux'])
        before = 0
        for i in range(self.CALLS + 3):
            if i == 3:
                gc.collect()
                before = tracemalloc.get_traced_memory()[0]
            x, y = self.made(case, self.N0, i + 1)
            context = None
            if r.random() < .3:
                context = Tapped(fuse(r.randrange(1, 400)))
            call_built(k1, x, k2, y, context)
            del x, y, context
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - before

    def check(self, case):
        name = name_of(*case['kinds'])
        self.peak(case, self.N0)
        tracemalloc.start()
        try:
            p0, a0 = self.peak(case, self.N0)
            p1, a1 = self.peak(case, self.N1)
            left = self.leftover(case)
        finally:
            tracemalloc.stop()
        label = '%s %s' % (name, a1)
        case['bytes'] = [p0, p1, left]
        ratio = p1 / max(p0, 2048)
        for a in (a0, a1):
            if a.startswith('!'):
                return fail(name, 'an answer', a), label
        if ratio > self.LIMIT:
            return fail(name + ': growth of memory', 'at most %s' % self.LIMIT,
                        round(ratio, 1)), label
        if left > self.KEPT:
            return fail(name + ': bytes kept after %s calls' % self.CALLS,
                        'at most %s' % self.KEPT, left), label
        return None, label

    def nontrivial(self, case, label):
        return case['bytes'][1] >= 4096


# failures -------------------------------------------------------------------

class CountingTap:
    """Counts uses of a context; the chosen one fails."""

    def __init__(self, n=None, error=None):
        self.count, self.n, self.error = 0, n, error

    def __call__(self, name):
        self.count += 1
        if self.count == self.n:
            raise self.error


ERRORS = (ValueError, KeyError, IndexError, TypeError, AttributeError,
          ArithmeticError, ZeroDivisionError, OverflowError, RuntimeError,
          AssertionError, NotImplementedError, LookupError, MemoryError,
          RecursionError, OSError, Fault)


@register
class P31(Pairwise):
    id = 'P31'
    cases = {'quick': 30000, 'thorough': 800000}
    title = 'failures are not turned into answers'
    pairs = PAIRS + POINT_PAIRS
    rule = (MEET + 'functions of the given context are counted during a call, '
            'then the call is repeated several times with one of the uses '
            'raising an exception of a random class; in the same way one of '
            'the readings of coordinates of points is made to fail; the call '
            'has to raise or to give the right answer (that of the intact '
            'context), and the same arguments have to get the right answer '
            'afterwards; non-trivial when at least four calls failed')
    assumptions = ('failures are raised by functions of the context and by '
                   'points only',)
    TRIES = 6

    def gen(self, r):
        k1, k2 = self.pick(r)
        c = (gen.big_case(r, k1, k2) if r.random() < .01
             else gen.case(r, k1, k2, plain=True))
        if c is None:
            return None
        return {'k': [k1, k2], 'g': list(c), 'aux': r.randrange(10 ** 9)}

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        name = name_of(k1, k2)
        b = Builder()
        x, y = b.build(k1, g1), b.build(k2, g2)
        tap = CountingTap()
        base = call_built(k1, x, k2, y, Tapped(tap))
        label = '%s %s' % (name, base)
        case['failed'] = 0
        if base.startswith('!'):
            return fail(name, 'an answer', base), label
        r = random.Random(case['aux'])
        uses = tap.count
        numbers = (range(1, uses + 1) if uses <= self.TRIES
                   else sorted(r.sample(range(1, uses + 1), self.TRIES)))
        for n in numbers:
            error = r.choice(ERRORS[:6] if r.random() < .6 else ERRORS)
            got = call_built(k1, x, k2, y,
                             Tapped(CountingTap(n, error('failure'))))
            if not got.startswith('!') and got != base:
                return fail('%s with a context raising %s at use %d of %d'
                            % (name, error.__name__, n, uses),
                            'an exception or %s' % base, got,
                            error=error.__name__, use=n), label
            if got.startswith('!'):
                case['failed'] += 1
        got = call_built(k1, x, k2, y)
        if got != base:
            return fail(name + ' after failures', base, got), label
        return self.points(case, r, name, base), label

    def points(self, case, r, name, base):
        """Points in place of the context fail."""
        (k1, k2), (g1, g2) = case['k'], case['g']
        context = Context(**TRAP)
        b = Builder(context=context)
        x, y = b.build(k1, g1), b.build(k2, g2)
        try:
            Trap.left = limit = 10 ** 9
            got = call_built(k1, x, k2, y, context)
            if got != base:
                return fail(name + ' with own points', base, got)
            readings = limit - Trap.left
            if not readings:
                return None
            for _ in range(self.TRIES):
                n = r.randrange(readings)
                error = r.choice(ERRORS[:6] if r.random() < .6 else ERRORS)
                Trap.left, Trap.error = n, error('failure')
                got = call_built(k1, x, k2, y, context)
                Trap.left = None
                if not got.startswith('!') and got != base:
                    return fail('%s with points raising %s at reading %d of %d'
                                % (name, error.__name__, n + 1, readings),
                                'an exception or %s' % base, got,
                                error=error.__name__, reading=n + 1)
                if got.startswith('!'):
                    case['failed'] += 1
            got = call_built(k1, x, k2, y, context)
            if got != base:
                return fail(name + ' after failures of points', base, got)
        finally:
            Trap.left = Trap.error = None
        return None

    def nontrivial(self, case, label):
        return case['failed'] >= 4
