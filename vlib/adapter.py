"""Bridge between plain integer geometries and the library under test."""
from __future__ import annotations

import sys
from fractions import Fraction

from ground.base import (Context, Location, Orientation, Relation,
                         get_context)
from orient import planar

POINT_KINDS = ('segment', 'multisegment', 'contour', 'region', 'multiregion',
               'polygon', 'multipolygon')
_RANK = {k: i for i, k in enumerate(POINT_KINDS)}

# (left kind, right kind) -> public function name
FUNCTIONS = {}
for _k1 in ('point',) + POINT_KINDS:
    for _k2 in POINT_KINDS:
        if _k1 == 'point' or _RANK[_k1] <= _RANK[_k2]:
            FUNCTIONS[_k1, _k2] = '%s_in_%s' % (_k1, _k2)

IDENTITY = ('int', 1)


def number(v, num):
    """Makes a coordinate of the integer ``v`` of a given kind: value is
    v / den for every kind."""
    kind, den = num
    if kind == 'int':
        assert den == 1
        return v
    if kind == 'frac':
        return Fraction(v, den)
    if kind == 'float':
        r = v / den
        assert Fraction(r) == Fraction(v, den), 'inexact float'
        return r
    if kind == 'mixed':  # Fractions, floats and ints side by side
        f = Fraction(v, den)
        if f.denominator == 1 and v & 1:
            return int(f)
        r = v / den
        return r if Fraction(r) == f and v & 2 else f
    raise ValueError(kind)


class Builder:
    """Builds library objects using classes of a given context."""

    def __init__(self, num=IDENTITY, context=None, seq=list):
        c = get_context() if context is None else context
        self.num, self.c, self.seq = num, c, seq

    def point(self, p):
        n = self.num
        return self.c.point_cls(number(p[0], n), number(p[1], n))

    def segment(self, s):
        return self.c.segment_cls(self.point(s[0]), self.point(s[1]))

    def multisegment(self, g):
        return self.c.multisegment_cls(self.seq([self.segment(s) for s in g]))

    def contour(self, g):
        return self.c.contour_cls(self.seq([self.point(p) for p in g]))

    region = contour

    def multiregion(self, g):
        return self.seq([self.contour(r) for r in g])

    def polygon(self, g):
        return self.c.polygon_cls(self.contour(g[0]),
                                  self.seq([self.contour(h) for h in g[1]]))

    def multipolygon(self, g):
        return self.c.multipolygon_cls(self.seq([self.polygon(p)
                                                 for p in g]))

    def build(self, kind, g):
        return getattr(self, kind)(g)


class FastContext(Context):
    """The default exact context with quicker orientation of integer and
    rational points (most of the time of calls is spent there)."""

    @property
    def angle_orientation(self):
        return _orientation


_SIGNS = {v: Orientation(v) for v in (-1, 0, 1)}


def _orientation(vertex, first, second):
    x, y = vertex.x, vertex.y
    v = (first.x - x) * (second.y - y) - (first.y - y) * (second.x - x)
    return _SIGNS[(v > 0) - (v < 0)]


FAST = FastContext()


def use_fast(g):
    """Seven cases of eight get the quicker context; a function of the case,
    so that it is the same in a replay."""
    while not isinstance(g, int):
        g = g[0]
    return g & 7 != 5


def call(k1, g1, k2, g2, num=IDENTITY, context=None, build_context=None):
    """Calls ``<k1>_in_<k2>``; returns name of the answer or a description of
    the failure (starts with ``!``)."""
    if context is None and num[0] == 'int' and use_fast(g2):
        context = FAST
    b = Builder(num, context if build_context is None else build_context)
    x, y = b.build(k1, g1), b.build(k2, g2)
    return call_built(k1, x, k2, y, context)


class Hang(Exception):
    pass


def call_built(k1, x, k2, y, context=None):
    try:
        f = getattr(planar, FUNCTIONS[k1, k2])
        r = f(x, y) if context is None else f(x, y, context=context)
    except Hang:
        return '!Hang'
    except Exception as e:  # noqa
        return '!%s: %s' % (type(e).__name__, str(e)[:200])
    cls = Location if k1 == 'point' else Relation
    if not isinstance(r, cls):
        return '!bad answer %r' % (r,)
    return r.name
