"""The properties: how a case is generated and what is required of it."""
from __future__ import annotations

import collections
import json
import os
import random
from fractions import Fraction

from . import adapter, gen, geom
from .adapter import FUNCTIONS
from .geom import AREAL, COMPLEMENT, LINEAR, complement

KINDS = adapter.POINT_KINDS
PAIRS = [p for p in FUNCTIONS if p[0] != 'point']
POINT_PAIRS = [p for p in FUNCTIONS if p[0] == 'point']
AREAL_PAIRS = [p for p in PAIRS if p[0] in AREAL]
PROPS = {}
REGRESSIONS = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                           'regressions.json')


def prepare(case):
    """Case read from JSON: points become tuples."""
    return dict(case, g=[gen.tup(k, g) for k, g in zip(case['k'],
                                                       case['g'])])


def boxes_meet(p1, p2):
    (a, b, c, d), (e, f, g, h) = bbox(*p1), bbox(*p2)
    return a <= f and e <= b and c <= h and g <= d


def bbox(kind, g):
    pts = gen.points_of(kind, g)
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), max(xs), min(ys), max(ys)


def fits_float(pairs, den):
    return den & (den - 1) == 0 and all(
        abs(v) < 2 ** 53
        for k, g in pairs for p in gen.points_of(k, g) for v in p)


def pick_num(r, pairs, prob=.3):
    """Kind of numbers able to represent the coordinates exactly."""
    if r.random() > prob:
        return ['int', 1]
    num = r.choice(gen.NUMS)
    if num[0] == 'float' and not fits_float(pairs, num[1]):
        num = ('frac', num[1])
    return list(num)


def name_of(k1, k2):
    return FUNCTIONS[k1, k2]


def ask(k1, g1, k2, g2, num=('int', 1), context=None, build_context=None):
    return adapter.call(k1, g1, k2, g2, num, context, build_context)


def truth(k1, g1, k2, g2):
    if k1 == 'point':
        return geom.LOCATIONS[geom.locate_point(k2, g2, g1)]
    return geom.relate(k1, g1, k2, g2)


def weighted(pairs, weights=None):
    res = []
    for p in pairs:
        w = 1 if weights is None else weights.get(p, 1)
        res += [p] * w
    return res


class Prop:
    id = title = None
    cases = {'quick': 20000, 'thorough': 600000}
    chunk = 250
    cpu_limit = None
    shrinkable = True
    rule = ''
    assumptions = (
        'geometries are valid in the sense of the documentation: segments '
        'have distinct ends, contours are simple with non-zero area, parts '
        'of multisegments / multiregions / multipolygons and holes meet in '
        'isolated points only, interiors of polygons are connected',
        'the quadratic exact-arithmetic model in vlib/geom.py implements the '
        'set-theoretic definitions of locations and relations',
    )

    def gen(self, r):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def valid(self, case):
        return all(geom.valid(k, g) and not gen.too_small(k, g)
                   for k, g in zip(case['k'], case['g']))

    def nontrivial(self, case, label):
        pairs = list(zip(case['k'], case['g']))
        return boxes_meet(pairs[0], pairs[1])

    def regressions(self):
        try:
            with open(REGRESSIONS) as f:
                data = json.load(f)
        except FileNotFoundError:
            return
        for case in data.get(self.id, ()):
            yield case


def register(cls):
    p = cls()
    PROPS[p.id] = p
    return cls


MEET = ('structured generator (shared lattices, meshes with labelled faces, '
        'stars around a hub, chopped lines, copies transformed or moved '
        'inside, on the border or into holes; random linear map and shift, '
        'coordinates up to 1e29, int / Fraction / float / mixed numbers, '
        'nearly degenerate float coordinates); ')


class Differential(Prop):
    """Answers of functions against the reference model."""
    pairs = ()
    weights = None
    rule = (MEET + 'a case is non-trivial when bounding boxes of arguments '
            'meet; distinct by canonical JSON of kinds and coordinates')

    def __init__(self):
        self._menu = weighted(self.pairs, self.weights)

    def gen(self, r):
        k1, k2 = r.choice(self._menu)
        t = r.random()
        if t < .03:
            c = gen.big_case(r, k1, k2)
        elif t < .1:
            return self.rounded(r, k1, k2)
        else:
            c = gen.case(r, k1, k2)
        if c is None:
            return None
        pairs = list(zip((k1, k2), c))
        return {'k': [k1, k2], 'g': list(c), 'num': pick_num(r, pairs)}

    @staticmethod
    def rounded(r, k1, k2):
        """Coordinates are floats near to those of an ordinary case."""
        c = gen.raw_case(r, k1, k2)
        if c is None:
            return None
        pairs, den = gen.rounded(r, zip((k1, k2), c))
        if not all(geom.valid(k, g) for k, g in pairs):
            return None
        return {'k': [k1, k2], 'g': [g for _, g in pairs],
                'num': ['float', den]}

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        expected = truth(k1, g1, k2, g2)
        got = ask(k1, g1, k2, g2, tuple(case['num']))
        label = '%s %s' % (name_of(k1, k2), expected)
        if got != expected:
            return {'what': name_of(k1, k2), 'expected': expected,
                    'got': got}, label
        return None, label


def differential(id_, title_, pairs_, weights_=None, quick=20000,
                 thorough=None):
    class P(Differential):
        id = id_
        title = title_
        pairs = pairs_
        weights = weights_
        cases = {'quick': quick, 'thorough': thorough or 25 * quick}
    P.__name__ = id_
    register(P)


differential('P01', 'point in linear',
             [('point', k) for k in ('segment', 'multisegment', 'contour')],
             quick=450000)
differential('P02', 'point in areal', [('point', k) for k in AREAL],
             quick=230000)
differential('P03', 'segment in segment, multisegment',
             [('segment', 'segment'), ('segment', 'multisegment')],
             {('segment', 'multisegment'): 3}, quick=450000)
differential('P04', 'segment in contour', [('segment', 'contour')],
             quick=500000)
differential('P05', 'multisegment in multisegment, contour',
             [('multisegment', 'multisegment'), ('multisegment', 'contour')],
             quick=90000)
differential('P06', 'contour in contour', [('contour', 'contour')],
             quick=90000)
differential('P07', 'segment in region, multiregion',
             [('segment', 'region'), ('segment', 'multiregion')],
             quick=180000)
differential('P08', 'segment in polygon, multipolygon',
             [('segment', 'polygon'), ('segment', 'multipolygon')],
             quick=100000)
differential('P09', 'multisegment in region, multiregion',
             [('multisegment', 'region'), ('multisegment', 'multiregion')],
             quick=90000)
differential('P10', 'multisegment in polygon, multipolygon',
             [('multisegment', 'polygon'), ('multisegment', 'multipolygon')],
             quick=64000)
differential('P11', 'contour in areal', [('contour', k) for k in AREAL],
             quick=84000)
differential('P12', 'region, multiregion in region, multiregion',
             [('region', 'region'), ('region', 'multiregion'),
              ('multiregion', 'multiregion')], quick=72000)
differential('P13', 'region, multiregion in polygon',
             [('region', 'polygon'), ('multiregion', 'polygon')],
             quick=66000)
differential('P14', 'polygon in polygon', [('polygon', 'polygon')],
             quick=64000)
differential('P15', 'areal in multipolygon',
             [(k, 'multipolygon') for k in AREAL], quick=46000)

from . import meta, system  # noqa: registers the rest
