"""Metamorphic, algebraic, stateful and cost properties."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction
from math import gcd, lcm

from . import gen, geom
from .adapter import FUNCTIONS
from .geom import AREAL, LINEAR, complement
from .props import (AREAL_PAIRS, MEET, PAIRS, POINT_PAIRS, Prop, ask,
                    boxes_meet, name_of, pick_num, register)

SAME = [p for p in PAIRS if p[0] == p[1]]
SUBSET = ('EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN')
SUPERSET = ('EQUAL', 'COMPOSITE', 'ENCLOSES', 'COVER')


def fail(what, expected, got, **extra):
    return dict({'what': what, 'expected': expected, 'got': got}, **extra)


def one(x):
    return x if isinstance(x, str) else '/'.join(sorted(x))


def ok(got, allowed):
    return got == allowed if isinstance(allowed, str) else got in allowed


class Pairwise(Prop):
    """Cases are pairs of geometries and a seed of the transformation."""
    pairs = PAIRS + POINT_PAIRS
    refine_too = False

    def __init__(self):
        self._menu = [p for p in self.pairs for _ in range(self.weight(p))]

    @staticmethod
    def weight(pair):
        """The more branches a function has, the more cases it gets."""
        k1, k2 = pair
        if k1 in ('point', 'segment') and k2 not in AREAL:
            return 2
        return 3 + sum(k in ('polygon', 'multipolygon') for k in pair)

    def pick(self, r):
        return r.choice(self._menu)

    def gen(self, r):
        k1, k2 = self.pick(r)
        c = (gen.big_case if r.random() < .03 else gen.case)(r, k1, k2)
        if c is None:
            return None
        return {'k': [k1, k2], 'g': list(c),
                'num': pick_num(r, list(zip((k1, k2), c)), .15),
                'aux': r.randrange(10 ** 9)}

    rule = (MEET + 'non-trivial when bounding boxes of arguments meet')


@register
class P16(Pairwise):
    id = 'P16'
    cases = {'quick': 48000, 'thorough': 1200000}
    title = 'converse and reflexivity'
    pairs = SAME
    rule = (MEET + 'every case is asked in both directions and against '
            'itself; non-trivial when bounding boxes of arguments meet')

    def check(self, case):
        (k, _), (g1, g2) = case['k'], case['g']
        num = tuple(case['num'])
        a = ask(k, g1, k, g2, num)
        b = ask(k, g2, k, g1, num)
        name = name_of(k, k)
        label = '%s %s' % (name, a)
        if b != complement(a) or a.startswith('!'):
            return fail(name + ' is not the converse', complement(a), b,
                        direct=a), label
        r = random.Random(case['aux'])
        for g in (g1, g2):
            s = ask(k, g, k, gen.scramble(r, k, g), num)
            if s != 'EQUAL':
                return fail(name + ' with itself', 'EQUAL', s), label
        return None, label


@register
class P17(Pairwise):
    id = 'P17'
    cases = {'quick': 56000, 'thorough': 1400000}
    title = 'representation invariance'
    rule = (MEET + 'both arguments are rewritten (vertices rotated, ring '
            'direction flipped, ends of segments swapped, parts and holes '
            'permuted) in several ways; non-trivial when bounding boxes of '
            'arguments meet')

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        num = tuple(case['num'])
        base = ask(k1, g1, k2, g2, num)
        label = '%s %s' % (name_of(k1, k2), base)
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        r = random.Random(case['aux'])
        for _ in range(3):
            h1, h2 = gen.scramble(r, k1, g1), gen.scramble(r, k2, g2)
            got = ask(k1, h1, k2, h2, num)
            if got != base:
                return fail(name_of(k1, k2) + ' after rewriting', base, got,
                            rewritten=[h1, h2]), label
        return None, label


@register
class P18(Pairwise):
    id = 'P18'
    cases = {'quick': 64000, 'thorough': 1600000}
    title = 'redundant vertices and subdivision'
    pairs = [p for p in PAIRS + POINT_PAIRS
             if not set(p) <= {'point', 'segment'}]
    rule = (MEET + 'edges get extra collinear vertices, segments of '
            'multisegments are split (one rewriting of fifty: into up to 60 '
            'pieces each, over a thousand in total), or redundant vertices '
            'are removed; non-trivial when bounding boxes of arguments meet')

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        base = ask(k1, g1, k2, g2)
        label = '%s %s' % (name_of(k1, k2), base)
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        r = random.Random(case['aux'])
        for n in range(3):
            p1, p2 = r.choice((0, .4, .9)), r.choice((0, .4, .9))
            if n == 2:
                h1 = gen.simplify(r, k1, g1, True)
                h2 = gen.simplify(r, k2, g2, True)
            elif r.random() < .02:
                m = r.choice((5, 9, 17, 60))
                h1, h2 = (gen.chop(r, k, g, m, r.choice((0, .5, 1)))
                          for k, g in ((k1, g1), (k2, g2)))
            else:
                h1, h2 = gen.refine(r, k1, g1, p1), gen.refine(r, k2, g2, p2)
            (_, h1), (_, h2) = gen.normalize([(k1, h1), (k2, h2)])
            got = ask(k1, h1, k2, h2)
            if got != base:
                return fail(name_of(k1, k2) + ' after subdivision', base,
                            got, rewritten=[h1, h2]), label
        return None, label


def affine(r):
    t = r.random()
    if t < .35:  # near or far translation of the plane
        m = (1, 0, 0, 1)
    elif t < .6:
        m = r.choice(gen.MATRICES)
    else:
        m = gen.rand_matrix(r)
    return m, gen.rand_shift(r)


@register
class P19(Pairwise):
    id = 'P19'
    cases = {'quick': 56000, 'thorough': 1400000}
    title = 'affine invariance'
    rule = (MEET + 'both arguments go through the same invertible affine '
            'maps (translations, mirrors, quarter turns, shears, huge and '
            'tiny scales; exact results as int, Fraction or float); '
            'non-trivial when bounding boxes of arguments meet')

    def gen(self, r):
        k1, k2 = self.pick(r)
        c = (gen.big_case(r, k1, k2) if r.random() < .03
             else gen.case(r, k1, k2, plain=True))
        if c is None:
            return None
        return {'k': [k1, k2], 'g': list(c), 'aux': r.randrange(10 ** 9)}

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        base = ask(k1, g1, k2, g2)
        label = '%s %s' % (name_of(k1, k2), base)
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        r = random.Random(case['aux'])
        for _ in range(3):
            m, t = affine(r)
            h1, h2 = (gen.map_points(k, g,
                                     lambda p: gen.apply_matrix(m, t, p))
                      for k, g in ((k1, g1), (k2, g2)))
            num = pick_num(r, [(k1, h1), (k2, h2)], .5)
            if num[0] == 'frac' and r.random() < .3:
                num[1] = r.choice((3, 10 ** 9 + 7, 10 ** 30))
            got = ask(k1, h1, k2, h2, tuple(num))
            if got != base:
                return fail(name_of(k1, k2) + ' after affine map', base, got,
                            mapped=[h1, h2], numbers=num,
                            map=[list(m), list(t)]), label
        return None, label


# other kinds ----------------------------------------------------------------

def variants(k, g):
    """The same set of points as geometries of all kinds able to hold it."""
    res = [(k, g)]
    if k == 'segment':
        pass
    elif k == 'contour':
        res.append(('multisegment', [[g[i - 1], g[i]]
                                     for i in range(len(g))]))
    elif k == 'region':
        res += [('multiregion', [g]), ('polygon', [g, []]),
                ('multipolygon', [[g, []]])]
    elif k == 'multiregion':
        res.append(('multipolygon', [[r, []] for r in g]))
        if len(g) == 1:
            res += [('region', g[0]), ('polygon', [g[0], []])]
    elif k == 'polygon':
        res.append(('multipolygon', [g]))
        if not g[1]:
            res += [('region', g[0]), ('multiregion', [g[0]])]
    elif k == 'multipolygon':
        if not any(p[1] for p in g):
            res.append(('multiregion', [p[0] for p in g]))
        if len(g) == 1:
            res.append(('polygon', g[0]))
            if not g[0][1]:
                res.append(('region', g[0][0]))
    return res


FROM_REGION = {  # relation of a region -> possible relations of its border
    'DISJOINT': ('DISJOINT',), 'TOUCH': ('TOUCH', 'COMPONENT'),
    'COVER': ('DISJOINT',), 'ENCLOSES': ('TOUCH', 'COMPONENT'),
    'COMPOSITE': ('TOUCH', 'COMPONENT'), 'EQUAL': ('COMPONENT',),
    'COMPONENT': ('COMPONENT',), 'ENCLOSED': ('ENCLOSED',),
    'WITHIN': ('WITHIN',)}


@register
class P20(Pairwise):
    id = 'P20'
    cases = {'quick': 56000, 'thorough': 1400000}
    title = 'same set of points as another kind'
    pairs = ([p for p in PAIRS + POINT_PAIRS
              if p not in (('segment', 'segment'), ('point', 'segment'))]
             + [p for p in PAIRS if p[0] in ('contour', 'segment')])
    rule = (MEET + 'each argument is expressed as every kind able to hold '
            'the same set of points (and a contour as the border of its '
            'region) and all available functions are compared; non-trivial '
            'when bounding boxes of arguments meet')

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        base = ask(k1, g1, k2, g2)
        label = '%s %s' % (name_of(k1, k2), base)
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        r = random.Random(case['aux'])
        pairs = [(k1, g1), (k2, g2)]
        if 'segment' in (k1, k2):
            for i, k in enumerate((k1, k2)):
                if k == 'segment':
                    p, q = pairs[i][1]
                    m = gen.between(r, p, q)
                    pairs.append(('multisegment', [[p, m], [m, q]]))
        pairs = gen.normalize(pairs)
        v = [variants(*pairs[0]), variants(*pairs[1])]
        rest = pairs[2:]
        for i, k in enumerate((k1, k2)):
            if k == 'segment':
                v[i] = v[i] + [rest.pop(0)]
        for a, ga in v[0]:
            for b, gb in v[1]:
                if (a, b) in FUNCTIONS:
                    name, got = name_of(a, b), ask(a, ga, b, gb)
                    expected = base
                elif (b, a) in FUNCTIONS:
                    name, got = name_of(b, a), ask(b, gb, a, ga)
                    expected = complement(base)
                else:
                    continue
                if got != expected:
                    return fail('%s as %s' % (name_of(k1, k2), name),
                                expected, got), label
        if k1 == 'contour' and k2 in AREAL:
            rel = ask('region', g1, k2, g2)
            if not ok(base, FROM_REGION.get(rel, (base,))):
                return fail('contour of region which is %s' % rel,
                            FROM_REGION[rel], base), label
        return None, label


# witnesses ------------------------------------------------------------------

def homogeneous(X, Y, W):
    return Fraction(X, W), Fraction(Y, W)


def pieces(edges, others):
    """(cut points, middles of pieces with directions) of the edges."""
    for e in edges:
        ax, ay, bx, by = e
        dx, dy = bx - ax, by - ay
        L, ks, _ = geom.split(e, others)
        cuts = [(ax * L + dx * k, ay * L + dy * k, L) for k in ks]
        mids = [(ax * 2 * L + dx * (k + m), ay * 2 * L + dy * (k + m), 2 * L)
                for k, m in zip(ks, ks[1:])]
        yield cuts, mids, (dx, dy)


def beside(p, n, edges):
    """A point of the face next to ``p`` in the direction ``n``."""
    px, py = homogeneous(*p)
    t = Fraction(1)
    for ax, ay, bx, by in edges:
        fx, fy = bx - ax, by - ay
        den = n[0] * fy - n[1] * fx
        if den == 0:
            continue
        s = ((ax - px) * fy - (ay - py) * fx) / den
        u = ((ax - px) * n[1] - (ay - py) * n[0]) / den
        if s > 0 and 0 <= u <= 1:
            t = min(t, s)
    t /= 2
    return px + n[0] * t, py + n[1] * t


def locate_all(k, g, points):
    """Answers of the library for points given as Fractions."""
    from .adapter import Builder, call_built
    b = Builder()
    y = b.build(k, g)
    cls = b.c.point_cls
    return [call_built('point', cls(*(int(v) if v.denominator == 1 else v
                                      for v in p)), k, y) for p in points]


@register
class P21(Pairwise):
    id = 'P21'
    cases = {'quick': 64000, 'thorough': 1600000}
    title = 'relations agree with locations of points'
    pairs = PAIRS
    chunk = 50
    rule = (MEET + 'witness points (vertices, crossings, middles of pieces '
            'of edges, one point of every face) are located by the library '
            'in both arguments and determine the relation; non-trivial when '
            'bounding boxes of arguments meet')

    def gen(self, r):
        k1, k2 = self.pick(r)
        c = gen.case(r, k1, k2, plain=r.random() < .7)
        if c is None:
            return None
        n = sum(len(gen.segs_of(k, g)) for k, g in zip((k1, k2), c))
        if n > 60:
            return None
        return {'k': [k1, k2], 'g': list(c)}

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        rel = ask(k1, g1, k2, g2)
        label = '%s %s' % (name_of(k1, k2), rel)
        e1, e2 = geom.edges_of(k1, g1), geom.edges_of(k2, g2)
        if k1 in AREAL:
            expected = self.areal(k1, g1, e1, k2, g2, e2)
        elif k2 in AREAL:
            expected = self.linear_areal(e1, k2, g2, e2)
        else:
            expected = self.linear(k1, g1, e1, k2, g2, e2)
        if not ok(rel, expected):
            return fail(name_of(k1, k2) + ' against locations',
                        one(expected), rel), label
        return None, label

    @staticmethod
    def linear_areal(e1, k2, g2, e2):
        pts, mids = set(), set()
        for cs, ms, _ in pieces(e1, e1 + e2):
            pts.update(homogeneous(*c) for c in cs)
            mids.update(homogeneous(*m) for m in ms)
        pts, mids = sorted(pts), sorted(mids)
        lm = locate_all(k2, g2, mids)
        lp = locate_all(k2, g2, pts)
        touches = 'BOUNDARY' in lm or 'BOUNDARY' in lp
        if 'EXTERIOR' in lm:
            if 'INTERIOR' in lm:
                return 'CROSS'
            return 'TOUCH' if touches else 'DISJOINT'
        if 'INTERIOR' not in lm:
            return 'COMPONENT'
        return 'ENCLOSED' if touches else 'WITHIN'

    @staticmethod
    def linear(k1, g1, e1, k2, g2, e2):
        subset, overlap, touch = [True, True], False, False
        for n, (es, os, k, g) in enumerate(((e1, e2, k2, g2),
                                            (e2, e1, k1, g1))):
            pts, mids = set(), set()
            for cs, ms, _ in pieces(es, es + os):
                pts.update(homogeneous(*c) for c in cs)
                mids.update(homogeneous(*m) for m in ms)
            lm = locate_all(k, g, sorted(mids))
            lp = locate_all(k, g, sorted(pts))
            if 'EXTERIOR' in lm:
                subset[n] = False
            if 'BOUNDARY' in lm:
                overlap = True
            if 'BOUNDARY' in lp:
                touch = True
        if subset[0]:
            return 'EQUAL' if subset[1] else 'COMPONENT'
        if subset[1]:
            return 'COMPOSITE'
        if overlap:
            return 'OVERLAP'
        return ('TOUCH', 'CROSS') if touch else 'DISJOINT'

    @staticmethod
    def areal(k1, g1, e1, k2, g2, e2):
        every = e1 + e2
        faces, bb, sub = set(), False, [True, True]
        for n, (es, os, k, g) in enumerate(((e1, e2, k2, g2),
                                            (e2, e1, k1, g1))):
            pts, mids = set(), set()
            for cs, ms, (dx, dy) in pieces(es, every):
                pts.update(homogeneous(*c) for c in cs)
                for m in ms:
                    mids.add(homogeneous(*m))
                    faces.add(beside(m, (-dy, dx), every))
                    faces.add(beside(m, (dy, -dx), every))
            lm = locate_all(k, g, sorted(mids))
            lp = locate_all(k, g, sorted(pts))
            if set(lm) != {'BOUNDARY'}:
                sub[n] = False
            if 'BOUNDARY' in lm or 'BOUNDARY' in lp:
                bb = True
        faces = sorted(faces)
        both = set(zip(locate_all(k1, g1, faces), locate_all(k2, g2, faces)))
        if any('BOUNDARY' in p for p in both):
            return 'no boundary inside of faces'
        ii = ('INTERIOR', 'INTERIOR') in both
        ie = ('INTERIOR', 'EXTERIOR') in both
        ei = ('EXTERIOR', 'INTERIOR') in both
        if not ii:
            return 'TOUCH' if bb else 'DISJOINT'
        if not ie and not ei:
            return 'EQUAL'
        if not ie:
            return ('WITHIN' if not bb
                    else 'COMPONENT' if sub[0] else 'ENCLOSED')
        if not ei:
            return ('COVER' if not bb
                    else 'COMPOSITE' if sub[1] else 'ENCLOSES')
        return 'OVERLAP'


# chains ---------------------------------------------------------------------

def triple(r, k1, k2, k3):
    """Geometries of which each one tends to be a part of the next one."""
    t = r.random()
    if k2 in AREAL and t < .5:
        mesh = gen.rand_mesh(r)
        f3 = gen.mesh_faces(r, mesh)
        p = r.choice((.4, .7, .9, 1))
        f2 = {f for f in f3 if r.random() < p} or f3
        g3 = gen.areal_from_faces(r, k3, mesh, f3)
        g2 = gen.areal_from_faces(r, k2, mesh, f2)
        if k1 in AREAL:
            p = r.choice((.4, .7, .9, 1))
            f1 = {f for f in f2 if r.random() < p} or f2
            g1 = gen.areal_from_faces(r, k1, mesh, f1)
        else:
            g1 = None
    else:
        g2, g3 = gen.pair(r, k2, k3)
        if (g2 is None or g3 is None):
            return None
        if k2 in AREAL and r.random() < .4:
            g2, g3 = gen.nest(r, k2, g2, k3, g3)
        (_, g2), (_, g3) = gen.normalize([(k2, g2), (k3, g3)])
        g1 = None
        if k1 in AREAL and r.random() < .4:
            g1 = gen.reduce_kind(r, k2, g2, k1)
    if g2 is None or g3 is None:
        return None
    if g1 is None:
        pool = gen.pool_around(r, k2, g2)
        if k1 == 'point':
            g1 = r.choice(pool)
        elif k1 in LINEAR:
            g1 = gen.linear_from(r, k1, k2, g2, pool)
        else:
            g1 = (gen.reduce_kind(r, k2, g2, k1) if r.random() < .5
                  else gen.free_areal(r, k1, pool))
        if g1 is None:
            return None
    if r.random() < .5:
        g1, g2 = gen.nest(r, k1, g1, k2, g2)
    ks, gs = (k1, k2, k3), [g1, g2, g3]
    for i in range(3):
        if gen.too_small(ks[i], gs[i]):
            gs[i] = gen.split_some(r, gs[i], 1)
        gs[i] = gen.scramble(r, ks[i], gs[i])
    return [g for _, g in gen.normalize(list(zip(ks, gs)))]


def compose(k1, k2, k3, a, b):
    """Possible relations of x and z if x is ``a`` to y and y is ``b`` to z
    (None: any)."""
    if k1 == 'point':
        if a == 'EXTERIOR' or b == 'EQUAL':
            return (a,) if b == 'EQUAL' else (
                ('EXTERIOR',) if b in ('COMPOSITE', 'ENCLOSES', 'COVER')
                else None)
        if k2 in LINEAR:  # y is a set of its boundary points
            if k3 in LINEAR:
                return {'COMPONENT': ('BOUNDARY',),
                        'DISJOINT': ('EXTERIOR',)}.get(b)
            return {'WITHIN': ('INTERIOR',), 'COMPONENT': ('BOUNDARY',),
                    'ENCLOSED': ('INTERIOR', 'BOUNDARY'),
                    'TOUCH': ('EXTERIOR', 'BOUNDARY'),
                    'DISJOINT': ('EXTERIOR',)}.get(b)
        if a == 'INTERIOR':
            return {'DISJOINT': ('EXTERIOR',), 'TOUCH': ('EXTERIOR',),
                    'COMPONENT': ('INTERIOR',), 'ENCLOSED': ('INTERIOR',),
                    'WITHIN': ('INTERIOR',)}.get(b)
        return {'DISJOINT': ('EXTERIOR',), 'TOUCH': ('EXTERIOR', 'BOUNDARY'),
                'COMPONENT': ('BOUNDARY',),
                'ENCLOSED': ('BOUNDARY', 'INTERIOR'),
                'WITHIN': ('INTERIOR',),
                'COVER': ('EXTERIOR',),
                'ENCLOSES': ('EXTERIOR', 'BOUNDARY'),
                'COMPOSITE': ('EXTERIOR', 'BOUNDARY')}.get(b)
    if a == 'EQUAL':
        return (b,)
    if b == 'EQUAL':
        return (a,)
    if a not in SUBSET:
        if a == 'DISJOINT' and b in SUPERSET:
            return ('DISJOINT',)
        return None
    # from here x is a proper part of y
    if b == 'DISJOINT':
        return ('DISJOINT',)
    if b == 'WITHIN':
        return ('WITHIN',)
    if k2 in LINEAR:
        if k3 in LINEAR:
            return {'COMPONENT': ('COMPONENT',),
                    'TOUCH': ('TOUCH', 'DISJOINT')}.get(b)
        return {'COMPONENT': ('COMPONENT',),
                'ENCLOSED': ('COMPONENT', 'ENCLOSED', 'WITHIN'),
                'TOUCH': ('TOUCH', 'DISJOINT', 'COMPONENT')}.get(b)
    if b in ('COMPONENT', 'ENCLOSED'):
        if a == 'WITHIN':
            return ('WITHIN',)
        if a == 'ENCLOSED':
            return (('ENCLOSED',) if b == 'COMPONENT'
                    else ('ENCLOSED', 'WITHIN'))
        return (('COMPONENT',) if b == 'COMPONENT'
                else ('COMPONENT', 'ENCLOSED', 'WITHIN'))
    if b == 'TOUCH':
        if a == 'WITHIN':
            return ('DISJOINT',)
        return (('TOUCH', 'DISJOINT') if k1 in AREAL
                else ('TOUCH', 'DISJOINT', 'COMPONENT'))
    return None


TRIPLES = [(k1, k2, k3) for (k1, k2) in FUNCTIONS for (a, k3) in FUNCTIONS
           if a == k2 and (k1, k3) in FUNCTIONS]


@register
class P22(Prop):
    id = 'P22'
    cases = {'quick': 130000, 'thorough': 3250000}
    title = 'containment is transitive'
    rule = (MEET + 'chains of three geometries each of which tends to be a '
            'part of the next one; non-trivial when the answers for '
            'neighbours restrict the third one')

    def gen(self, r):
        ks = r.choice(TRIPLES)
        if r.random() < .3:
            ks = r.choice([t for t in TRIPLES if t[0] != 'point'])
        gs = triple(r, *ks)
        if gs is None:
            return None
        if r.random() < .3:
            m, t = gen.rand_matrix(r), gen.rand_shift(r)
            gs = [gen.map_points(k, g, lambda p: gen.apply_matrix(m, t, p))
                  for k, g in zip(ks, gs)]
        return {'k': list(ks), 'g': gs}

    def check(self, case):
        (k1, k2, k3), (g1, g2, g3) = case['k'], case['g']
        a, b = ask(k1, g1, k2, g2), ask(k2, g2, k3, g3)
        c = ask(k1, g1, k3, g3)
        allowed = compose(k1, k2, k3, a, b)
        label = '%s %s %s' % (k1, a, b)
        for v in (a, b, c):
            if v.startswith('!'):
                return fail('chain', 'an answer', v), label
        if allowed is None:
            return None, 'any'
        if c not in allowed:
            return fail('%s which is %s of %s which is %s of %s' % (
                k1, a, k2, b, k3), one(allowed), c), label
        return None, label

    def nontrivial(self, case, label):
        return label != 'any'


# composition over parts -----------------------------------------------------

# Relations are taken apart into facts (True, False or None if a relation does
# not tell), facts about a union or a difference are derived from facts about
# operands, and all relations which agree with them are allowed.

def options(*facts):
    return itertools.product(*[(f,) if f is not None else (False, True)
                               for f in facts])


def any_of(facts):
    facts = list(facts)
    return (True if True in facts else None if None in facts else False)


class InAreal:
    """Linear geometry against an areal one: has it pieces inside, pieces
    outside, points of the boundary."""

    def __init__(self, inside, outside, touch):
        self.inside, self.outside, self.touch = inside, outside, touch

    @classmethod
    def of(cls, rel, connected):
        return cls(rel in ('CROSS', 'ENCLOSED', 'WITHIN'),
                   rel in ('CROSS', 'DISJOINT', 'TOUCH'),
                   rel in ('TOUCH', 'COMPONENT', 'ENCLOSED')
                   or ((True if connected else None) if rel == 'CROSS'
                       else False))

    def relations(self):
        res = set()
        for i, o, t in options(self.inside, self.outside, self.touch):
            if i and o:
                res.add('CROSS')
            elif o:
                res.add('TOUCH' if t else 'DISJOINT')
            elif i:
                res.add('ENCLOSED' if t else 'WITHIN')
            elif t:
                res.add('COMPONENT')
        return res


def union_in_areal(rels):
    """Possible relations of a union of segments to an areal geometry."""
    fs = [InAreal.of(v, True) for v in rels]
    return InAreal(any_of(f.inside for f in fs),
                   any_of(f.outside for f in fs),
                   any_of(f.touch for f in fs)).relations()


def linear_in_union(rels, connected):
    """Possible relations of a linear geometry to a union of areal parts
    (having a finite number of common points)."""
    fs = [InAreal.of(v, connected) for v in rels]
    met = [f for f, v in zip(fs, rels) if v != 'DISJOINT']
    if not met:
        return {'DISJOINT'}
    return InAreal(any_of(f.inside for f in fs),
                   False if any(not f.outside for f in fs)
                   else True if len(met) == 1 else None,
                   any_of(f.touch for f in fs)).relations()


def linear_in_difference(b, h, connected):
    """Possible relations of a linear geometry to a polygon if it is ``b`` to
    its border region and ``h`` to its holes."""
    fb, fh = InAreal.of(b, connected), InAreal.of(h, connected)
    if not fb.inside or not fh.outside:
        inside = False
    elif h == 'DISJOINT' or b == 'WITHIN':
        inside = True
    else:
        inside = None
    return InAreal(inside, fb.outside or fh.inside,
                   any_of((fb.touch, fh.touch))).relations()


class OfAreal:
    """Areal x against areal y: do interiors meet, is x out of y, is y out of
    x, do boundaries meet, is the boundary of x a part of that of y and vice
    versa (the last two matter for parts only)."""

    def __init__(self, meet, x_out, y_out, touch, x_on, y_on):
        self.facts = (self.meet, self.x_out, self.y_out, self.touch,
                      self.x_on, self.y_on) = (meet, x_out, y_out, touch,
                                               x_on, y_on)

    @classmethod
    def of(cls, rel, connected=False):
        return cls(rel not in ('DISJOINT', 'TOUCH'),
                   rel not in SUBSET, rel not in SUPERSET,
                   rel not in ('DISJOINT', 'WITHIN', 'COVER')
                   if rel != 'OVERLAP' else (True if connected else None),
                   rel in ('EQUAL', 'COMPONENT') if rel in SUBSET else None,
                   rel in ('EQUAL', 'COMPOSITE') if rel in SUPERSET
                   else None)

    def relations(self):
        res = set()
        for m, xo, yo, t, xb, yb in options(*self.facts):
            if not m:
                if xo and yo:
                    res.add('TOUCH' if t else 'DISJOINT')
            elif not xo and not yo:
                if t and xb and yb:
                    res.add('EQUAL')
            elif not xo:
                if t or not xb:
                    res.add('WITHIN' if not t else
                            'COMPONENT' if xb else 'ENCLOSED')
            elif not yo:
                if t or not yb:
                    res.add('COVER' if not t else
                            'COMPOSITE' if yb else 'ENCLOSES')
            else:
                res.add('OVERLAP')
        return res


def union_of_areal(rels):
    """Possible relations of a union of areal parts to an areal geometry."""
    fs = [OfAreal.of(v) for v in rels]
    if len(fs) == 1:
        return {rels[0]}
    met = [f for f in fs if f.meet]
    if not met:
        y_out = True
    elif any(not f.y_out for f in fs):
        y_out = False
    else:
        y_out = True if len(met) == 1 else None
    holders = [f for f in fs if not f.y_out]
    return OfAreal(bool(met), any(f.x_out for f in fs), y_out,
                   any_of(f.touch for f in fs),
                   all(f.x_on for f in fs)
                   if not any(f.x_out for f in fs) else None,
                   holders[0].y_on if holders else None).relations()


def areal_in_difference(b, h):
    """Possible relations of an areal geometry to a polygon if it is ``b`` to
    its border region and ``h`` to its holes."""
    fb, fh = OfAreal.of(b), OfAreal.of(h)
    if not fb.meet or not fh.x_out:
        meet = False
    elif not fh.meet or not fb.x_out:
        meet = True
    else:
        meet = None
    if not fb.y_out:
        y_out = False
    elif not fh.y_out or meet is False:
        y_out = True
    else:
        y_out = None
    if b in ('EQUAL', 'COMPONENT'):
        x_on = True
    elif b == 'WITHIN' and h == 'DISJOINT':
        x_on = False
    elif h == 'DISJOINT':
        x_on = fb.x_on
    else:
        x_on = None
    return OfAreal(meet, fb.x_out or fh.meet, y_out,
                   any_of((fb.touch, fh.touch)), x_on,
                   False if (b in ('COVER', 'ENCLOSES')
                             or h in ('COVER', 'DISJOINT', 'WITHIN',
                                      'ENCLOSES'))
                   else None).relations()


def union_in_linear(rels):
    """Possible relations of a union of segments to a linear geometry."""
    s = set(rels)
    if s <= {'DISJOINT'}:
        return ('DISJOINT',)
    if s <= {'COMPONENT', 'EQUAL'}:
        return ('COMPONENT', 'EQUAL') if 'EQUAL' not in s else ('EQUAL',)
    if s & {'EQUAL', 'COMPOSITE'}:
        return ('COMPOSITE',)
    if s & {'OVERLAP', 'COMPONENT'}:
        return ('OVERLAP', 'COMPOSITE')
    # crossing may appear at common ends of touching pieces
    return ('CROSS',) if 'CROSS' in s else ('TOUCH', 'CROSS')


def parts(k, g):
    if k == 'multisegment':
        return 'segment', g
    if k == 'contour':
        return 'segment', [[g[i - 1], g[i]] for i in range(len(g))]
    if k == 'multiregion':
        return 'region', g
    if k == 'multipolygon':
        return 'polygon', g
    return k, [g]


@register
class P27(Pairwise):
    id = 'P27'
    cases = {'quick': 56000, 'thorough': 1400000}
    title = 'answers for a whole follow from answers for its parts'
    pairs = [p for p in PAIRS + POINT_PAIRS
             if p[0] in ('multisegment', 'contour', 'multiregion',
                         'multipolygon')
             or p[1] in ('multisegment', 'multiregion', 'multipolygon')]
    rule = (MEET + 'the composite argument (the left one, then the right '
            'one) is taken apart and answers for the parts restrict the '
            'answer for the whole; non-trivial when there are two or more '
            'parts and bounding boxes of arguments meet')

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        num = tuple(case['num'])
        whole = ask(k1, g1, k2, g2, num)
        label = '%s %s' % (name_of(k1, k2), whole)
        if whole.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', whole), label
        if k1 != 'point':
            p, gs = parts(k1, g1)
            if (p, k2) in FUNCTIONS and len(gs) > 1:
                rels = [ask(p, g, k2, g2, num) for g in gs]
                allowed = (union_of_areal(rels) if k1 in AREAL
                           else union_in_areal(rels) if k2 in AREAL
                           else union_in_linear(rels))
                if whole not in allowed:
                    return fail('%s by parts' % name_of(k1, k2),
                                one(allowed), whole, parts=rels), label
        p, gs = parts(k2, g2)
        if len(gs) < 2:
            return None, label
        if k1 == 'point':
            ls = [ask(k1, g1, p, g, num) for g in gs]
            expected = ('INTERIOR' if 'INTERIOR' in ls else
                        'BOUNDARY' if 'BOUNDARY' in ls else 'EXTERIOR')
            if whole != expected:
                return fail('%s by parts' % name_of(k1, k2), expected, whole,
                            parts=ls), label
        elif (k1, p) in FUNCTIONS:
            rels = [ask(k1, g1, p, g, num) for g in gs]
            if k2 in LINEAR:
                allowed = [complement(v) for v in union_in_linear(
                    [complement(v) for v in rels])]
            elif k1 in AREAL:
                allowed = [complement(v) for v in union_of_areal(
                    [complement(v) for v in rels])]
            else:
                allowed = linear_in_union(rels, k1 != 'multisegment')
            if whole not in allowed:
                return fail('%s by parts' % name_of(k1, k2), one(allowed),
                            whole, parts=rels), label
        return None, label

    def nontrivial(self, case, label):
        return (Pairwise.nontrivial(self, case, label)
                and any(len(parts(k, g)[1]) > 1
                        for k, g in zip(case['k'], case['g'])
                        if k != 'point'))


# holes ----------------------------------------------------------------------

@register
class P28(Pairwise):
    id = 'P28'
    cases = {'quick': 72000, 'thorough': 1800000}
    title = 'holes subtract their interiors'
    pairs = [p for p in PAIRS + POINT_PAIRS if p[1] == 'polygon']
    rule = (MEET + 'right argument is a polygon with holes; answers for its '
            'border region and for the multiregion of its holes restrict '
            'the answer for the polygon; non-trivial when bounding boxes of '
            'arguments meet')

    def gen(self, r):
        for _ in range(4):
            case = Pairwise.gen(self, r)
            if case is not None and case['g'][1][1]:
                return case
        return None

    def check(self, case):
        (k, _), (g, (border, holes)) = case['k'], case['g']
        num = tuple(case['num'])
        got = ask(k, g, 'polygon', [border, holes], num)
        label = '%s %s' % (name_of(k, 'polygon'), got)
        b = ask(k, g, 'region', border, num) if (
            (k, 'region') in FUNCTIONS) else ask(k, g, 'polygon',
                                                 [border, []], num)
        if not holes:
            return (None, label) if got == b else (
                fail('polygon without holes', b, got), label)
        if (k, 'multiregion') in FUNCTIONS:
            h = ask(k, g, 'multiregion', holes, num)
        else:
            h = complement(ask('multiregion', holes, k, g, num))
        label = '%s %s %s' % (k, b, h)
        if k == 'point':
            allowed = ('EXTERIOR' if b == 'EXTERIOR' or h == 'INTERIOR' else
                       'INTERIOR' if b == 'INTERIOR' and h == 'EXTERIOR'
                       else 'BOUNDARY',)
        elif k in AREAL:
            allowed = areal_in_difference(b, h)
        else:
            allowed = linear_in_difference(b, h, k != 'multisegment')
        if got not in allowed:
            return fail('%s which is %s to border and %s to holes' % (
                name_of(k, 'polygon'), b, h), one(allowed), got), label
        return None, label


# parts which are apart ------------------------------------------------------

MULTI = {'segment': 'multisegment', 'multisegment': 'multisegment',
         'contour': 'multisegment', 'region': 'multiregion',
         'multiregion': 'multiregion', 'polygon': 'multipolygon',
         'multipolygon': 'multipolygon'}
PART = {'multisegment': ('segment', 'multisegment'),
        'multiregion': ('region', 'multiregion'),
        'multipolygon': ('region', 'polygon', 'multipolygon')}


def as_multi(k, g):
    m = MULTI[k]
    if k == 'segment':
        return [g]
    if k == 'contour':
        return [[g[i - 1], g[i]] for i in range(len(g))]
    if k in ('region', 'polygon'):
        return [g]
    return list(g)


def with_extra(k, g, kz, gz):
    m = MULTI[k]
    z = as_multi(kz, gz)
    if m == 'multipolygon' and kz in ('region', 'multiregion'):
        z = [[r, []] for r in z]
    return m, as_multi(k, g) + z


EXTRA_RIGHT_AREAL = {'EQUAL': 'COMPONENT', 'COVER': 'OVERLAP',
                     'ENCLOSES': 'OVERLAP', 'COMPOSITE': 'OVERLAP'}
EXTRA_LEFT_LINEAR = {'WITHIN': 'CROSS', 'ENCLOSED': 'CROSS',
                     'COMPONENT': 'TOUCH'}


@register
class P26(Prop):
    id = 'P26'
    cases = {'quick': 70000, 'thorough': 1750000}
    title = 'parts which are apart from everything'
    rule = (MEET + 'a part disjoint from both arguments (in a hole, in a '
            'notch, between or far away) is added to one of them; '
            'non-trivial when the bounding box of the part meets a bounding '
            'box of one of arguments')

    def gen(self, r):
        k1, k2 = r.choice(PAIRS)
        c = gen.raw_case(r, k1, k2)
        if c is None:
            return None
        side = r.randrange(2)
        if (k1, k2)[side] == 'contour' and (k1, k2)[1 - side] == 'contour':
            # becomes multisegment_in_contour of the converse one
            side = 0
        m = MULTI[(k1, k2)[side]]
        kz = r.choice(PART[m])
        for _ in range(6):
            z = self.extra(r, kz, (k1, k2), c)
            if z is None or gen.too_small(kz, z):
                continue
            pairs = gen.normalize([(k1, c[0]), (k2, c[1]), (kz, z)])
            if self.apart(pairs):
                break
        else:
            return None
        if r.random() < .5:
            mm, t = gen.rand_matrix(r), gen.rand_shift(r)
            pairs = [(k, gen.map_points(
                k, g, lambda p: gen.apply_matrix(mm, t, p)))
                for k, g in pairs]
        return {'k': [k for k, _ in pairs], 'g': [g for _, g in pairs],
                'side': side, 'aux': r.randrange(10 ** 9)}

    @staticmethod
    def extra(r, kz, ks, gs):
        """A geometry of kind ``kz`` likely to be apart from given ones."""
        if kz in LINEAR:
            pool = gen.grid_points(r, 3, 3)
            z = (list(r.sample(pool, 2)) if kz == 'segment'
                 else gen.multisegment(r, pool, r.randrange(2, 5)))
        else:
            z = gen.free_areal(r, kz, gen.grid_points(r, 2, 2))
        if z is None:
            return None
        i = r.randrange(2)
        pts = gen.points_of(ks[0], gs[0]) + gen.points_of(ks[1], gs[1])
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        lx, hx, ly, hy = min(xs), max(xs), min(ys), max(ys)
        k = Fraction(max(hx - lx, hy - ly, 1),
                     gen.S * r.choice((2, 10, 10, 40, 40, 150)))
        if r.random() < .6:
            # near a corner or an edge of a ring
            segs = gen.segs_of(ks[i], gs[i])
            p, q = r.choice(segs)
            m = gen.between(r, p, q) if r.random() < .5 else p
            e = Fraction(r.choice((1, 2, 4)), r.choice((8, 20, 50)))
            dst = (m[0] + (hx - lx) * e * r.choice((-1, 1)),
                   m[1] + (hy - ly) * e * r.choice((-1, 1)))
        else:
            n = r.choice((2, 4, 4, 8))
            far = r.choice((0, 0, 0, 2))
            dst = (lx + Fraction((hx - lx) * r.randrange(-far, n + 1 + far),
                                 n),
                   ly + Fraction((hy - ly) * r.randrange(-far, n + 1 + far),
                                 n))
        src = r.choice(gen.points_of(kz, z))
        return gen.map_points(kz, z, lambda p: (
            gen._int(dst[0] + (p[0] - src[0]) * k),
            gen._int(dst[1] + (p[1] - src[1]) * k)))

    @staticmethod
    def apart(pairs):
        """Is the third one disjoint from the others?"""
        (k1, g1), (k2, g2), (kz, z) = pairs
        for k, g in ((k1, g1), (k2, g2)):
            if kz in AREAL:
                if k in AREAL:
                    if geom.relate(kz, z, k, g) != 'DISJOINT':
                        return False
                elif geom.relate(k, g, kz, z) != 'DISJOINT':
                    return False
            elif geom.relate(kz, z, k, g) != 'DISJOINT':
                return False
        return True

    def valid(self, case):
        return (Prop.valid(self, case)
                and self.apart(list(zip(case['k'], case['g']))))

    def check(self, case):
        (k1, k2, kz), (g1, g2, z) = case['k'], case['g']
        base = ask(k1, g1, k2, g2)
        label = '%s %s side %d' % (name_of(k1, k2), base, case['side'])
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        r = random.Random(case['aux'])
        expected = base
        if case['side'] == 0:
            m, g = with_extra(k1, g1, kz, z)
            g = gen.scramble(r, m, g)
            if gen.too_small(m, g):
                return None, label
            if k1 in LINEAR and k2 in AREAL:
                expected = EXTRA_LEFT_LINEAR.get(base, base)
            else:
                expected = complement(
                    EXTRA_RIGHT_AREAL.get(complement(base),
                                          complement(base)))
            pairs = (m, g, k2, g2)
        else:
            m, g = with_extra(k2, g2, kz, z)
            g = gen.scramble(r, m, g)
            expected = EXTRA_RIGHT_AREAL.get(base, base)
            pairs = (k1, g1, m, g)
        a, ga, b, gb = pairs
        if (a, b) not in FUNCTIONS:
            a, ga, b, gb = b, gb, a, ga
            expected = complement(expected)
        if (a, b) not in FUNCTIONS:
            return None, label
        got = ask(a, ga, b, gb)
        if got != expected:
            return fail('%s (%s before) with a part apart' % (
                name_of(a, b), base), expected, got, whole=[ga, gb]), label
        return None, label

    def nontrivial(self, case, label):
        ps = list(zip(case['k'], case['g']))
        return boxes_meet(ps[2], ps[0]) or boxes_meet(ps[2], ps[1])


# small moves ----------------------------------------------------------------

def near_answers(k1, k2, a):
    """Answers which are possible after any small enough move of arguments
    related as ``a``: whatever is true of open sets (interiors meet, a part
    is outside of another argument or inside of its interior, paths pass
    through each other, everything is apart) stays true; None if nothing of
    it decides."""
    if k1 == 'point':
        return None if a == 'BOUNDARY' else (a,)
    if a in ('DISJOINT', 'WITHIN', 'COVER'):
        return a,
    if a in ('COMPOSITE', 'ENCLOSES'):
        back = near_answers(k2, k1, complement(a))
        return back and tuple(complement(b) for b in back)
    if k2 in AREAL and k1 in AREAL:
        return {'TOUCH': ('DISJOINT', 'TOUCH', 'OVERLAP'),
                'OVERLAP': ('OVERLAP',),
                'ENCLOSED': ('OVERLAP', 'COMPONENT', 'ENCLOSED', 'WITHIN'),
                'COMPONENT': ('OVERLAP', 'COMPONENT', 'ENCLOSED', 'WITHIN'),
                'EQUAL': ('OVERLAP', 'COMPONENT', 'ENCLOSED', 'WITHIN',
                          'EQUAL', 'COMPOSITE', 'ENCLOSES', 'COVER')}[a]
    if k2 in AREAL:
        return {'CROSS': ('CROSS',), 'TOUCH': ('DISJOINT', 'TOUCH', 'CROSS'),
                'ENCLOSED': ('CROSS', 'ENCLOSED', 'WITHIN'),
                'COMPONENT': None}[a]
    apart = ('DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP')
    return {'CROSS': ('CROSS', 'OVERLAP'), 'TOUCH': apart, 'OVERLAP': apart,
            'COMPONENT': apart + ('COMPONENT',), 'EQUAL': None}[a]


@register
class P29(Pairwise):
    id = 'P29'
    cases = {'quick': 60000, 'thorough': 1500000}
    title = 'stability under small moves'
    rule = (MEET + 'arguments are moved by less than any gap between things '
            'apart (shifts, near-identity linear maps, noise added to every '
            'vertex); the answers before and after have to agree on open '
            'conditions; non-trivial when these restrict the answer and '
            'bounding boxes of arguments meet')

    def gen(self, r):
        k1, k2 = self.pick(r)
        c = gen.case(r, k1, k2, plain=True)
        if c is None:
            return None
        return {'k': [k1, k2], 'g': list(c), 'aux': r.randrange(10 ** 9)}

    def nontrivial(self, case, label):
        return (Pairwise.nontrivial(self, case, label)
                and not label.endswith(' any'))

    @staticmethod
    def moved(r, k, g, scale):
        """Valid geometry near to the scaled one."""
        def go(f):
            return gen.map_points(k, g, f)
        t = r.random()
        small = r.choice((1, 2, 9))
        e = [r.randrange(-small, small + 1) for _ in range(6)]
        if t < .3:
            return go(lambda p: (p[0] * scale + e[0], p[1] * scale + e[1]))
        if t < .6:
            return go(lambda p: (
                p[0] * scale + e[0] + e[1] * p[0] + e[2] * p[1],
                p[1] * scale + e[3] + e[4] * p[0] + e[5] * p[1]))
        noise = {}
        h = go(lambda p: tuple(
            v * scale + d for v, d in zip(p, noise.setdefault(
                tuple(p), (r.randrange(-small, small + 1),
                           r.randrange(-small, small + 1))))))
        if k == 'point' or geom.valid(k, h):
            return h
        return go(lambda p: (p[0] * scale + e[0], p[1] * scale + e[1]))

    def check(self, case):
        (k1, k2), (g1, g2) = case['k'], case['g']
        base = ask(k1, g1, k2, g2)
        label = '%s %s' % (name_of(k1, k2), base)
        if base.startswith('!'):
            return fail(name_of(k1, k2), 'an answer', base), label
        allowed = near_answers(k1, k2, base)
        if allowed is None:
            return None, label + ' any'
        size = 2 + max(abs(v) for k, g in zip((k1, k2), (g1, g2))
                       for p in gen.points_of(k, g) for v in p)
        # parts of an overlay of lattice geometries have sides and heights of
        # size ** -7 or more
        scale = 10 ** 5 * size ** 8
        r = random.Random(case['aux'])
        for _ in range(3):
            h1, h2 = (self.moved(r, k, g, scale)
                      if r.random() < .8 else
                      gen.map_points(k, g, lambda p: (p[0] * scale,
                                                      p[1] * scale))
                      for k, g in ((k1, g1), (k2, g2)))
            num = r.choice((('int', 1), ('int', 1), ('frac', scale)))
            got = ask(k1, h1, k2, h2, num)
            if got not in allowed:
                return fail('%s after a small move' % name_of(k1, k2),
                            one(allowed), got, moved=[h1, h2],
                            numbers=list(num), before=base), label
        return None, label
