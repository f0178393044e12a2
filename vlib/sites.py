"""Pairs built of a common plan: a grid of sites, each with a menu of rings
that coincide, nest, overlap or touch, and frames around groups of sites.

Both geometries make their choices from the same plan, so every combination
"frames are related so, rings of the sites are related so" is equally easy to
get: holes equal to, inside of, around, across or touching other holes, parts
filling holes, borders passing through or around holes and so on."""
from __future__ import annotations

from . import geom

PITCH = 12


def _rect(a, b, c, d):
    return [(a, b), (c, b), (c, d), (a, d)]


FULL = _rect(1, 1, 7, 7)
INNER = _rect(2, 2, 6, 6)
LEFT = _rect(1, 1, 4, 7)
RIGHT = _rect(4, 1, 7, 7)
LOW = [(1, 1), (7, 1), (4, 4)]
HIGH = [(1, 7), (7, 7), (4, 4)]
DIAMOND = [(1, 4), (4, 2), (6, 4), (4, 6)]
BIG_DIAMOND = [(1, 4), (4, 1), (7, 4), (4, 7)]
SHIFTED = _rect(4, 4, 8, 8)
TINY = _rect(3, 3, 4, 4)
TINY2 = _rect(5, 5, 6, 6)
TINY3 = _rect(4, 4, 5, 5)  # touches both previous ones
STRIP = _rect(1, 1, 3, 7)
STRIP2 = _rect(5, 1, 7, 7)
ANGLE = [(1, 1), (7, 1), (7, 7), (4, 7), (4, 4), (1, 4)]
CORNER = _rect(1, 4, 4, 7)  # complements ANGLE up to FULL
BRIDGE = _rect(0, 3, 8, 5)
HALF = [(1, 1), (7, 1), (7, 7)]
HALF2 = [(1, 1), (7, 7), (1, 7)]
FULL_PLUS = [(1, 1), (4, 1), (7, 1), (7, 4), (7, 7), (1, 7)]
SPIKE = [(1, 1), (7, 1), (7, 7), (4, 3), (1, 7)]  # FULL without a notch
NOTCH = [(1, 7), (4, 3), (7, 7)]

CORE = _rect(3, 3, 5, 5)
CHAIN = [[FULL], [INNER], [CORE], [[(4, 3), (5, 4), (4, 5)]]]

# sets of rings which may be parts of one geometry
OPTIONS = [
    [FULL], [FULL], [FULL], [INNER], [INNER], [LEFT], [RIGHT], [LOW], [HIGH],
    [LOW, HIGH], [DIAMOND], [BIG_DIAMOND], [SHIFTED], [TINY], [TINY2],
    [TINY, TINY2], [TINY, TINY3], [TINY, TINY3, TINY2], [STRIP],
    [STRIP, STRIP2], [ANGLE], [CORNER], [CORNER, TINY3], [BRIDGE], [HALF],
    [HALF2], [FULL_PLUS], [SPIKE], [NOTCH]]
# polygons within a site
POLYGONS = ([[o[0], []] for o in OPTIONS]
            + [[FULL, [INNER]], [FULL, [INNER]], [FULL, [TINY]],
               [FULL, [TINY, TINY2]], [FULL, [TINY, TINY3]],
               [FULL, [DIAMOND]], [INNER, [TINY]], [INNER, [TINY3]],
               [FULL, [TINY3]], [BIG_DIAMOND, [TINY]],
               [INNER, [[(2, 2), (4, 3), (3, 4)]]],
               [FULL_PLUS, [[(4, 1), (5, 3), (3, 3)]]],
               [ANGLE, [_rect(5, 2, 6, 3)]]])
# polygons which fill INNER as a hole
FILLERS = [[INNER, []], [INNER, []], [INNER, [TINY]], [TINY, []], [TINY2, []],
           [[(2, 2), (6, 2), (4, 4)], []], [[(2, 2), (6, 2), (6, 6)], []],
           [[(2, 4), (4, 3), (5, 4), (4, 5)], []],
           [_rect(2, 2, 4, 6), []]]


class Plan:
    def __init__(self, r):
        self.r = r
        self.nx, self.ny = r.choice(((1, 1), (1, 1), (2, 1), (2, 1), (1, 2),
                                     (2, 2), (3, 1)))
        self.sites = [(i, j) for i in range(self.nx) for j in range(self.ny)]
        self.base = {s: self.option() for s in self.sites}
        self.frame = self.rand_frame()
        if r.random() < .4:  # nested rings in all sites
            self.base = {s: CHAIN[1] for s in self.sites}
        self.loyal = r.choice((.3, .5, .7, .9))

    def option(self):
        return self.r.choice(OPTIONS)

    def choose(self, few=.25):
        """Options of the sites for one geometry."""
        r = self.r
        res = {}
        mode = r.random()
        if mode < .35 and self.base[self.sites[0]] is CHAIN[1]:
            # smaller or bigger ones than those of the plan
            o = CHAIN[r.choice((0, 2, 3))]
            return {s: o for s in self.sites
                    if r.random() > (.5 if few > .9 else few / 2)}
        for s in self.sites:
            if r.random() < few:
                continue
            res[s] = (self.base[s] if r.random() < self.loyal
                      else self.option())
        return res

    @staticmethod
    def at(s, ring):
        x, y = s[0] * PITCH, s[1] * PITCH
        return [(x + a, y + b) for a, b in ring]

    def rings(self, chosen):
        return [self.at(s, ring) for s, o in chosen.items() for ring in o]

    def rand_frame(self):
        r = self.r
        i0 = j0 = 0
        i1, j1 = self.nx - 1, self.ny - 1
        if r.random() < .25:
            i0, i1 = sorted((r.randrange(self.nx), r.randrange(self.nx)))
            j0, j1 = sorted((r.randrange(self.ny), r.randrange(self.ny)))
        m = r.choice((0, 1, 1, 1, 2))
        a, b = i0 * PITCH - m, j0 * PITCH - m
        c, d = i1 * PITCH + 8 + m, j1 * PITCH + 8 + m
        t = r.random()
        if t < .15:  # through sites of the first or the last column
            if r.random() < .5:
                a = i0 * PITCH + r.choice((1, 2, 4, 5, 7))
            else:
                c = i1 * PITCH + r.choice((1, 3, 4, 6, 7))
        elif t < .2:
            b = j0 * PITCH + r.choice((1, 2, 4, 5, 7))
        if a >= c or b >= d:
            return _rect(i0 * PITCH - 1, j0 * PITCH - 1, i1 * PITCH + 9,
                         j1 * PITCH + 9)
        ring = _rect(a, b, c, d)
        t = r.random()
        if t < .15:  # reaches the left side of a site
            y = j0 * PITCH
            if b < y + 3 and y + 5 < d and a < i0 * PITCH + 1:
                ring = ring[:4] + [(a, y + 5), (i0 * PITCH + 1, y + 4),
                                   (a, y + 3)]
        elif t < .25:  # reaches a corner of FULL of the last site
            x, y = i1 * PITCH + 7, j1 * PITCH + 7
            if c > x and d > y:
                ring = [(a, b), (c, b), (c, d - 1 if d - 1 > b else d),
                        (x, y), (c - 1 if c - 1 > a else c, d), (a, d)]
        elif t < .35:
            ring = [(a, b), (c, b), (c, d - 1), (c - 1, d), (a, d)]
        elif t < .4:
            ring = [(a, b), (c, b), (c, d), ((a + c) // 2, d), (a, d)]
        return ring if geom.valid_contour(ring) else _rect(a, b, c, d)

    def some_frame(self):
        return self.frame if self.r.random() < .6 else self.rand_frame()

    def holes(self, border, rings):
        """Those of rings which are able to be holes."""
        res = []
        eb = geom.ring_edges(border)
        for ring in rings:
            if geom.areal_in_areal(geom.ring_edges(ring), eb) not in (
                    'WITHIN', 'ENCLOSED'):
                continue
            if geom.valid_polygon([border, res + [ring]]):
                res.append(ring)
        return res

    def polygon(self):
        r = self.r
        if r.random() < .3:
            s = r.choice(self.sites)
            b, hs = r.choice(POLYGONS)
            return [self.at(s, b), [self.at(s, h) for h in hs]]
        border = self.some_frame()
        return [border, self.holes(border, self.rings(
            self.choose(r.choice((0, .2, .5, 1)))))]

    def geometry(self, kind):
        r = self.r
        if kind in ('region', 'contour'):
            if r.random() < .55:
                return self.some_frame()
            return self.at(r.choice(self.sites), r.choice(self.option()))
        if kind == 'polygon':
            return self.polygon()
        if kind == 'multiregion':
            return self.multi(kind)
        if kind == 'multipolygon':
            return self.multi(kind)
        raise ValueError(kind)

    def multi(self, kind):
        """Parts: polygons of sites, a frame with holes, fillers of holes."""
        r = self.r
        res = []

        def add(p):
            if geom.valid('multipolygon', res + [p]):
                res.append(p)
        t = r.random()
        if kind == 'multiregion':
            for ring in self.rings(self.choose(.2)):
                add([ring, []])
            if r.random() < .25 or not res:
                add([self.some_frame(), []])
            r.shuffle(res)
            return [p[0] for p in res] or None
        if t < .6:
            p = self.polygon()
            add(p)
        for s in self.sites:
            if r.random() < .3:
                continue
            u = r.random()
            if u < .4:
                b, hs = r.choice(FILLERS)
            elif u < .7:
                b, hs = r.choice(POLYGONS)
            else:
                for ring in self.base[s]:
                    add([self.at(s, ring), []])
                continue
            add([self.at(s, b), [self.at(s, h) for h in hs]])
        if r.random() < .2:
            add([self.some_frame(), []])
        if r.random() < .2:  # aside
            x = self.nx * PITCH + r.choice((0, 3))
            add([_rect(x, 0, x + 4, 4), []])
        return res or None

    def lines(self):
        """Edges of everything in the plan."""
        rings = self.rings(self.choose(0)) + [self.frame]
        return [(q[i - 1], q[i]) for q in rings for i in range(len(q))]


def pair(r, k1, k2):
    """Pair of geometries, or Nones."""
    from . import gen
    plan = Plan(r)
    g2 = (plan.geometry(k2) if k2 in geom.AREAL or k2 == 'contour'
          else None)
    if g2 is None and k2 not in ('segment', 'multisegment'):
        return None, None
    if k1 in geom.AREAL or k1 == 'contour':
        g1 = plan.geometry(k1)
        if g1 is None:
            return None, None
        return g1, g2
    rings = gen.rings_of(k2, g2) + plan.rings(plan.choose(.3))
    pool = sorted({p for ring in rings for p in ring})
    s = r.choice(plan.sites)
    pool += [(s[0] * PITCH + r.randrange(9), s[1] * PITCH + r.randrange(9))
             for _ in range(6)]
    if k1 == 'point':
        return r.choice(pool), g2
    if k1 == 'segment':
        t = r.random()
        if t < .3:
            return gen.segment_from(r, k2, g2, pool), g2
        if t < .7:  # within a site
            near = sorted({p for p in pool
                           if 0 <= p[0] - s[0] * PITCH <= 8
                           and 0 <= p[1] - s[1] * PITCH <= 8})
            if len(near) > 1:
                return r.sample(near, 2), g2
        a, b = r.choice(pool), r.choice(pool)
        return (None, None) if a == b else ([a, b], g2)
    segs = []
    p = r.choice((.2, .5, .8, 1))
    for e in plan.lines():
        if r.random() < p and len(segs) < 16 and not any(
                gen._clash(e, f) for f in segs):
            segs.append(list(e))
    if r.random() < .3:
        segs = gen.multisegment(
            r, pool, len(segs) + r.randrange(1, 4), segs) or segs
    if not segs:
        return None, None
    return segs, g2
