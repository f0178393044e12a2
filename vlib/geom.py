"""Reference model: exact planar set relations over integer coordinates.

Nothing here uses sweeping, ordering of events or any code of the library
under test: every answer is obtained by splitting edges at all of their
pairwise intersections (quadratic, integer arithmetic only) and by classifying
midpoints of the resulting pieces, i.e. straight from set-theoretic
definitions of ``ground.base.Location`` / ``ground.base.Relation``.

Geometries are plain JSON-able values over integer points:
    point         (x, y)
    segment       [p, q]
    multisegment  [segment, ...]
    contour       [p, ...]            (also region)
    multiregion   [contour, ...]
    polygon       [border, [hole, ...]]
    multipolygon  [polygon, ...]
"""
from math import gcd, lcm

EXT, BND, INT = 0, 1, 2
(DISJOINT, TOUCH, CROSS, OVERLAP, COVER, ENCLOSES, COMPOSITE, EQUAL,
 COMPONENT, ENCLOSED, WITHIN) = RELATIONS = (
    'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER', 'ENCLOSES', 'COMPOSITE',
    'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN')
LOCATIONS = ('EXTERIOR', 'BOUNDARY', 'INTERIOR')
COMPLEMENT = {COVER: WITHIN, WITHIN: COVER, ENCLOSES: ENCLOSED,
              ENCLOSED: ENCLOSES, COMPOSITE: COMPONENT, COMPONENT: COMPOSITE}

LINEAR = ('segment', 'multisegment', 'contour')
AREAL = ('region', 'multiregion', 'polygon', 'multipolygon')


def complement(relation):
    return COMPLEMENT.get(relation, relation)


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def area2(vertices):
    s = 0
    px, py = vertices[-1]
    for x, y in vertices:
        s += px * y - x * py
        px, py = x, y
    return s


def ring_edges(vertices, ccw=True):
    """Directed edges of the ring, interior of the ring on the left
    (on the right if not ``ccw``)."""
    vs = vertices if (area2(vertices) > 0) is ccw else vertices[::-1]
    n = len(vs)
    return [(vs[i][0], vs[i][1], vs[(i + 1) % n][0], vs[(i + 1) % n][1])
            for i in range(n)]


def areal_edges(kind, g):
    if kind == 'region':
        return ring_edges(g)
    if kind == 'multiregion':
        return [e for r in g for e in ring_edges(r)]
    if kind == 'polygon':
        return ring_edges(g[0]) + [e for h in g[1]
                                   for e in ring_edges(h, False)]
    if kind == 'multipolygon':
        return [e for p in g for e in areal_edges('polygon', p)]
    raise ValueError(kind)


def linear_edges(kind, g):
    if kind == 'segment':
        return [(g[0][0], g[0][1], g[1][0], g[1][1])]
    if kind == 'multisegment':
        return [(p[0], p[1], q[0], q[1]) for p, q in g]
    if kind == 'contour':
        return [(g[i - 1][0], g[i - 1][1], g[i][0], g[i][1])
                for i in range(len(g))]
    raise ValueError(kind)


def edges_of(kind, g):
    return linear_edges(kind, g) if kind in LINEAR else areal_edges(kind, g)


def on_edge(X, Y, W, e):
    """Is homogeneous point (X/W, Y/W), W > 0, on closed segment e?"""
    ax, ay, bx, by = e
    if (bx - ax) * (Y - ay * W) != (by - ay) * (X - ax * W):
        return False
    ax *= W
    bx *= W
    if ax > bx:
        ax, bx = bx, ax
    if not ax <= X <= bx:
        return False
    ay *= W
    by *= W
    if ay > by:
        ay, by = by, ay
    return ay <= Y <= by


def on_any(X, Y, W, edges):
    for e in edges:
        if on_edge(X, Y, W, e):
            return True
    return False


def locate(X, Y, W, edges):
    """Location of a homogeneous point relative to the closed set bounded by
    ``edges`` (even-odd rule)."""
    inside = False
    for ax, ay, bx, by in edges:
        cr = (bx - ax) * (Y - ay * W) - (by - ay) * (X - ax * W)
        ayw, byw = ay * W, by * W
        if cr == 0:
            axw, bxw = ax * W, bx * W
            if ((axw <= X <= bxw or bxw <= X <= axw)
                    and (ayw <= Y <= byw or byw <= Y <= ayw)):
                return BND
        if (ayw > Y) != (byw > Y) and ((cr > 0) == (by > ay)):
            inside = not inside
    return INT if inside else EXT


def locate_point(kind, g, p):
    if kind in LINEAR:
        return BND if on_any(p[0], p[1], 1, linear_edges(kind, g)) else EXT
    return locate(p[0], p[1], 1, areal_edges(kind, g))


def split(e, others):
    """Parameters at which closed segment e has to be cut by ``others`` so
    that every open piece is homogeneous.  Returns (L, sorted ks, touched),
    parameter of a cut being k / L, 0 and L always included; ``touched`` is
    the set of ks which belong to some of the ``others`` isolatedly or as
    an end of a common piece."""
    ax, ay, bx, by = e
    dx, dy = bx - ax, by - ay
    ps = []
    dd = dx * dx + dy * dy
    minx, maxx = (ax, bx) if ax < bx else (bx, ax)
    miny, maxy = (ay, by) if ay < by else (by, ay)
    for cx, cy, ex, ey in others:
        if (cx < minx and ex < minx or cx > maxx and ex > maxx
                or cy < miny and ey < miny or cy > maxy and ey > maxy):
            continue
        fx, fy = ex - cx, ey - cy
        den = dx * fy - dy * fx
        wx, wy = cx - ax, cy - ay
        if den == 0:
            if wx * dy != wy * dx:
                continue
            for px, py in ((cx, cy), (ex, ey)):
                n = (px - ax) * dx + (py - ay) * dy
                if 0 <= n <= dd:
                    ps.append((n, dd))
            # ends of e on the other one are checked by the caller through
            # ``on_any``
        else:
            n = wx * fy - wy * fx
            m = wx * dy - wy * dx
            if den < 0:
                den, n, m = -den, -n, -m
            if 0 <= n <= den and 0 <= m <= den:
                ps.append((n, den))
    red = set()
    for n, d in ps:
        g = gcd(n, d)
        red.add((n // g, d // g))
    L = 1
    for _, d in red:
        L = lcm(L, d)
    ks = {n * (L // d) for n, d in red}
    touched = set(ks)
    ks.add(0)
    ks.add(L)
    return L, sorted(ks), touched


def linear_in_areal(ledges, aedges):
    has_int = has_bnd_piece = has_ext = touches = False
    all_bnd = True
    for e in ledges:
        ax, ay, bx, by = e
        dx, dy = bx - ax, by - ay
        L, ks, touched = split(e, aedges)
        if touched:
            touches = True
        M = 2 * L
        prev = ks[0]
        for k in ks[1:]:
            m = prev + k
            loc = locate(ax * M + dx * m, ay * M + dy * m, M, aedges)
            if loc == INT:
                has_int = True
                all_bnd = False
            elif loc == EXT:
                has_ext = True
                all_bnd = False
            else:
                has_bnd_piece = True
            prev = k
    touches = touches or has_bnd_piece
    if has_ext:
        if has_int:
            return CROSS
        return TOUCH if touches else DISJOINT
    if all_bnd:
        return COMPONENT
    return ENCLOSED if touches else WITHIN


def half(d):
    return 0 if d[1] > 0 or d[1] == 0 and d[0] > 0 else 1


def rays_at(X, Y, W, edges):
    """Directions (set, normalized) of edges emanating from the point."""
    res = set()
    for e in edges:
        if not on_edge(X, Y, W, e):
            continue
        ax, ay, bx, by = e
        for px, py in ((ax, ay), (bx, by)):
            if px * W != X or py * W != Y:
                dx, dy = px * W - X, py * W - Y
                g = gcd(dx, dy)
                res.add((dx // g, dy // g))
    return res


def interleave(r1, r2):
    """Do two disjoint sets of directions alternate around the vertex
    (i.e. there are a, c in r1 and b, d in r2 met in order a, b, c, d)?"""
    from functools import cmp_to_key

    def cmp(p, q):
        a, b = p[0], q[0]
        ha, hb = half(a), half(b)
        if ha != hb:
            return ha - hb
        c = a[0] * b[1] - a[1] * b[0]
        return -1 if c > 0 else (1 if c < 0 else 0)

    seq = sorted([(d, 0) for d in r1] + [(d, 1) for d in r2],
                 key=cmp_to_key(cmp))
    changes = sum(seq[i - 1][1] != seq[i][1] for i in range(len(seq)))
    return changes >= 4


def linear_in_linear(e1, e2):
    sub1 = sub2 = True
    overlap = False
    points = set()
    for edges, others, first in ((e1, e2, True), (e2, e1, False)):
        for e in edges:
            ax, ay, bx, by = e
            dx, dy = bx - ax, by - ay
            L, ks, touched = split(e, others)
            M = 2 * L
            prev = ks[0]
            for k in ks[1:]:
                m = prev + k
                if on_any(ax * M + dx * m, ay * M + dy * m, M, others):
                    overlap = True
                elif first:
                    sub1 = False
                else:
                    sub2 = False
                prev = k
            for k in touched:
                X, Y = ax * L + dx * k, ay * L + dy * k
                g = gcd(gcd(X, Y), L)
                points.add((X // g, Y // g, L // g))
    if sub1 and sub2:
        return EQUAL
    if sub1:
        return COMPONENT
    if sub2:
        return COMPOSITE
    if overlap:
        return OVERLAP
    if not points:
        return DISJOINT
    for X, Y, W in points:
        if interleave(rays_at(X, Y, W, e1), rays_at(X, Y, W, e2)):
            return CROSS
    return TOUCH


def areal_in_areal(e1, e2):
    ii = ie = ei = bb = False
    sub1 = sub2 = True  # boundary of one is a subset of boundary of another
    for edges, others, first in ((e1, e2, True), (e2, e1, False)):
        for e in edges:
            ax, ay, bx, by = e
            dx, dy = bx - ax, by - ay
            L, ks, touched = split(e, others)
            if touched:
                bb = True
            M = 2 * L
            prev = ks[0]
            for k in ks[1:]:
                m = prev + k
                X, Y = ax * M + dx * m, ay * M + dy * m
                loc = locate(X, Y, M, others)
                if loc == BND:
                    bb = True
                    for o in others:
                        if on_edge(X, Y, M, o):
                            if (o[2] - o[0]) * dx + (o[3] - o[1]) * dy > 0:
                                ii = True
                            else:
                                ie = ei = True
                else:
                    if first:
                        sub1 = False
                    else:
                        sub2 = False
                    if loc == INT:
                        ii = True
                        if first:
                            ei = True
                        else:
                            ie = True
                    elif first:
                        ie = True
                    else:
                        ei = True
                prev = k
    if not ii:
        return TOUCH if bb else DISJOINT
    if not ie and not ei:
        return EQUAL
    if not ie:
        return WITHIN if not bb else (COMPONENT if sub1 else ENCLOSED)
    if not ei:
        return COVER if not bb else (COMPOSITE if sub2 else ENCLOSES)
    return OVERLAP


def relate(k1, g1, k2, g2):
    """Relation of g1 to g2, as of ``<k1>_in_<k2>(g1, g2)``."""
    if k1 in AREAL:
        return areal_in_areal(areal_edges(k1, g1), areal_edges(k2, g2))
    e1 = linear_edges(k1, g1)
    if k2 in LINEAR:
        return linear_in_linear(e1, linear_edges(k2, g2))
    return linear_in_areal(e1, areal_edges(k2, g2))


# validity ------------------------------------------------------------------

def seg_relation(e, f):
    """'' if closed segments are disjoint, 'overlap' if they have a common
    piece, 'cross' if interiors meet in a point, 'touch' otherwise."""
    ax, ay, bx, by = e
    cx, cy, ex, ey = f
    o1 = orient((ax, ay), (bx, by), (cx, cy))
    o2 = orient((ax, ay), (bx, by), (ex, ey))
    o3 = orient((cx, cy), (ex, ey), (ax, ay))
    o4 = orient((cx, cy), (ex, ey), (bx, by))
    if o1 == o2 == 0:
        a, b = sorted(((ax, ay), (bx, by)))
        c, d = sorted(((cx, cy), (ex, ey)))
        lo, hi = max(a, c), min(b, d)
        return 'overlap' if lo < hi else ('touch' if lo == hi else '')
    if o1 * o2 < 0 and o3 * o4 < 0:
        return 'cross'
    if (o1 == 0 and on_edge(cx, cy, 1, e) or o2 == 0 and on_edge(ex, ey, 1, e)
            or o3 == 0 and on_edge(ax, ay, 1, f)
            or o4 == 0 and on_edge(bx, by, 1, f)):
        return 'touch'
    return ''


def valid_segment(s):
    return tuple(s[0]) != tuple(s[1])


def valid_multisegment(g):
    if not all(valid_segment(s) for s in g):
        return False
    es = linear_edges('multisegment', g)
    for i in range(len(es)):
        for j in range(i):
            if seg_relation(es[i], es[j]) in ('cross', 'overlap'):
                return False
    return bool(g)


def valid_contour(vs, strict=False):
    n = len(vs)
    if n < 3 or len({tuple(v) for v in vs}) != n:
        return False
    es = linear_edges('contour', vs)
    for i in range(n):
        for j in range(i):
            r = seg_relation(es[i], es[j])
            if r == '':
                continue
            adjacent = i - j == 1 or (j == 0 and i == n - 1)
            if not adjacent or r != 'touch':
                return False
            # adjacent ones share exactly one point
    if n == 3 and area2(vs) == 0:
        return False
    if strict and any(orient(vs[i - 2], vs[i - 1], vs[i]) == 0
                      for i in range(n)):
        return False
    return area2(vs) != 0


def _rings_meet_discretely(rings):
    es = [linear_edges('contour', r) for r in rings]
    for i in range(len(es)):
        for j in range(i):
            for e in es[i]:
                for f in es[j]:
                    if seg_relation(e, f) in ('cross', 'overlap'):
                        return False
    return True


def valid_multiregion(g):
    if not all(valid_contour(r) for r in g):
        return False
    for i in range(len(g)):
        for j in range(i):
            if areal_in_areal(ring_edges(g[i]),
                              ring_edges(g[j])) not in (DISJOINT, TOUCH):
                return False
    return _rings_meet_discretely(g)


def _connected_touches(rings):
    """Graph of rings and their common points has to be a forest, otherwise
    the interior is not connected."""
    from collections import defaultdict
    at = defaultdict(set)
    pts = [(i, tuple(v)) for i, r in enumerate(rings) for v in r]
    es = [linear_edges('contour', r) for r in rings]
    for i, v in pts:
        for j in range(len(rings)):
            if j != i and on_any(v[0], v[1], 1, es[j]):
                at[v].add(i)
                at[v].add(j)
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x

    for v, rs in at.items():
        for r in rs:
            a, b = find(('v', v)), find(r)
            if a == b:
                return False
            parent[a] = b
    return True


def valid_polygon(g, touching=True):
    border, holes = g
    if not valid_contour(border) or not valid_multiregion(holes):
        return False
    if not _rings_meet_discretely([border] + list(holes)):
        return False
    be = ring_edges(border)
    for h in holes:
        r = areal_in_areal(ring_edges(h), be)
        if r not in (WITHIN, ENCLOSED):
            return False
        if not touching and r == ENCLOSED:
            return False
    if not touching:
        for i in range(len(holes)):
            for j in range(i):
                if areal_in_areal(ring_edges(holes[i]),
                                  ring_edges(holes[j])) != DISJOINT:
                    return False
        return True
    return _connected_touches([border] + list(holes))


def valid_multipolygon(g, touching=True):
    if not all(valid_polygon(p, touching) for p in g):
        return False
    es = [areal_edges('polygon', p) for p in g]
    for i in range(len(g)):
        for j in range(i):
            if areal_in_areal(es[i], es[j]) not in (DISJOINT, TOUCH):
                return False
            for e in es[i]:
                for f in es[j]:
                    if seg_relation(e, f) in ('cross', 'overlap'):
                        return False
    return True


VALID = {'segment': valid_segment, 'multisegment': valid_multisegment,
         'contour': valid_contour, 'region': valid_contour,
         'multiregion': valid_multiregion, 'polygon': valid_polygon,
         'multipolygon': valid_multipolygon,
         'point': lambda p: True}


def valid(kind, g):
    return VALID[kind](g)
