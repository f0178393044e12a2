"""Structured generators of valid planar geometries over integer coordinates.

Everything is a pure function of the ``random.Random`` passed in.  The point
of the construction is coincidence: small lattices, shared meshes and pools of
points taken from the other operand make vertices meet vertices, vertices meet
edges, edges overlap partially and rings pinch, which independent sampling of
coordinates practically never does.
"""
from __future__ import annotations

from fractions import Fraction
from math import gcd, lcm

from . import geom, sites
from .geom import (orient, area2, seg_relation, valid_contour)

S = 12  # lattice step, so that edges have lattice points inside


# generic mapping ------------------------------------------------------------

def map_points(kind, g, f):
    if kind == 'point':
        return f(g)
    if kind in ('segment', 'contour', 'region'):
        return [f(p) for p in g]
    if kind == 'multisegment':
        return [[f(p), f(q)] for p, q in g]
    if kind == 'multiregion':
        return [[f(p) for p in r] for r in g]
    if kind == 'polygon':
        return [[f(p) for p in g[0]], [[f(p) for p in h] for h in g[1]]]
    if kind == 'multipolygon':
        return [map_points('polygon', p, f) for p in g]
    raise ValueError(kind)


def points_of(kind, g):
    res = []
    map_points(kind, g, res.append)
    return res


def rings_of(kind, g):
    if kind in ('contour', 'region'):
        return [g]
    if kind == 'multiregion':
        return list(g)
    if kind == 'polygon':
        return [g[0]] + list(g[1])
    if kind == 'multipolygon':
        return [r for p in g for r in [p[0]] + list(p[1])]
    return []


def segs_of(kind, g):
    if kind == 'point':
        return []
    if kind == 'segment':
        return [tuple(g)]
    if kind == 'multisegment':
        return [tuple(s) for s in g]
    return [(r[i - 1], r[i]) for r in rings_of(kind, g)
            for i in range(len(r))]


def normalize(pairs):
    """Scales geometries to integers without common divisor."""
    pts = [p for k, g in pairs for p in points_of(k, g)]
    d, rational = 1, False
    for p in pts:
        for v in p:
            if isinstance(v, Fraction):
                rational = True
                d = lcm(d, v.denominator)
    if rational:
        pairs = [(k, map_points(k, g, lambda p: (int(p[0] * d),
                                                 int(p[1] * d))))
                 for k, g in pairs]
        pts = [p for k, g in pairs for p in points_of(k, g)]
    c = 0
    for x, y in pts:
        c = gcd(c, gcd(x, y))
    if c > 1:
        pairs = [(k, map_points(k, g, lambda p: (p[0] // c, p[1] // c)))
                 for k, g in pairs]
    return pairs


# ring tools -----------------------------------------------------------------

def drop_collinear(ring):
    """Removes redundant vertices."""
    n = len(ring)
    res = [ring[i] for i in range(n)
           if orient(ring[i - 1], ring[i], ring[(i + 1) % n]) != 0]
    return res


def lattice_between(p, q):
    """Number of lattice steps of the segment."""
    dx, dy = q[0] - p[0], q[1] - p[1]
    return 1 if isinstance(dx, Fraction) or isinstance(dy, Fraction) \
        else gcd(dx, dy)


def between(r, p, q):
    """Random lattice (if any) point strictly inside the segment."""
    n = lattice_between(p, q)
    if n > 1:
        # prefer "round" places
        if n % 2 == 0 and r.random() < .5:
            k = n // 2
        else:
            k = r.randrange(1, n)
        return (p[0] + (q[0] - p[0]) // n * k, p[1] + (q[1] - p[1]) // n * k)
    d = r.choice((2, 2, 3, 4))
    k = r.randrange(1, d)
    x = p[0] + Fraction((q[0] - p[0]) * k, d)
    y = p[1] + Fraction((q[1] - p[1]) * k, d)
    return (_int(x), _int(y))


def _int(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return v


def line_cut(p, q, a, b):
    """Intersection point of segments, if it is a single inner one."""
    dx, dy = q[0] - p[0], q[1] - p[1]
    fx, fy = b[0] - a[0], b[1] - a[1]
    den = dx * fy - dy * fx
    if den == 0:
        return None
    t = Fraction((a[0] - p[0]) * fy - (a[1] - p[1]) * fx, den)
    u = Fraction((a[0] - p[0]) * dy - (a[1] - p[1]) * dx, den)
    if not (0 <= t <= 1 and 0 <= u <= 1):
        return None
    return (_int(p[0] + dx * t), _int(p[1] + dy * t))


# pools ----------------------------------------------------------------------

def grid_points(r, w, h):
    return [(x * S, y * S) for x in range(w + 1) for y in range(h + 1)]


def pool_around(r, kind, g, extra=6):
    """Points related to a geometry: vertices, points on edges, inner and
    outer lattice points, reflections."""
    verts = points_of(kind, g)
    segs = segs_of(kind, g)
    pool = list(verts)
    for _ in range(min(len(segs), 4)):
        p, q = r.choice(segs)
        pool.append(between(r, p, q))
    xs = [p[0] for p in verts]
    ys = [p[1] for p in verts]
    lx, hx, ly, hy = min(xs), max(xs), min(ys), max(ys)
    for _ in range(extra):
        m = r.random()
        if m < .3:  # lattice of coordinates
            pool.append((r.choice(xs), r.choice(ys)))
        elif m < .55:  # middle of two
            p, q = r.choice(verts), r.choice(verts)
            if p != q:
                pool.append(between(r, p, q))
        elif m < .75:  # prolongation
            if segs:
                p, q = r.choice(segs)
                if r.random() < .5:
                    p, q = q, p
                pool.append((2 * q[0] - p[0], 2 * q[1] - p[1]))
        elif m < .85 and len(segs) > 1:
            p, q = r.choice(verts), r.choice(pool)
            a, b = r.choice(segs)
            c = line_cut(p, q, a, b)
            if c is not None:
                pool.append(c)
        else:
            pool.append((_around(r, lx, hx), _around(r, ly, hy)))
    return list(dict.fromkeys(pool))


def _around(r, lo, hi):
    d = S if isinstance(hi - lo, Fraction) else max(hi - lo, 1)
    st = r.choice((1, 2, 4))
    return lo + (d * r.randrange(-1, st + 2)) // st


# rings ----------------------------------------------------------------------

def ring(r, pool, n, strict=None):
    """Random simple ring, incremental insertion of pool points."""
    if strict is None:
        strict = r.random() < .8
    for _ in range(20):
        if len(pool) < 3:
            return None
        vs = r.sample(pool, 3)
        if orient(*vs) != 0:
            break
    else:
        return None
    fails = 0
    while len(vs) < n and fails < 12:
        p = r.choice(pool)
        if p in vs:
            fails += 1
            continue
        i = r.randrange(len(vs))
        a, b = vs[i - 1], vs[i]
        if _insertable(vs, i, p, strict):
            vs.insert(i, p)
        else:
            fails += 1
    return vs


def _insertable(vs, i, p, strict):
    n = len(vs)
    a, b = vs[i - 1], vs[i]
    e1 = (a[0], a[1], p[0], p[1])
    e2 = (p[0], p[1], b[0], b[1])
    if orient(a, p, b) == 0:
        if strict or seg_relation(e1, e2) != 'touch':
            return False
    for j in range(n):
        if j == i % n:
            continue
        c, d = vs[j - 1], vs[j]
        f = (c[0], c[1], d[0], d[1])
        rel = seg_relation(e1, f)
        if rel and not (rel == 'touch' and d == a
                        and not _more_than(e1, f, a)):
            return False
        rel = seg_relation(e2, f)
        if rel and not (rel == 'touch' and c == b
                        and not _more_than(e2, f, b)):
            return False
    if strict:
        new = vs[:i] + [p] + vs[i:]
        m = len(new)
        if any(orient(new[j - 2], new[j - 1], new[j]) == 0
               for j in range(m)):
            return False
    return True


def _more_than(e, f, p):
    """Segments which touch have some other than p common point (impossible
    for straight ones unless overlapping)."""
    return False


def convex_ring(r, pool):
    pts = sorted(set(r.sample(pool, min(len(pool), r.randrange(3, 9)))))
    if len(pts) < 3:
        return None

    def half_hull(ps):
        res = []
        for p in ps:
            while len(res) > 1 and orient(res[-2], res[-1], p) <= 0:
                res.pop()
            res.append(p)
        return res
    lo, hi = half_hull(pts), half_hull(pts[::-1])
    vs = lo[:-1] + hi[:-1]
    return vs if len(vs) > 2 else None


# meshes ---------------------------------------------------------------------

class Mesh:
    """Planar straight-line subdivision of a (possibly distorted) grid into
    triangles and quadrangles."""

    def __init__(self, r, w, h, diag=.5, jitter=0, cross=.1):
        self.w, self.h = w, h
        P = {}
        for i in range(w + 1):
            for j in range(h + 1):
                jx = r.randrange(-3, 4) if r.random() < jitter else 0
                jy = r.randrange(-3, 4) if r.random() < jitter else 0
                P[i, j] = (i * S + jx, j * S + jy)
        faces = []
        for i in range(w):
            for j in range(h):
                a, b, c, d = (P[i, j], P[i + 1, j], P[i + 1, j + 1],
                              P[i, j + 1])
                t = r.random()
                if t < cross:
                    # four triangles around intersection of diagonals
                    m = line_cut(a, c, b, d)
                    if m is None or isinstance(m[0], Fraction) or isinstance(
                            m[1], Fraction):
                        faces.append((a, b, c, d))
                    else:
                        faces += [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
                elif t < cross + diag / 2:
                    faces += [(a, b, c), (a, c, d)]
                elif t < cross + diag:
                    faces += [(a, b, d), (b, c, d)]
                else:
                    faces.append((a, b, c, d))
        self.faces = faces
        self.edge = {}
        for n, f in enumerate(faces):
            for k in range(len(f)):
                self.edge[f[k - 1], f[k]] = n
        self.nbr = [[self.edge[q, p] for p, q in zip(f, f[1:] + f[:1])
                     if (q, p) in self.edge] for f in faces]

    def blob(self, r, size, allowed=None):
        """Random connected (through edges) set of faces."""
        allowed = set(range(len(self.faces))) if allowed is None else allowed
        if not allowed:
            return set()
        start = r.choice(sorted(allowed))
        res, front = {start}, [start]
        while front and len(res) < size:
            k = r.randrange(len(front))
            f = front[k]
            cand = [n for n in self.nbr[f] if n in allowed and n not in res]
            if not cand:
                front.pop(k)
                continue
            n = r.choice(cand)
            res.add(n)
            front.append(n)
        return res

    def components(self, faces):
        left, res = set(faces), []
        for f in sorted(faces):
            if f not in left:
                continue
            left.discard(f)
            comp, stack = {f}, [f]
            while stack:
                for n in self.nbr[stack.pop()]:
                    if n in left:
                        left.discard(n)
                        comp.add(n)
                        stack.append(n)
            res.append(comp)
        return res

    def loops(self, faces):
        """Simple directed loops (interior to the left) bounding the set."""
        out = {}
        for n in sorted(faces):
            f = self.faces[n]
            for k in range(len(f)):
                p, q = f[k - 1], f[k]
                if self.edge.get((q, p)) not in faces:
                    out.setdefault(p, []).append(q)
        loops = []
        while out:
            p0 = min(out)
            prev, cur = p0, out[p0].pop()
            if not out[p0]:
                del out[p0]
            path = [p0]
            while True:
                # split off a simple loop when a vertex repeats
                if cur in path:
                    i = path.index(cur)
                    loops.append(path[i:])
                    path = path[:i]
                    if not path and cur not in out:
                        break
                if not path and cur == p0 and cur not in out:
                    break
                path.append(cur)
                if cur not in out:
                    break
                opts = out[cur]
                best = _leftmost(prev, cur, opts)
                opts.remove(best)
                if not opts:
                    del out[cur]
                prev, cur = cur, best
        return loops

    def polygon(self, comp):
        """Border and holes of a connected set of faces (None if borders are
        not simple)."""
        border, holes = None, []
        for lp in self.loops(comp):
            if area2(lp) > 0:
                if border is not None:
                    return None
                border = lp
            else:
                holes.append(lp)
        return None if border is None else [border, holes]

    def edges(self):
        return [(p, q) for (p, q) in self.edge
                if p < q or (q, p) not in self.edge]


def _leftmost(prev, cur, opts):
    if len(opts) == 1:
        return opts[0]
    from functools import cmp_to_key
    bx, by = prev[0] - cur[0], prev[1] - cur[1]  # back direction
    # the leftmost turn is the first ray met rotating clockwise from the back
    # direction

    def key(q):
        dx, dy = q[0] - cur[0], q[1] - cur[1]
        cr, dt = bx * dy - by * dx, bx * dx + by * dy
        return dx, dy, cr, dt

    def cmp(p, q):
        kp, kq = key(p), key(q)

        def halfpl(k):  # clockwise angle from back in (0, pi) first
            return 0 if k[2] < 0 else (1 if k[2] == 0 else 2)
        if halfpl(kp) != halfpl(kq):
            return halfpl(kp) - halfpl(kq)
        c = kp[0] * kq[1] - kp[1] * kq[0]
        return -1 if c < 0 else (1 if c > 0 else 0)
    return min(opts, key=cmp_to_key(cmp))


def rand_mesh(r):
    t = r.random()
    w, h = ((r.randrange(1, 4), r.randrange(1, 4)) if t < .5
            else (r.randrange(2, 5), r.randrange(2, 5)) if t < .9
            else (r.randrange(3, 6), r.randrange(3, 6)) if t < .98
        else (r.randrange(4, 9), r.randrange(4, 9)))
    return Mesh(r, w, h, diag=r.choice((0, .3, .7, .9)),
                jitter=r.choice((0, 0, 0, .3)),
                cross=r.choice((0, 0, .1, .3)))


def mesh_faces(r, mesh, base=None):
    """Random set of faces, possibly related to another one."""
    n = len(mesh.faces)
    every = set(range(n))
    if base and r.random() < .75:
        t = r.random()
        if t < .25:  # subset
            res = {f for f in base if r.random() < r.choice((.5, .8))}
        elif t < .35:
            res = mesh.blob(r, r.randrange(1, len(base) + 1), set(base))
        elif t < .5:  # superset
            res = set(base) | {f for f in every if r.random() < .3}
        elif t < .6:
            res = set(base)
            for f in sorted(base):
                if r.random() < .5:
                    res.update(mesh.nbr[f])
        elif t < .75:  # complement
            rest = every - set(base)
            res = {f for f in rest if r.random() < r.choice((.5, .9, 1))}
        elif t < .9:  # a few changes
            res = set(base)
            for _ in range(r.randrange(1, 3)):
                res ^= {r.randrange(n)}
        else:
            res = set(base)
        if res:
            return res
    t = r.random()
    if t < .4:
        res = mesh.blob(r, r.randrange(1, n + 1))
    elif t < .8:
        p = r.choice((.3, .5, .7, .85))
        res = {f for f in every if r.random() < p}
    else:
        res = every - mesh.blob(r, r.randrange(1, max(n // 2, 1) + 1))
    return res or {r.randrange(n)}


def polygons_of(mesh, faces):
    res = []
    for comp in mesh.components(faces):
        p = mesh.polygon(comp)
        if p is not None:
            res.append(p)
    return res


def simplify(r, kind, g, always=False):
    """Drops redundant vertices (mostly)."""
    def f(rg):
        if always or r.random() < .85:
            s = drop_collinear(rg)
            if len(s) > 2:
                return s
        return list(rg)
    if kind in ('contour', 'region'):
        return f(g)
    if kind == 'multiregion':
        return [f(x) for x in g]
    if kind == 'polygon':
        return [f(g[0]), [f(h) for h in g[1]]]
    if kind == 'multipolygon':
        return [simplify(r, 'polygon', p, always) for p in g]
    return g


def areal_from_faces(r, kind, mesh, faces):
    polys = polygons_of(mesh, faces)
    if not polys:
        return None
    if kind in ('region', 'contour'):
        p = r.choice(polys)
        if p[1] and r.random() < .4:
            g = r.choice(p[1])
        else:
            g = p[0]
    elif kind == 'polygon':
        g = max(polys, key=lambda p: len(p[1])) if r.random() < .5 \
            else r.choice(polys)
    elif kind == 'multipolygon':
        g = polys[:6]
        r.shuffle(g)
    else:
        if r.random() < .2:
            p = max(polys, key=lambda p: len(p[1]))
            g = list(p[1])[:6] or [p[0]]
        else:
            g = []
            for comp in mesh.components(faces):
                p = mesh.polygon(comp)
                if p is None:
                    continue
                if not p[1] or not g:
                    g.append(p)
            # borders only; nested ones are discarded
            out = []
            for p in g:
                e = geom.ring_edges(p[0])
                if all(geom.areal_in_areal(e, geom.ring_edges(o))
                       in ('DISJOINT', 'TOUCH') for o in out):
                    out.append(p[0])
            g = out[:6]
        r.shuffle(g)
    return simplify(r, kind, g)


def free_areal(r, kind, pool, depth=0):
    """Areal geometry with vertices from the pool."""
    n = r.choice((3, 3, 4, 4, 5, 6, 7, 9))
    b = convex_ring(r, pool) if r.random() < .25 else ring(r, pool, n)
    if b is None:
        return None
    if kind in ('region', 'contour'):
        return b
    if kind == 'polygon':
        holes = []
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            inner = [p for p in pool
                     if geom.locate(*_hom(p), geom.ring_edges(b)) != geom.EXT]
            for _ in range(5):
                es = geom.ring_edges(b)
                extra = []
                for _ in range(6):
                    p, q = r.choice(b), r.choice(b)
                    if p != q:
                        m = between(r, p, q)
                        if geom.locate(*_hom(m), es) == geom.INT:
                            extra.append(m)
                for _ in range(3):
                    if len(extra) > 1:
                        p, q = r.sample(extra, 2)
                        if p != q:
                            extra.append(between(r, p, q))
                hole = ring(r, list(dict.fromkeys(inner + extra)),
                            r.choice((3, 3, 4, 5)))
                if hole is None:
                    break
                if valid_fr('polygon', [b, holes + [hole]]):
                    holes.append(hole)
                    break
        return [b, holes]
    parts = []
    for _ in range(r.choice((1, 2, 2, 3, 4))):
        for _ in range(4):
            g = free_areal(r, 'region' if kind == 'multiregion'
                           else 'polygon', pool, 1)
            if g is not None and valid_fr(kind, parts + [g]):
                parts.append(g)
                break
    return parts or None


def _hom(p):
    x, y = Fraction(p[0]), Fraction(p[1])
    w = lcm(x.denominator, y.denominator)
    return int(x * w), int(y * w), w


def valid_fr(kind, g):
    (_, h), = normalize([(kind, g)])
    return geom.VALID[kind](h)


# linear ---------------------------------------------------------------------

def _clash(s, t):
    return seg_relation((s[0][0], s[0][1], s[1][0], s[1][1]),
                        (t[0][0], t[0][1], t[1][0], t[1][1])) in ('cross',
                                                                  'overlap')


def multisegment(r, pool, n, segs=()):
    res = []
    cand = list(segs)
    r.shuffle(cand)
    for s in cand:
        if len(res) < n and not any(_clash(s, t) for t in res):
            res.append(s)
    fails = 0
    hub = r.choice(pool) if pool and r.random() < .3 else None
    while len(res) < n and fails < 20 and len(pool) > 1:
        p, q = r.sample(pool, 2)
        if hub is not None and r.random() < .7:
            p = hub
        if p == q or any(_clash((p, q), t) for t in res):
            fails += 1
            continue
        res.append((p, q))
    return [list(s) for s in res] or None


def merge_collinear(r, segs, times):
    segs = [tuple(s) for s in segs]
    for _ in range(times):
        r.shuffle(segs)
        done = False
        for i in range(len(segs)):
            for j in range(i):
                for p, m in (segs[i], segs[i][::-1]):
                    for m2, q in (segs[j], segs[j][::-1]):
                        if (m == m2 and orient(p, m, q) == 0
                                and min(p, q) < m < max(p, q)):
                            rest = [s for k, s in enumerate(segs)
                                    if k not in (i, j)]
                            if not any(_clash((p, q), s) for s in rest):
                                segs = rest + [(p, q)]
                                done = True
                        if done:
                            break
                    if done:
                        break
                if done:
                    break
            if done:
                break
        if not done:
            break
    return [list(s) for s in segs]


def split_some(r, segs, prob):
    res = []
    for p, q in segs:
        if r.random() < prob:
            m = between(r, p, q)
            res += [[p, m], [m, q]]
        else:
            res.append([p, q])
    return res


def segment_from(r, other_kind, other, pool):
    segs = segs_of(other_kind, other)
    t = r.random()
    if segs and t < .35:  # along an edge
        p, q = r.choice(segs)
        if r.random() < .5:
            p, q = q, p
        ext = (2 * q[0] - p[0], 2 * q[1] - p[1])
        back = (2 * p[0] - q[0], 2 * p[1] - q[1])
        pts = [p, q, between(r, p, q), between(r, p, q), ext, back]
        # continue along collinear neighbours
        for a, b in segs:
            if orient(p, q, a) == 0 and orient(p, q, b) == 0:
                pts += [a, b]
        a, b = r.sample(pts, 2)
        if a != b:
            return [a, b]
    if segs and t < .65:  # through a vertex or a point of an edge
        v = r.choice(points_of(other_kind, other)) if r.random() < .7 \
            else between(r, *r.choice(segs))
        p = r.choice(pool)
        if p != v:
            m = r.choice((1, 1, 1, 2, 3))
            q = (v[0] + (v[0] - p[0]) * m, v[1] + (v[1] - p[1]) * m)
            u = r.random()
            if u < .5:
                return [p, q]
            return [p, v]
    if segs and t < .75:
        # both ends on boundary
        a = between(r, *r.choice(segs))
        b = between(r, *r.choice(segs)) if r.random() < .5 \
            else r.choice(points_of(other_kind, other))
        if a != b:
            return [a, b]
    for _ in range(10):
        a, b = r.choice(pool), r.choice(pool)
        if a != b:
            return [a, b]
    return None


def linear_from(r, kind, other_kind, other, pool, mesh=None):
    segs = segs_of(other_kind, other)
    if kind == 'segment':
        if mesh is not None and r.random() < .3:
            return list(r.choice(mesh.edges()))
        return segment_from(r, other_kind, other, pool)
    if kind == 'multisegment':
        t = r.random()
        if t < .15 and segs:  # boundary part
            g = [list(s) for s in segs
                 if r.random() < r.choice((.5, .9, 1))]
            if r.random() < .3:
                g = merge_collinear(r, g, 2)
        elif t < .3 and segs:  # boundary part and spurs
            g = multisegment(r, pool, r.randrange(1, 7),
                             [s for s in segs if r.random() < .5])
        elif t < .6 and mesh is not None:
            es = mesh.edges()
            k = r.choice((.1, .3, .6))
            g = [list(e) for e in es if r.random() < k][:14]
            if r.random() < .4 and g:
                g = merge_collinear(r, g, r.randrange(1, 6))
        elif t < .75:
            g = []
            for _ in range(r.randrange(1, 6)):
                s = segment_from(r, other_kind, other, pool)
                if s and not any(_clash(s, u) for u in g):
                    g.append(s)
        elif t < .85:
            rg = ring(r, pool, r.randrange(3, 8))
            g = [] if rg is None else [[rg[i - 1], rg[i]]
                                       for i in range(len(rg))]
            if r.random() < .5:
                g = g[:r.randrange(1, len(g) + 1)] if g else g
        else:
            g = multisegment(r, pool, r.randrange(1, 7))
        if g and r.random() < .25:
            g = split_some(r, g, .4)
        return g or None
    if kind == 'contour':
        t = r.random()
        rings = rings_of(other_kind, other)
        if t < .12 and rings:
            return list(r.choice(rings))
        if t < .3 and rings:  # changed copy
            g = list(r.choice(rings))
            for _ in range(r.randrange(1, 4)):
                u = r.random()
                if u < .5 and len(g) > 3:
                    h = list(g)
                    h.pop(r.randrange(len(h)))
                    if valid_fr('contour', h):
                        g = h
                else:
                    p = r.choice(pool)
                    i = r.randrange(len(g))
                    if p not in g and _insertable(g, i, p, False):
                        g.insert(i, p)
            return g
        if t < .55 and mesh is not None:
            return areal_from_faces(r, 'contour', mesh, mesh_faces(r, mesh))
        if t < .65:
            return convex_ring(r, pool)
        return ring(r, pool, r.randrange(3, 10))
    raise ValueError(kind)


def star(r, hub, dirs):
    """Segments going from / through the hub along given directions."""
    ds, segs, through = list(dirs), [], False
    while ds:
        d = ds.pop()
        opp = (-d[0], -d[1])
        k, m = r.choice((1, 1, 2, 3)), r.choice((1, 1, 2))
        p = (hub[0] + d[0] * k, hub[1] + d[1] * k)
        if opp in ds and not through and r.random() < .6:
            # no more than one of non-crossing segments goes through the hub
            through = True
            ds.remove(opp)
            segs.append([p, (hub[0] - d[0] * m, hub[1] - d[1] * m)])
        else:
            segs.append([hub, p])
    return segs


def star_pair(r, k1, k2):
    """Linear geometries sharing a hub."""
    lim = r.choice((1, 2, 2, 3))
    dirs = [(x, y) for x in range(-lim, lim + 1) for y in range(-lim, lim + 1)
            if gcd(x, y) == 1]
    n = r.randrange(2, min(9, len(dirs) + 1))
    if r.random() < .3:  # opposite directions are likely
        ds = []
        for d in r.sample(dirs, min(len(dirs), n)):
            ds += [d, (-d[0], -d[1])]
        ds = list(dict.fromkeys(ds))[:n]
    else:
        ds = r.sample(dirs, n)
    res = []
    k = r.randrange(1, len(ds))
    both = ds[k:] if r.random() < .8 else ds[k:] + ds[:1]
    for kind, part in ((k1, ds[:k]), (k2, both)):
        hub = (0, 0)
        if kind == 'contour':
            # triangle or quadrangle with a vertex / edge at the hub
            d1, d2 = (r.sample(dirs, 2) if len(part) < 2
                      else r.sample(part, 2))
            if d1[0] * d2[1] == d1[1] * d2[0]:
                o = r.choice([d for d in dirs
                              if d[0] * d1[1] != d[1] * d1[0]])
                g = [d1, d2, (o[0] * 9, o[1] * 9)]
            else:
                g = [hub, (d1[0] * 2, d1[1] * 2), (d2[0] * 3, d2[1] * 3)]
                if r.random() < .5:
                    # other side of the hub
                    g = [hub, g[1], (-(d1[0] + d2[0]) * 20 + d1[0],
                                     -(d1[1] + d2[1]) * 20 + d1[1]), g[2]]
            if not valid_contour(g):
                return None, None
        else:
            g = star(r, hub, part)
            if kind == 'segment':
                g = r.choice(g)
            elif r.random() < .2:
                far = r.choice(dirs)
                extra = [(far[0] * 5, far[1] * 5), (far[0] * 7, far[1] * 7)]
                if not any(_clash(extra, t) for t in g):
                    g.append(extra)
        res.append(g)
    return res


def chopped_pair(r, k1, k2):
    """Pieces of the same line (and spurs) against each other."""
    d = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-1, 2)])
    n = r.randrange(3, 9)
    at = [(d[0] * i, d[1] * i) for i in range(n + 1)]

    def pieces():
        cuts = sorted(r.sample(range(n + 1), r.randrange(2, min(n, 6) + 1)))
        ps = [[at[a], at[b]] for a, b in zip(cuts, cuts[1:])]
        t = r.random()
        if t < .4 and len(ps) > 1:
            ps.pop(r.randrange(len(ps)))
        for _ in range(r.choice((0, 0, 1, 2))):
            i = r.randrange(n + 1)
            o = (at[i][0] - d[1] * r.choice((1, -1, 2)),
                 at[i][1] + d[0] * r.choice((1, -1, 2)))
            sp = [at[i], o] if r.random() < .7 else [
                o, (2 * at[i][0] - o[0], 2 * at[i][1] - o[1])]
            if o != at[i] and not any(_clash(sp, s) for s in ps):
                ps.append(sp)
        r.shuffle(ps)
        return ps
    res = []
    for kind in (k1, k2):
        ps = pieces()
        if kind == 'segment':
            if r.random() < .5:
                ps = [r.choice(ps)]
            else:
                a, b = r.sample(at, 2)
                ps = [[a, b]]
            res.append(ps[0])
        else:
            res.append(ps)
    if k1 == k2 == 'multisegment' and r.random() < .25:
        res[0] = split_some(r, res[1], .5)
    return res


# pairs ----------------------------------------------------------------------

def affine_of(r, verts):
    """Small similarity maps fixing something of the geometry."""
    c = r.choice(verts)
    d = r.choice(verts)
    t = r.random()
    if t < .2:
        return lambda p: (2 * c[0] - p[0], 2 * c[1] - p[1])  # point reflection
    if t < .4:
        return lambda p: (p[0] + d[0] - c[0], p[1] + d[1] - c[1])
    if t < .55:
        k = r.choice((Fraction(1, 2), Fraction(1, 3), 2, 3))
        return lambda p: (_int(c[0] + (p[0] - c[0]) * k),
                          _int(c[1] + (p[1] - c[1]) * k))
    if t < .65:
        return lambda p: (2 * c[0] - p[0], p[1])
    if t < .75:
        return lambda p: (p[0], 2 * c[1] - p[1])
    if t < .9:
        return lambda p: (c[0] - (p[1] - c[1]), c[1] + (p[0] - c[0]))
    dx, dy = r.randrange(-S, S + 1), r.randrange(-S, S + 1)
    return lambda p: (p[0] + dx, p[1] + dy)


def reduce_kind(r, kind_from, g, kind):
    """Part of / rewriting of geometry as another kind, None if impossible."""
    rings = rings_of(kind_from, g)
    if kind in ('region', 'contour'):
        return list(r.choice(rings)) if rings else None
    if kind == 'polygon':
        if kind_from == 'multipolygon':
            return r.choice(g)
        if kind_from == 'polygon':
            return [g[0], [h for h in g[1] if r.random() < .5]]
        return [r.choice(rings), []] if rings else None
    if kind == 'multiregion':
        if kind_from == 'multiregion':
            return [x for x in g if r.random() < .7] or None
        if kind_from == 'polygon' and g[1]:
            return list(g[1])
        if kind_from == 'multipolygon':
            out = []
            for p in g:
                e = geom.ring_edges(p[0])
                if all(geom.areal_in_areal(e, geom.ring_edges(o))
                       in ('DISJOINT', 'TOUCH') for o in out):
                    out.append(p[0])
            return out
        return [r.choice(rings)] if rings else None
    if kind == 'multipolygon':
        if kind_from == 'multipolygon':
            return [x for x in g if r.random() < .7] or None
        if kind_from == 'polygon':
            return [g]
        if kind_from == 'multiregion':
            return [[x, []] for x in g]
        return [[r.choice(rings), []]] if rings else None
    return None


def areal_pair(r, k1, k2):
    """Pair of related areal geometries (contours count as areal here)."""
    t = r.random()
    multi = 'multipolygon' in (k1, k2)
    if t < (.6 if multi else .5):
        mesh = rand_mesh(r)
        f2 = mesh_faces(r, mesh)
        g2 = areal_from_faces(r, k2, mesh, f2)
        f1 = mesh_faces(r, mesh, f2)
        g1 = areal_from_faces(r, k1, mesh, f1)
        return g1, g2
    if t < .7:
        w, h = r.randrange(1, 5), r.randrange(1, 5)
        if r.random() < (.8 if multi else .5):
            mesh = rand_mesh(r)
            g2 = areal_from_faces(r, k2, mesh, mesh_faces(r, mesh))
            base = None
        else:
            base = grid_points(r, w, h)
            g2 = free_areal(r, k2, base)
        if g2 is None:
            return None, None
        pool = pool_around(r, k2, g2)
        if base is not None and r.random() < .5:
            pool += [p for p in base if p not in pool]
        return free_areal(r, k1, pool), g2
    # derived by a map / part
    if r.random() < (.85 if multi else .5):
        mesh = rand_mesh(r)
        g2 = areal_from_faces(r, k2, mesh, mesh_faces(r, mesh))
    else:
        g2 = free_areal(r, k2, grid_points(r, r.randrange(2, 5),
                                           r.randrange(2, 5)))
    if g2 is None:
        return None, None
    g1 = reduce_kind(r, k2, g2, k1)
    if g1 is None:
        return None, None
    if r.random() < .7:
        g1 = map_points(k1, g1, affine_of(r, points_of(k2, g2)))
    return g1, g2


# near copies ----------------------------------------------------------------

def _tweak_ring(r, rg, pool):
    rg = list(rg)
    n = len(rg)
    i = r.randrange(n)
    t = r.random()
    if t < .45:  # one vertex elsewhere
        a, b, c = rg[i - 1], rg[i], rg[(i + 1) % n]
        u = r.random()
        if u < .4:
            rg[i] = r.choice(pool)
        elif u < .6:
            rg[i] = between(r, a, c)
        elif u < .8:
            rg[i] = between(r, b, r.choice((a, c)))
        else:
            rg[i] = (a[0] + c[0] - b[0], a[1] + c[1] - b[1])
    elif t < .6:
        if n > 3:
            del rg[i]
    elif t < .75:
        rg.insert(i, r.choice(pool))
    else:  # the same vertices in another order
        j = r.randrange(n)
        if r.random() < .5:
            i, j = sorted((i, j))
            rg[i:j + 1] = rg[i:j + 1][::-1]
        else:
            rg.insert(j, rg.pop(i))
    return rg


def tweak(r, kind, g, pool):
    """Valid geometry different from the given one in a single place (or the
    same if there were no luck)."""
    for _ in range(6):
        try:
            h = _tweak_once(r, kind, g, pool)
        except (ValueError, IndexError):
            continue
        if too_small(kind, h) or (kind == 'multiregion' and not h):
            continue
        q = normalize([(kind, h)])[0][1] if any(
            isinstance(v, Fraction) for p in points_of(kind, h)
            for v in p) else h
        if geom.valid(kind, q):
            return h
    return g


def _tweak_once(r, kind, g, pool):
    if kind == 'point':
        return r.choice(pool)
    if kind == 'segment':
        g = list(g)
        g[r.randrange(2)] = r.choice(pool)
        return g
    if kind in ('contour', 'region'):
        return _tweak_ring(r, g, pool)
    if kind == 'polygon':
        i = r.randrange(-1, len(g[1]))
        if i < 0:
            return [_tweak_ring(r, g[0], pool), g[1]]
        hs = list(g[1])
        if r.random() < .25:
            del hs[i]
        else:
            hs[i] = _tweak_ring(r, hs[i], pool)
        return [g[0], hs]
    g = list(g)
    i = r.randrange(len(g))
    if len(g) > 1 + (kind == 'multisegment') and r.random() < .2:
        del g[i]
    else:
        g[i] = _tweak_once(r, {'multisegment': 'segment',
                               'multiregion': 'region',
                               'multipolygon': 'polygon'}[kind], g[i], pool)
    return g


def near_pair(r, k1, k2):
    """Copy (or part) of a geometry, different in a place or two."""
    if k2 in geom.AREAL or k2 == 'contour':
        if r.random() < .5:
            mesh = rand_mesh(r)
            g2 = areal_from_faces(r, k2, mesh, mesh_faces(r, mesh))
        else:
            g2 = free_areal(r, k2, grid_points(r, r.randrange(2, 5),
                                               r.randrange(2, 5)))
    else:
        gp = grid_points(r, r.randrange(1, 5), r.randrange(1, 5))
        g2 = multisegment(r, gp, r.randrange(2, 9))
        if g2 is not None and k2 == 'segment':
            g2 = r.choice(g2)
    if not g2 or too_small(k2, g2):
        return None, None
    if k1 in geom.AREAL or (k1 == 'contour' and k2 not in LINEAR_OPEN):
        g1 = reduce_kind(r, k2, g2, k1)
    elif k1 == 'multisegment':
        g1 = [list(e) for e in segs_of(k2, g2)]
    else:
        g1 = list(r.choice(segs_of(k2, g2)))
    if not g1:
        return None, None
    pool = pool_around(r, k2, g2)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        g1 = tweak(r, k1, g1, pool)
    return g1, g2


LINEAR_OPEN = ('segment', 'multisegment')


def pair(r, k1, k2):
    """Raw related pair of geometries of given kinds."""
    if r.random() < .1 and k1 != 'point' and k2 != 'segment':
        return near_pair(r, k1, k2)
    a1, a2 = k1 in geom.AREAL, k2 in geom.AREAL
    if ((a2 or (k1, k2) == ('contour', 'contour'))
            and r.random() < (.4 if 'olygon' in k1 + k2 else .2)):
        return sites.pair(r, k1, k2)
    if (k1 in geom.LINEAR and k2 in geom.LINEAR and r.random() < .12
            and (k1, k2) != ('segment', 'segment')):
        return star_pair(r, k1, k2)
    if (k1 in ('segment', 'multisegment') and k2 in ('segment', 'multisegment')
            and r.random() < .15):
        return chopped_pair(r, k1, k2)
    if a1 and a2 or (k1 == 'contour' and (a2 or k2 == 'contour')
                     and r.random() < .4):
        g1, g2 = areal_pair(r, k1, k2)
    else:
        mesh = rand_mesh(r) if (r.random() < .6
                                or k2 == 'multipolygon') else None
        if a2 or k2 == 'contour':
            if mesh is not None and r.random() < .85:
                g2 = areal_from_faces(r, k2, mesh, mesh_faces(r, mesh))
            else:
                g2 = free_areal(r, k2, grid_points(r, r.randrange(1, 5),
                                                   r.randrange(1, 5)))
        else:
            gp = grid_points(r, r.randrange(1, 5), r.randrange(1, 5))
            rg = ring(r, gp, r.randrange(3, 8))
            if rg is None:
                return None, None
            g2 = linear_from(r, k2, 'contour', rg, gp, mesh)
        if g2 is None:
            return None, None
        pool = pool_around(r, k2, g2)
        if k1 == 'point':
            g1 = r.choice(pool)
        else:
            g1 = linear_from(r, k1, k2, g2, pool, mesh)
    return g1, g2


# representations ------------------------------------------------------------

def scramble_ring(r, ring_):
    n = len(ring_)
    k = r.randrange(n)
    res = list(ring_[k:]) + list(ring_[:k])
    if r.random() < .5:
        res.reverse()
    return res


def refine_ring(r, ring_, prob=.3):
    res = []
    for i in range(len(ring_)):
        if r.random() < prob:
            res.append(between(r, ring_[i - 1], ring_[i]))
        res.append(ring_[i])
    return res


def _shuffled(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return xs


def scramble(r, kind, g):
    """Same set of points, another order of vertices / parts / ends."""
    if kind == 'point':
        return g
    if kind == 'segment':
        return list(g) if r.random() < .5 else [g[1], g[0]]
    if kind == 'multisegment':
        return _shuffled(r, [scramble(r, 'segment', s) for s in g])
    if kind in ('contour', 'region'):
        return scramble_ring(r, g)
    if kind == 'multiregion':
        return _shuffled(r, [scramble_ring(r, x) for x in g])
    if kind == 'polygon':
        return [scramble_ring(r, g[0]),
                _shuffled(r, [scramble_ring(r, h) for h in g[1]])]
    return _shuffled(r, [scramble(r, 'polygon', p) for p in g])


def refine(r, kind, g, prob=.3):
    """Same set of points with extra vertices / segments split."""
    if kind in ('point', 'segment'):
        return g
    if kind == 'multisegment':
        return split_some(r, g, prob)
    if kind in ('contour', 'region'):
        return refine_ring(r, g, prob)
    if kind == 'multiregion':
        return [refine_ring(r, x, prob) for x in g]
    if kind == 'polygon':
        return [refine_ring(r, g[0], prob),
                [refine_ring(r, h, prob) for h in g[1]]]
    return [refine(r, 'polygon', p, prob) for p in g]


def chop(r, kind, g, n, prob):
    """Same set of points (``n`` times bigger) with edges cut into ``n``
    pieces of equal length."""
    def big(p):
        return (p[0] * n, p[1] * n)

    def pieces(a, b):
        return [(a[0] * (n - i) + b[0] * i, a[1] * (n - i) + b[1] * i)
                for i in range(n + 1)]

    def ring_(x):
        res = []
        for i in range(len(x)):
            res += (pieces(x[i - 1], x[i])[1:] if r.random() < prob
                    else [big(x[i])])
        return res
    if kind in ('point', 'segment'):
        return map_points(kind, g, big)
    if kind == 'multisegment':
        res = []
        for s in g:
            if r.random() < prob:
                p = pieces(*s)
                res += [[p[i], p[i + 1]] for i in range(n)]
            else:
                res.append([big(s[0]), big(s[1])])
        return res
    if kind in ('contour', 'region'):
        return ring_(g)
    if kind == 'multiregion':
        return [ring_(x) for x in g]
    if kind == 'polygon':
        return [ring_(g[0]), [ring_(h) for h in g[1]]]
    return [chop(r, 'polygon', p, n, prob) for p in g]


def tup(kind, g):
    return map_points(kind, g, tuple)


# final maps -----------------------------------------------------------------

MATRICES = [(1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 0, 0, -1),
            (0, -1, 1, 0), (0, 1, -1, 0), (-1, 0, 0, -1), (0, -1, -1, 0)]


def rand_matrix(r):
    t = r.random()
    if t < .3:
        return MATRICES[0]
    if t < .6:
        return r.choice(MATRICES)
    while True:
        lim = r.choice((1, 1, 2, 2, 3, 3, 5, 5, 10 ** 6, 10 ** 12))
        m = tuple(r.randrange(-lim, lim + 1) for _ in range(4))
        if m[0] * m[3] != m[1] * m[2]:
            return m


def apply_matrix(m, t, p):
    return (m[0] * p[0] + m[1] * p[1] + t[0],
            m[2] * p[0] + m[3] * p[1] + t[1])


def rand_shift(r):
    t = r.random()
    if t < .5:
        return (0, 0)
    lim = r.choice((3, 30, 30, 30, 1000, 1000, 10 ** 9, 10 ** 17))
    return (r.randrange(-lim, lim + 1), r.randrange(-lim, lim + 1))


NUMS = [('int', 1)] * 6 + [('frac', 1), ('frac', 2), ('frac', 3),
                           ('frac', 7), ('float', 1), ('float', 2),
                           ('float', 4), ('float', 64), ('mixed', 1),
                           ('mixed', 4)]


def nest(r, k1, g1, k2, g2):
    """Shrinks one of geometries and moves it into the interior, a hole, the
    outside of another or on its boundary."""
    if k1 == 'point':
        a, b = r.choice(points_of(k2, g2)), r.choice(points_of(k2, g2))
        c = r.choice(points_of(k2, g2))
        w = [Fraction(r.randrange(1, 5)) for _ in range(3)]
        s = sum(w)
        return tuple(_int((a[i] * w[0] + b[i] * w[1] + c[i] * w[2]) / s)
                     for i in (0, 1)), g2
    if k2 in geom.AREAL and (k1 not in geom.AREAL or r.random() < .5):
        return _into(r, k1, g1, k2, g2), g2
    if k1 in geom.AREAL:
        return g1, _into(r, k2, g2, k1, g1)
    return _into(r, k1, g1, k2, g2), g2


def _into(r, k1, g1, k2, g2):
    pts2, pts1 = points_of(k2, g2), points_of(k1, g1)
    rings = rings_of(k2, g2)
    t = r.random()
    if rings and t < .85:
        rg = r.choice(rings)
        n = len(rg)
        i = r.randrange(n)
        a, b, c = rg[i - 1], rg[i], rg[(i + 1) % n]
        s = r.choice((2, 3, 4))
        # a place near a vertex, at either side of the ring
        sg = r.choice((1, 1, 1, -1))
        m = (a[0] + c[0], a[1] + c[1])
        dst = (b[0] + Fraction(sg * (m[0] - 2 * b[0]), 2 * s),
               b[1] + Fraction(sg * (m[1] - 2 * b[1]), 2 * s))
        if t < .15:
            dst = between(r, a, b)
    else:
        a, b = r.choice(pts2), r.choice(pts2)
        dst = (Fraction(a[0] + b[0], 2), Fraction(a[1] + b[1], 2))
    src = r.choice(pts1)
    k = Fraction(1, r.choice((3, 8, 8, 20, 100)))
    return map_points(k1, g1, lambda p: (_int(dst[0] + (p[0] - src[0]) * k),
                                         _int(dst[1] + (p[1] - src[1]) * k)))


def too_small(kind, g):
    """Multisegment is a set of two or more segments by definition."""
    return kind == 'multisegment' and len(g) < 2


def raw_case(r, k1, k2):
    """Finished pair with ordinary coordinates or None."""
    g1, g2 = pair(r, k1, k2)
    if g1 is None or g2 is None:
        return None
    if r.random() < (.35 if k1 == 'point' else .12):
        g1, g2 = nest(r, k1, g1, k2, g2)
    if r.random() < .12:
        g1 = refine(r, k1, g1)
    if r.random() < .12:
        g2 = refine(r, k2, g2)
    if k1 == k2 and r.random() < .3:
        g1, g2 = g2, g1
    g1, g2 = scramble(r, k1, g1), scramble(r, k2, g2)
    if too_small(k1, g1):
        g1 = split_some(r, g1, 1)
    if too_small(k2, g2):
        g2 = split_some(r, g2, 1)
    pairs = normalize([(k1, g1), (k2, g2)])
    return pairs[0][1], pairs[1][1]


def case(r, k1, k2, plain=False):
    """Finished pair of integer geometries or None."""
    c = raw_case(r, k1, k2)
    if c is None or plain:
        return c
    m, t = rand_matrix(r), rand_shift(r)
    return tuple(map_points(k, g, lambda p: apply_matrix(m, t, p))
                 for k, g in zip((k1, k2), c))


def rounded(r, pairs):
    """Geometries with coordinates rounded to floats (so that collinear points
    become nearly collinear), as integers over a common denominator, and the
    denominator.  Validity has to be checked by the caller."""
    den = r.choice((3, 7, 10, 10, 100, 1000, 13))
    big = r.choice((0, 0, 0, 1000, 10 ** 6)) + Fraction(r.randrange(10), 10)
    out = [(k, map_points(k, g, lambda p: (
        Fraction(float(Fraction(p[0], den) + big)),
        Fraction(float(Fraction(p[1], den) + big))))) for k, g in pairs]
    d = 1
    for k, g in out:
        for p in points_of(k, g):
            d = lcm(d, p[0].denominator, p[1].denominator)
    out = [(k, map_points(k, g, lambda p: (int(p[0] * d), int(p[1] * d))))
           for k, g in out]
    return out, d


# large ones -----------------------------------------------------------------

def isqrt_curve(r, n, scale=1):
    """Convex chain of n lattice points (upper part of a parabola)."""
    return [(i * scale, i * (n - 1 - i) * scale) for i in range(n)]


def zigzag(r, n, a, b, w=S):
    """Comb-like ring with 2 n + 2 or so vertices."""
    top = [(i * w, (a if i % 2 else b) * S) for i in range(n)]
    base = -S * r.randrange(1, 4)
    return top[::-1] + [(0, base), ((n - 1) * w, base)]


def long_ring(r, n):
    t = r.random()
    if t < .4:
        return isqrt_curve(r, max(n, 4))
    if t < .7:
        a, b = r.sample(range(0, 8), 2)
        return zigzag(r, max(n, 3), a, b)
    # staircase
    pts = []
    for i in range(max(n // 2, 2)):
        pts += [(i * S, i * S), ((i + 1) * S, i * S)]
    pts.append((pts[-1][0], pts[-1][1] + S))
    pts.append((-S * r.randrange(1, 3), pts[-1][1]))
    return pts


def big_case(r, k1, k2):
    """Pair with dozens of vertices or parts, otherwise as ``case``."""
    huge = r.random() < .25

    def big_mesh():
        a, b = (8, 15) if huge else (4, 8)
        return Mesh(r, r.randrange(a, b), r.randrange(a, b),
                    diag=r.choice((0, .5)), cross=r.choice((0, .2)))

    def one(kind):
        n = r.randrange(60, 180) if huge else r.randrange(15, 45)
        t = r.random()
        if kind in AREAL_LIKE and t < .45 or kind in ('contour', 'region') \
                and t < .8:
            rg = long_ring(r, n)
            if kind in ('contour', 'region'):
                return rg
            if kind == 'multiregion':
                w = max(p[0] for p in rg) - min(p[0] for p in rg)
                step = w + r.choice((0, 0, S, 5 * S))
                parts = [rg]
                other = [(p[0] + step, p[1]) for p in rg]
                if geom.valid('multiregion', [rg, other]):
                    parts.append(other)
                return parts
            holes = []
            p = [rg, holes]
            return p if kind == 'polygon' else [p]
        mesh = big_mesh()
        if kind == 'segment':
            return [(r.randrange(0, 5) * S, r.randrange(0, 8) * S),
                    (r.randrange(5, 40) * S, r.randrange(0, 8) * S)]
        if kind == 'multisegment':
            es = mesh.edges()
            r.shuffle(es)
            g = [list(e) for e in es[:n]]
            if r.random() < .3:
                rg = long_ring(r, n)
                g = [[rg[i - 1], rg[i]] for i in range(len(rg))]
            if r.random() < .3:
                g = merge_collinear(r, g, 5)
            return g
        faces = {f for f in range(len(mesh.faces))
                 if r.random() < r.choice((.4, .6, .8))}
        if not faces:
            return None
        if kind in AREAL_LIKE:
            return areal_many(r, kind, mesh, faces)
        return areal_from_faces(r, kind, mesh, faces)
    if k1 == 'point':
        g2 = one(k2)
        if g2 is None:
            return None
        g1 = r.choice(pool_around(r, k2, g2))
    else:
        t = r.random()
        if t < .5 and k2 in AREAL_LIKE and k1 in AREAL_LIKE:
            mesh = big_mesh()
            f2 = {f for f in range(len(mesh.faces))
                  if r.random() < r.choice((.4, .6, .8))}
            f1 = mesh_faces(r, mesh, f2)
            if not f1 or not f2:
                return None
            g1 = areal_many(r, k1, mesh, f1)
            g2 = areal_many(r, k2, mesh, f2)
        else:
            g1, g2 = one(k1), one(k2)
            if t > .8 and g2 is not None:
                if k1 == k2:
                    g1 = g2
                    if r.random() < .5:
                        g1 = tweak(r, k1, g2, pool_around(r, k2, g2)) or g2
                elif k1 != 'segment' and k2 != 'segment':
                    if k1 == 'multisegment':
                        ss = [list(s) for s in segs_of(k2, g2)]
                        g1 = ss[r.randrange(0, 3):] or None
                    else:
                        g1 = reduce_kind(r, k2, g2, k1)
        if g1 is None or g2 is None:
            return None
        if r.random() < .3:
            g1, g2 = nest(r, k1, g1, k2, g2)
    g1, g2 = scramble(r, k1, g1), scramble(r, k2, g2)
    if too_small(k1, g1) or too_small(k2, g2):
        return None
    (_, g1), (_, g2) = normalize([(k1, g1), (k2, g2)])
    if r.random() < .3:
        m, t = rand_matrix(r), rand_shift(r)
        g1, g2 = (map_points(k, g, lambda p: apply_matrix(m, t, p))
                  for k, g in ((k1, g1), (k2, g2)))
    return g1, g2


AREAL_LIKE = ('multiregion', 'polygon', 'multipolygon')


def areal_many(r, kind, mesh, faces):
    """As ``areal_from_faces``, keeping every part."""
    polys = polygons_of(mesh, faces)
    if not polys:
        return None
    if kind == 'polygon':
        return simplify(r, kind, max(polys, key=lambda p: len(p[1])
                                     + len(p[0])))
    if kind == 'multipolygon':
        return simplify(r, kind, polys)
    out = []
    for p in polys:
        e = geom.ring_edges(p[0])
        if all(geom.areal_in_areal(e, geom.ring_edges(o))
               in ('DISJOINT', 'TOUCH') for o in out):
            out.append(p[0])
    return simplify(r, kind, out)
