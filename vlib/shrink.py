"""Deterministic greedy shrinking of failing cases."""
from __future__ import annotations

import time

from . import gen, geom


def _smaller_linear(kind, g):
    if kind == 'multisegment':
        for i in range(len(g)):
            if len(g) > 2:
                yield g[:i] + g[i + 1:]
    elif kind in ('contour', 'region'):
        for i in range(len(g)):
            if len(g) > 3:
                yield g[:i] + g[i + 1:]
    elif kind == 'multiregion':
        for i in range(len(g)):
            if len(g) > 1:
                yield g[:i] + g[i + 1:]
        for i, r in enumerate(g):
            for s in _smaller_linear('region', r):
                yield g[:i] + [s] + g[i + 1:]
    elif kind == 'polygon':
        b, hs = g
        for i in range(len(hs)):
            yield [b, hs[:i] + hs[i + 1:]]
        for s in _smaller_linear('region', b):
            yield [s, hs]
        for i, r in enumerate(hs):
            for s in _smaller_linear('region', r):
                yield [b, hs[:i] + [s] + hs[i + 1:]]
    elif kind == 'multipolygon':
        for i in range(len(g)):
            if len(g) > 1:
                yield g[:i] + g[i + 1:]
        for i, p in enumerate(g):
            for s in _smaller_linear('polygon', p):
                yield g[:i] + [s] + g[i + 1:]


def _coordinate_maps(pairs):
    pts = [p for k, g in pairs for p in gen.points_of(k, g)]
    xs = sorted({p[0] for p in pts})
    ys = sorted({p[1] for p in pts})
    yield lambda p: (xs.index(p[0]), ys.index(p[1]))
    yield lambda p: (p[0] - xs[0], p[1] - ys[0])
    if max(map(abs, xs + ys)) > 2:
        yield lambda p: (p[0] // 2, p[1] // 2)
        yield lambda p: (p[0] // 3, p[1] // 3)
    for vs, axis in ((xs, 0), (ys, 1)):
        for a, b in zip(vs, vs[1:]):
            if b - a > 1:
                def f(p, axis=axis, b=b, d=b - a - 1):
                    if p[axis] < b:
                        return p
                    return ((p[0] - d, p[1]) if axis == 0
                            else (p[0], p[1] - d))
                yield f


def size(pairs):
    pts = [p for k, g in pairs for p in gen.points_of(k, g)]
    return (len(pts), sum(abs(p[0]) + abs(p[1]) for p in pts))


def shrink(case, fails, budget=40.):
    """Case is a dictionary with kinds ``k`` and geometries ``g``; ``fails``
    tells if a candidate still fails."""
    end = time.monotonic() + budget
    best = case

    def try_(gs):
        nonlocal best
        pairs = list(zip(best['k'], gs))
        if size(pairs) >= size(list(zip(best['k'], best['g']))):
            return False
        if not all(geom.valid(k, g) and not gen.too_small(k, g)
                   for k, g in pairs):
            return False
        cand = dict(best, g=list(gs))
        if fails(cand):
            best = cand
            return True
        return False

    # operations of histories, in shorter and shorter blocks
    block = len(best.get('ops') or ()) // 2
    while block and time.monotonic() < end:
        at = 0
        while at < len(best['ops']) and time.monotonic() < end:
            cand = dict(best, ops=best['ops'][:at] + best['ops'][at + block:])
            if cand['ops'] and fails(cand):
                best = cand
            else:
                at += block
        block //= 2
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for key in ('num', 'ctx'):
            # the plainest number kind
            if best.get(key) not in (None, ['int', 1], 'default'):
                cand = dict(best)
                cand[key] = ['int', 1] if key == 'num' else 'default'
                if fails(cand):
                    best, progress = cand, True
        for i in range(len(best['g'])):
            again = True
            while again and time.monotonic() < end:
                again = False
                for s in _smaller_linear(best['k'][i], best['g'][i]):
                    gs = list(best['g'])
                    gs[i] = s
                    if try_(gs):
                        again = progress = True
                        break
                    if time.monotonic() > end:
                        break
        again = True
        while again and time.monotonic() < end:
            again = False
            pairs = list(zip(best['k'], best['g']))
            for f in _coordinate_maps(pairs):
                if try_([gen.map_points(k, g, f) for k, g in pairs]):
                    again = progress = True
                    break
                if time.monotonic() > end:
                    break
    return best
