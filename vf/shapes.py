"""Nested, non-overlapping polygon layouts and point membership."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gens as g
from . import oracles


def inscribed(path, c):
    """half width of the largest square around c within the star shaped
    path (by distance to the edges)"""
    d = g.edge_distance([[c[0], c[1], 0.]], [path])[0]
    return d/math.sqrt(2)


@st.composite
def shape_in(draw, cx, cy, h, nmax=7):
    """ccw simple path inside the square of half width h around (cx, cy)"""
    k = draw(st.sampled_from(["star", "star", "rect", "l"]))
    if k == "rect":
        a, b = h*draw(g.num(.5, .95, 2)), h*draw(g.num(.5, .95, 2))
        return [[cx - a, cy - b], [cx + a, cy - b], [cx + a, cy + b],
                [cx - a, cy + b]]
    if k == "l":
        a, b = h*draw(g.num(.6, .95, 2)), h*draw(g.num(.6, .95, 2))
        u, v = draw(g.num(.4, .9, 2)), draw(g.num(.4, .9, 2))
        return [[cx - a, cy - b], [cx + a, cy - b], [cx + a, cy + b*u],
                [cx + a*v, cy + b*u], [cx + a*v, cy + b], [cx - a, cy + b]]
    n = draw(st.integers(3, nmax))
    r = [h*x for x in draw(st.lists(g.num(.5, .95, 2), min_size=n,
                                    max_size=n))]
    j = draw(st.lists(g.num(0, .3, 2), min_size=n, max_size=n))
    return g.star_path(cx, cy, draw(g.num(0, 6.2, 1)), r, j)


@st.composite
def onion(draw, cx, cy, h, level, own, other, depth):
    """fills `own` (paths of this electrode) with a nested structure:
    patch (level even), hole (odd), ...; now and then a hole is filled by
    another electrode"""
    p = draw(shape_in(cx, cy, h))
    own.append(p if level % 2 == 0 else p[::-1])
    if depth <= 0:
        return
    hi = inscribed(p, (cx, cy))*.98
    if hi < .02*h:
        return
    n = draw(st.sampled_from([0, 1, 1, 2, 4, 1, 4, 7, 9]))
    if n == 0:
        return
    if level % 2 == 0 and n == 1 and draw(st.integers(0, 2)) == 0:
        # a hole that leaves only a thin frame
        f = draw(st.sampled_from([.9, .96, .99, .999]))
        q = [[cx + (x - cx)*f, cy + (y - cy)*f] for x, y in p]
        own.append(q[::-1])
        return
    k = 1 if n == 1 else 2 if n < 5 else 3
    if k == 3:
        depth = min(depth, 1)
    cells = [(cx + (2*i + 1 - k)*hi/k, cy + (2*j + 1 - k)*hi/k, hi/k*.98)
             for i in range(k) for j in range(k)][:n]
    for c in cells:
        if level % 2 == 0:
            # a hole
            tgt = own
            draw(onion(c[0], c[1], c[2], level + 1, own, other, depth - 1))
        elif draw(st.integers(0, 2)) == 0:
            # an island of another electrode
            tgt = []
            draw(onion(c[0], c[1], c[2], 0, tgt, other, depth - 1))
            other.append(tgt)
        else:
            draw(onion(c[0], c[1], c[2], level + 1, own, other, depth - 1))


@st.composite
def layout(draw, maxdepth=3, maxcells=4, decorate=True, scales=False):
    """list of electrodes, each a list of paths (ccw patches, cw holes), all
    regions disjoint"""
    n = draw(st.integers(1, maxcells))
    cells = draw(st.lists(st.tuples(st.integers(-2, 2), st.integers(-2, 2)),
                          min_size=n, max_size=n, unique=True))
    electrodes = []
    scale = draw(st.sampled_from([1., 1., 1., 100., .01, 1e-5, 1e5]
                                 if scales else [1., 1., 1., 100., .01]))
    for i, (x, y) in enumerate(cells):
        own, other = [], []
        draw(onion(2.*x, 2.*y, .98, 0, own, other,
                   draw(st.integers(0, maxdepth))))
        if electrodes and draw(st.integers(0, 2)) == 0:
            # a second patch of an earlier electrode
            electrodes[draw(st.integers(0, len(electrodes) - 1))].extend(own)
        else:
            electrodes.append(own)
        electrodes.extend(other)
    out = []
    for e in electrodes:
        paths = []
        for p in draw(st.permutations(e)):
            k = draw(st.integers(0, len(p) - 1))
            paths.append([[v*scale for v in q] for q in p[k:] + p[:k]])
        out.append(paths)
    return out


def winding(p, path):
    """winding numbers (n,) of points (n, 2)"""
    p = np.asarray(p, float)
    v = np.asarray(path, float)
    a = v[None] - p[:, None]
    b = np.roll(a, -1, 1)
    ang = np.arctan2(a[..., 0]*b[..., 1] - a[..., 1]*b[..., 0],
                     (a*b).sum(-1))
    return np.rint(ang.sum(1)/(2*np.pi)).astype(int)


def total_winding(p, paths):
    w = np.zeros(len(p), int)
    for q in paths:
        w += winding(p, q)
    return w


def boundary_distance(p, paths):
    p = np.asarray(p, float)
    return g.edge_distance(np.c_[p, np.zeros(len(p))], paths)


def bbox(paths):
    a = np.concatenate([np.asarray(q, float) for q in paths])
    return a.min(0), a.max(0)


def sample(paths, seed, n=150):
    """points all over and close to the boundaries"""
    r = np.random.RandomState(seed)
    lo, hi = bbox(paths)
    size = max((hi - lo).max(), 1e-12)
    out = [lo - .1*size + r.rand(n, 2)*(hi - lo + .2*size)]
    for q in paths:
        q = np.asarray(q, float)
        b = np.roll(q, -1, 0)
        t = r.rand(len(q), 1)
        ext = np.ptp(q, 0).max()
        for e in (.03, -.03):
            d = b - q
            nrm = np.c_[-d[:, 1], d[:, 0]]/(
                np.hypot(*d.T)[:, None] + 1e-300)
            out.append(q + t*d + e*ext*nrm)
        out.append(q.mean(0)[None])
    return np.concatenate(out)


def rings(geom):
    """list of (exterior, [interiors]) of any polygonal shapely geometry as
    lists of points without closing vertex; other parts are left out"""
    if geom.is_empty:
        return []
    if geom.type == "Polygon":
        return [(np.array(geom.exterior.coords)[:-1, :2],
                 [np.array(i.coords)[:-1, :2] for i in geom.interiors])]
    out = []
    for p in getattr(geom, "geoms", []):
        out += rings(p)
    return out


def even_odd(p, geom):
    """membership of points in a shapely geometry, own evaluation"""
    inside = np.zeros(len(p), bool)
    for ext, ints in rings(geom):
        i = winding(p, ext) != 0
        for q in ints:
            i &= winding(p, q) == 0
        inside |= i
    return inside


def geom_area(geom):
    """area by the shoelace formula"""
    return sum(abs(oracles.shoelace(e)) - sum(abs(oracles.shoelace(i))
               for i in ii) for e, ii in rings(geom))


def all_rings(geom):
    return [r for e, ii in rings(geom) for r in [e] + list(ii)]
