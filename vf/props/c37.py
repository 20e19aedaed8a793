"""C37 area, centroid and orientation of polygons"""
import math
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_close, check_equal, require

EPS = np.finfo(float).eps


def exact(p):
    """exact area, first moments and extent"""
    q = [[Fr(float(x)) for x in v] for v in p]
    n = len(q)
    a = mx = my = Fr(0)
    for i in range(n):
        (x, y), (u, v) = q[i], q[(i + 1) % n]
        c = x*v - u*y
        a += c
        mx += (x + u)*c
        my += (y + v)*c
    return a/2, mx/6, my/6


def extent(p):
    p = np.asarray(p, float)
    return np.ptp(p, axis=0).max(), np.abs(p).max()


@st.composite
def _comb(draw):
    """a comb with teeth, a simple polygon with many reflex corners"""
    n = draw(st.integers(1, 4))
    x, top = 0., []
    for _ in range(n):
        w, gap = draw(g.num(.1, 1, 2)), draw(g.num(.1, 1, 2))
        h, s = draw(g.num(.2, 2, 2)), draw(g.num(-.05, .05, 2))
        top += [[x, 1.], [x + s, 1 + h], [x + w + s, 1 + h], [x + w, 1.]]
        x += w + gap
    return [[-.3, 0.], [x, 0.]] + top[::-1]


@st.composite
def _sliver(draw):
    """thin triangle or quadrilateral"""
    l, w = draw(g.num(1, 5, 2)), draw(st.sampled_from([1e-1, 1e-3, 1e-5]))
    a = draw(g.num(0, 6.2, 2))
    d, n = np.array([math.cos(a), math.sin(a)]), None
    n = np.array([-d[1], d[0]])
    p = [np.zeros(2), l*d, l*draw(g.num(.1, .9, 2))*d + w*n]
    if draw(st.booleans()):
        p.append(w/2*n)
        # ccw, convex or not, but simple
    return [v.tolist() for v in p]


def polygon():
    return st.one_of(g.star(), g.rect(), g.lshape(), _comb(), _sliver())


@st.composite
def _variant(draw):
    """what does not change the region"""
    return dict(start=draw(st.integers(0, 30)), closed=draw(st.booleans()),
                rev=draw(st.booleans()),
                extra=draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(
                    [0., 1., .5, .25])), max_size=3)))


def variant(p, v):
    p = [list(x) for x in p]
    k = v["start"] % len(p)
    p = p[k:] + p[:k]
    if v["rev"]:
        p = p[::-1]
    for i, t in v["extra"]:
        # repeated vertices or additional ones on the edge (by rounding,
        # near it)
        i %= len(p)
        a, b = p[i], p[(i + 1) % len(p)]
        p.insert(i + 1, [a[0] + t*(b[0] - a[0]), a[1] + t*(b[1] - a[1])]
                 if t not in (0, 1) else list(a if t == 0 else b))
    if v["closed"]:
        p.append(list(p[0]))
    return p


def check_against(p, got, what):
    a, c = got
    A, MX, MY = exact(p)
    d, m = extent(p)
    n = len(p)
    require(np.ndim(a) == 0, "%s: area %r" % (what, a))
    check_close(float(a), float(A), rtol=1e-12, atol=8*n*EPS*d*d,
                what="%s: area" % what)
    require(np.shape(c) == (2,), "%s: centroid %r" % (what, c))
    if not A or abs(A) < 1e-9*d*d:
        return False
    want = [float(MX/A), float(MY/A)]
    check_close(c, want, atol=32*n*EPS*d**3/abs(float(A)) + 4*EPS*m,
                what="%s: centroid" % what)
    return True


# --------------------------------------------------------------- area_centroid

@st.composite
def _exact(draw):
    return dict(p=draw(polygon()), v=draw(_variant()),
                shift=draw(st.one_of(st.just([0., 0.]), st.lists(
                    st.sampled_from([0., 1., -10., 1e3, -1e4, 3e5, -1e7]),
                    min_size=2, max_size=2))),
                scale=draw(st.sampled_from([1., 1., 1e-8, 1e-6, 1e3, 1e6])),
                form=draw(st.sampled_from(["array", "array", "list", "int",
                                           "int32", "fortran", "slice",
                                           "tuple", "float32"])))


def form(p, how):
    if how == "list":
        return [list(x) for x in p]
    if how == "tuple":
        return tuple(tuple(x) for x in p)
    if how == "fortran":
        return np.asfortranarray(p)
    if how == "slice":
        return np.concatenate([np.array(p, float), np.array(p) + 1], 1)[:, :2]
    return np.array(p, dict(int=np.int64, int32=np.int32,
                            float32=np.float32).get(how, np.double))


def check_exact(c, ctx):
    from electrode.utils import area_centroid
    p = variant(c["p"], c["v"])
    how = c["form"]
    if how in ("int", "int32"):
        p = [[float(round(x*1e4)) + s for x, s in zip(v, c["shift"])]
             for v in p]
    else:
        p = [[x*c["scale"] + s for x, s in zip(v, c["shift"])] for v in p]
    if how == "float32":
        p = np.float32(p).tolist()
    q = form(p, how)
    before = np.array(q)
    got = area_centroid(q)
    check_equal(np.array(q), before, "the argument")
    ok = check_against(p, got, "polygon")
    ctx.label(how)
    if max(map(abs, c["shift"])) >= 1e3:
        ctx.label("far away")
    ctx.nontrivial(ok and len(p) > 3)


# ---------------------------------------------------------------- relations

@st.composite
def _relations(draw):
    return dict(p=draw(polygon()), v=draw(_variant()), w=draw(_variant()),
                cut=draw(st.tuples(st.integers(0, 30), st.integers(0, 30))),
                mid=draw(st.lists(g.vec(-2, 2, 2, 2), max_size=2)),
                shift=draw(g.vec(-50, 50, 2, 1)), ang=draw(g.num(-4, 4, 2)),
                sx=draw(g.nonzero(.2, 3, 2)), sy=draw(g.nonzero(.2, 3, 2)),
                shear=draw(g.num(-1, 1, 2)))


def check_relations(c, ctx):
    from electrode.utils import area_centroid
    p = np.array(variant(c["p"], dict(c["v"], rev=False)))
    a, ce = area_centroid(p)
    d, m = extent(p)
    tol = 1e-12*(d + m)**3/max(abs(a), 1e-300)
    if abs(a) < 1e-6*d*d:
        ctx.skip("degenerate")
    require(a > 0, "counter clockwise polygon has the area %s" % a)
    # start vertex, closing vertex, additional vertices, direction
    q = np.array(variant(c["p"], c["w"]))
    b, cb = area_centroid(q)
    check_close(b, -a if c["w"]["rev"] else a, rtol=1e-11, atol=1e-13*d*d,
                what="area")
    check_close(cb, ce, atol=tol, what="centroid")
    # cut along a path between two vertices
    i, j = sorted(k % len(p) for k in c["cut"])
    mid = np.array(c["mid"], float).reshape(-1, 2)
    p1 = np.concatenate([p[i:j + 1], mid[::-1]])
    p2 = np.concatenate([p[j:], p[:i + 1], mid])
    parts = [(x, area_centroid(x)) for x in (p1, p2) if len(x) > 2]
    parts = [(A, C) for x, (A, C) in parts
             if abs(exact(x)[0]) > 1e-6*d*d]
    d1 = max(extent(p1)[0], extent(p2)[0])
    if len(parts) == 2:
        check_close(sum(A for A, C in parts), a, atol=1e-12*d1*d1 + 1e-11*a,
                    what="areas of the parts")
        check_close(sum(A*C for A, C in parts), a*ce, atol=1e-12*(
            max(d1, d) + np.abs(p).max() + 2)**3,
            what="moments of the parts")
        ctx.label("cut")
    # affine maps
    co, si = math.cos(c["ang"]), math.sin(c["ang"])
    M = np.array([[co, -si], [si, co]]).dot([[1, c["shear"]], [0, 1]]).dot(
        np.diag([c["sx"], c["sy"]]))
    q = p.dot(M.T) + c["shift"]
    b, cb = area_centroid(q)
    check_close(b, a*np.linalg.det(M), rtol=1e-9, atol=1e-11*d*d,
                what="area of the image")
    check_close(cb, M.dot(ce) + c["shift"], atol=50*tol + 1e-9*(
        d**3/a), what="centroid of the image")
    ctx.nontrivial(len(parts) == 2)


# ---------------------------------------------------------------- electrodes

@st.composite
def _electrodes(draw):
    n = draw(st.integers(0, 5))
    return dict(paths=[dict(p=draw(polygon()), v=draw(_variant()))
                       for _ in range(n)], shift=draw(st.sampled_from(
                           [0., 0., 500., -1e5])),
                scale=draw(st.sampled_from([1., 1., 1e-8, 1e-4, 1e5])),
                as_list=draw(st.booleans()), dc=draw(g.volt()),
                rf=draw(g.volt()), cover=draw(g.cover()),
                npoints=draw(st.integers(1, 5)))


def check_electrodes(c, ctx):
    from electrode import PointPixelElectrode, PolygonPixelElectrode
    paths, signs = [], []
    for x in c["paths"]:
        p = [[(u + c["shift"])*c["scale"] for u in v]
             for v in variant(x["p"], x["v"])]
        a, d = exact(p)[0], extent(p)[0]
        if abs(a) < 1e-10*d*d:
            ctx.skip("degenerate")
        paths.append(p if c["as_list"] else np.array(p))
        signs.append(1 if a > 0 else -1)
    nmax, height = c["cover"]
    e = PolygonPixelElectrode(paths=paths, name="e", dc=c["dc"], rf=c["rf"],
                              cover_nmax=nmax, cover_height=height)
    check_equal(e.orientations(), signs, "orientations")
    for x, s in zip(c["paths"], signs):
        require(s == (-1 if x["v"]["rev"] else 1), "direction of the path")
    pt = e.to_points()
    require(isinstance(pt, PointPixelElectrode), "points")
    check_equal([pt.name, pt.dc, pt.rf, pt.cover_nmax, pt.cover_height],
                ["e", c["dc"], c["rf"], nmax, height], "attributes")
    require(len(pt.areas) == len(paths), "number of points")
    for p, a, q in zip(paths, pt.areas, pt.points):
        q = np.asarray(q, float)
        require(len(q) in (2, 3) and not q[2:].any(), "point %s" % (q,))
        check_against(p, (a, q[:2]), "point")
    ctx.nontrivial(len(set(signs)) == 2)
    ctx.label("%i paths" % len(paths))


SUBS = [
    Sub("exact", _exact, check_exact, 2500, 60000,
        "more than three vertices and not degenerate", shards=3),
    Sub("relations", _relations, check_relations, 1200, 30000,
        "cut into two parts", shards=3),
    Sub("electrodes", _electrodes, check_electrodes, 600, 15000,
        "patches and holes", shards=2),
]
