"""C25 trap systems to polygons and back"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import shapes as s
from ..core import Sub, check_close, check_equal, require


@st.composite
def _trip(draw):
    lay = draw(s.layout(scales=True))
    n = len(lay)
    # extra electrodes that are to be skipped
    extra = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from([
        "point", "cover", "hole", "empty", "grid"])), max_size=3))
    return dict(layout=lay, extra=[list(e) for e in extra],
                names=draw(st.permutations(["a", "b", "c", "a", "", "e5",
                                            "x y", "q", "0", "zz"])),
                seed=draw(st.integers(0, 10**6)),
                order=draw(st.sampled_from(["c", "c", "f", "int"])))


def build(c):
    """system, list of (name, paths) expected"""
    import electrode
    els = []
    for i, paths in enumerate(c["layout"]):
        nm = c["names"][i % 10]
        p = [np.array(q, order="F" if c["order"] == "f" else "C")
             for q in paths]
        els.append((nm, paths, electrode.PolygonPixelElectrode(
            paths=p, name=nm, dc=i + 1.)))
    for pos, kind in sorted(c["extra"], reverse=True):
        if kind == "point":
            e = electrode.PointPixelElectrode(points=[[0, 0.]], areas=[1.],
                                              name="p")
        elif kind == "cover":
            e = electrode.CoverElectrode(name="c")
        elif kind == "empty":
            e = electrode.PolygonPixelElectrode(paths=[], name="none")
        elif kind == "grid":
            e = electrode.GridElectrode(name="g", data=[np.ones((2, 2, 2,
                                                                 1))])
        else:
            e = electrode.PolygonPixelElectrode(
                paths=[np.array([[0, 0], [0, 1.], [1, 0]])], name="h")
        els.insert(pos, (None, None, e))
    return electrode.System([e for _, _, e in els]), [
        (nm, p, e) for nm, p, e in els if nm is not None]


def usable(p, paths, tol=1e-3):
    lo, hi = s.bbox(paths)
    return s.boundary_distance(p, paths) > tol*(hi - lo).max()*.05


def check_trip(c, ctx):
    from electrode import System, PolygonPixelElectrode
    from electrode.polygons import Polygons
    sys_, want = build(c)
    before = [[np.array(q) for q in e.paths] for _, _, e in want]
    p = Polygons.from_system(sys_)
    require(isinstance(p, Polygons), "type")
    check_equal([n for n, _ in p], [n for n, _, _ in want], "names")
    allp = [q for _, paths, _ in want for q in paths]
    pts = s.sample(allp, c["seed"])
    lo, hi = s.bbox(allp)
    size = (hi - lo).max()
    for (n, mp), (_, paths, _) in zip(p, want):
        require(mp.is_valid, "invalid shape")
        a = sum(o.shoelace(q) for q in paths)
        check_close(s.geom_area(mp), a, atol=1e-12*size**2, what="area of "
                    "the shape")
        ok = usable(pts, paths)
        inside = s.total_winding(pts, paths) > 0
        check_equal(s.even_odd(pts, mp)[ok], inside[ok], "region")
    back = p.to_system()
    require(isinstance(back, System), "type")
    check_equal(back.names, [n for n, _, _ in want], "names")
    deep = 0
    z = .3*size
    x = np.c_[pts[:8], np.full(len(pts[:8]), z)]
    for e, (n, paths, orig) in zip(back, want):
        require(isinstance(e, PolygonPixelElectrode), "type")
        a = sum(o.shoelace(q) for q in paths)
        got = [np.array(q, float) for q in e.paths]
        for q in got:
            require(q.ndim == 2 and q.shape[1] == 2, "two dimensional")
            require(len(q) >= 3, "vertices")
            require(not np.array_equal(q[0], q[-1]), "closing vertex")
        areas = [o.shoelace(q) for q in got]
        check_close(sum(areas), a, atol=1e-12*size**2, what="signed area")
        check_equal(sum(v > 0 for v in areas),
                    sum(o.shoelace(q) > 0 for q in paths),
                    "number of patches")
        check_equal(len(areas), len(paths), "number of paths")
        ok = usable(pts, paths)
        check_equal(s.total_winding(pts, got)[ok],
                    s.total_winding(pts, paths)[ok], "region after the trip")
        v0 = orig.potential(x, 0)
        check_close(e.potential(x, 0), v0, atol=1e-10*(1 + len(paths)),
                    what="potential")
        deep = max(deep, len(paths))
    for (_, _, e), b in zip(want, before):
        for u, v in zip(e.paths, b):
            check_equal(np.array(u), v, "electrode modified")
    # stable from then on
    again = Polygons.from_system(back)
    for (n, a), (m, b) in zip(again, p):
        check_equal(n, m, "name")
        check_close(s.geom_area(a), s.geom_area(b), atol=1e-12*size**2,
                    what="area of second trip")
    check_equal(len(again), len(p), "electrodes")
    ctx.label("%d electrodes" % len(want), "at most %d paths" % min(deep, 6))
    if c["extra"]:
        ctx.label("skipped electrodes")
    ctx.nontrivial(deep > 1)


@st.composite
def _from(draw):
    """shapely geometries with any ring orientation, 3-D coordinates and
    adjacent patches"""
    lay = draw(s.layout(maxdepth=2, maxcells=3, scales=True))
    return dict(layout=lay, flip=draw(st.lists(st.booleans(), min_size=24,
                                               max_size=24)),
                z=draw(st.booleans()), single=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


def nest(paths):
    """(exterior, [interiors]) of every patch"""
    out = []
    ext = [q for q in paths if o.shoelace(q) > 0]
    for q in ext:
        out.append((q, []))
    for h in paths:
        if o.shoelace(h) >= 0:
            continue
        best = None
        for q, ii in out:
            if s.winding([h[0]], q)[0] != 0:
                if best is None or o.shoelace(q) < o.shoelace(best[0]):
                    best = (q, ii)
        best[1].append(h)
    return out


def check_from(c, ctx):
    from shapely import geometry
    from electrode.polygons import Polygons
    flips = iter(c["flip"]*20)

    def ring(q):
        q = q[::-1] if next(flips) else q
        return [tuple(v) + ((1.5,) if c["z"] else ()) for v in q]
    p = Polygons()
    for i, paths in enumerate(c["layout"]):
        mp = [geometry.Polygon(ring(e), [ring(h) for h in hh])
              for e, hh in nest(paths)]
        if len(mp) == 1 and c["single"]:
            mp = mp[0]
            ctx.label("Polygon")
        else:
            mp = geometry.MultiPolygon(mp)
        p.append(("n%d" % i, mp))
    back = p.to_system()
    check_equal(back.names, [n for n, _ in p], "names")
    allp = [q for paths in c["layout"] for q in paths]
    pts = s.sample(allp, c["seed"])
    lo, hi = s.bbox(allp)
    for e, paths in zip(back, c["layout"]):
        got = [np.array(q) for q in e.paths]
        check_equal(len(got), len(paths), "number of paths")
        ok = usable(pts, paths)
        check_equal(s.total_winding(pts, got)[ok],
                    s.total_winding(pts, paths)[ok], "region")
        check_close(sum(o.shoelace(q) for q in got),
                    sum(o.shoelace(q) for q in paths),
                    atol=1e-12*(hi - lo).max()**2, what="signed area")
        # the same vertices
        check_equal(sorted(map(tuple, np.concatenate(got).tolist())),
                    sorted(map(tuple, np.concatenate(paths).tolist())),
                    "vertices")
    ctx.nontrivial(any(len(q) > 1 for q in c["layout"]))


@st.composite
def _tiles(draw):
    """cells of an integer grid: patches that touch at edges and corners"""
    n = draw(st.integers(1, 4))
    cells = [[draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)),
                            min_size=1, max_size=8, unique=True))]
             for _ in range(n)]
    own = {}
    for i, (cc,) in enumerate(cells):
        for t in cc:
            own.setdefault(tuple(t), i)
    out = [[list(t) for t in sorted(own) if own[t] == i] for i in range(n)]
    return dict(cells=[o_ for o_ in out if o_],
                k=draw(st.lists(st.integers(0, 3), min_size=25,
                                max_size=25)))


def check_tiles(c, ctx):
    import electrode
    from electrode.polygons import Polygons
    els = []
    for i, cells in enumerate(c["cells"]):
        paths = []
        for (x, y) in cells:
            q = np.array([[x, y], [x + 1, y], [x + 1, y + 1], [x, y + 1]],
                         float)
            paths.append(np.roll(q, c["k"][(x*5 + y) % 25], 0))
        els.append(electrode.PolygonPixelElectrode(paths=paths,
                                                   name="t%d" % i))
    s0 = electrode.System(els)
    p = Polygons.from_system(s0)
    check_equal([n for n, _ in p], s0.names, "names")
    back = p.to_system()
    check_equal(back.names, s0.names, "names")
    cen = np.array([[x + .5, y + .5] for x in range(-1, 6)
                    for y in range(-1, 6)])
    x = np.c_[cen[::5], np.full(len(cen[::5]), .7)]
    for e, b, (n, mp), cells in zip(els, back, p, c["cells"]):
        want = np.array([[int(u - .5), int(v - .5)] in cells if min(u, v) > 0
                         else False for u, v in cen])
        require(mp.is_valid, "invalid")
        check_equal(s.even_odd(cen, mp), want, "region")
        check_equal(s.total_winding(cen, b.paths), want.astype(int),
                    "region after the trip")
        check_close(sum(o.shoelace(q) for q in b.paths), float(len(cells)),
                    atol=1e-12, what="area")
        check_close(b.potential(x, 0), e.potential(x, 0), atol=1e-11,
                    what="potential")
        check_close(b.potential(x, 1), e.potential(x, 1), atol=1e-10,
                    what="field")
    ctx.nontrivial(any(len(q) > 1 for q in c["cells"]))


SUBS = [
    Sub("trip", _trip, check_trip, 700, 20000,
        "an electrode with several paths", shards=5),
    Sub("from_shapes", _from, check_from, 400, 10000,
        "an electrode with several paths", shards=2),
    Sub("tiles", _tiles, check_tiles, 500, 10000,
        "an electrode with several tiles", shards=1),
]
