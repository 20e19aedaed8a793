"""C26 polygon clean-up operations"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import shapes as s
from ..core import Sub, check_close, check_equal, require, raises


@st.composite
def patch(draw, cx, cy, h):
    """[exterior, holes...]"""
    p = draw(s.shape_in(cx, cy, h))
    out = [p]
    if draw(st.integers(0, 2)) == 0:
        hi = s.inscribed(p, (cx, cy))*.9
        if hi > .05*h:
            k = draw(st.integers(1, 2))
            cells = [(cx, cy, hi)] if k == 1 else [
                (cx - hi/2, cy, hi/2*.9), (cx + hi/2, cy, hi/2*.9)]
            for c in cells:
                out.append(draw(s.shape_in(*c))[::-1])
    return out


@st.composite
def rectangle(draw):
    x, y = draw(st.integers(-5, 5)), draw(st.integers(-5, 5))
    w, h = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return [[[[x/2., y/2.], [(x + w)/2., y/2.], [(x + w)/2., (y + h)/2.],
              [x/2., (y + h)/2.]]]]


@st.composite
def electrode(draw):
    if draw(st.integers(0, 2)) == 0:
        x, y = draw(st.integers(-4, 4)), draw(st.integers(-4, 4))
        w, h = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        q = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        if w > 1 and h > 1 and draw(st.booleans()):
            a, b = draw(st.integers(1, w - 1)), draw(st.integers(1, h - 1))
            q = [[x, y], [x + w, y], [x + w, y + b], [x + a, y + b],
                 [x + a, y + h], [x, y + h]]
        return [[[[u/2., v/2.] for u, v in q]]]
    n = draw(st.sampled_from([1, 1, 2, 3, 6]))
    cells = draw(st.lists(st.tuples(st.integers(-1, 1), st.integers(-1, 1)),
                          min_size=n, max_size=n, unique=True))
    dx, dy = draw(g.num(-1, 1, 1)), draw(g.num(-1, 1, 1))
    return [draw(patch(2*x + dx, 2*y + dy, .98)) for x, y in cells]


@st.composite
def operation(draw):
    k = draw(st.sampled_from([
        "remove_overlaps", "remove_overlaps", "add_gaps", "unify",
        "unify_by_name", "simplify", "filter", "restrict", "within",
        "gaps_union", "validate"]))
    d = dict(op=k)
    if k == "add_gaps":
        d["gap"] = draw(st.one_of(g.num(.01, .3, 2), st.just(0.), g.num(
            .3, 3, 1)))
    elif k == "simplify":
        d["buffer"] = draw(st.one_of(st.just(0.), g.num(.01, .5, 2)))
        d["topo"] = draw(st.booleans())
    elif k == "filter":
        d["deep"] = draw(st.one_of(st.none(), st.booleans()))
        d["test"] = draw(st.sampled_from(["default", "area", "name", "x",
                                          "all", "none"]))
        d["min"] = draw(g.num(0, 2, 1))
    elif k == "restrict":
        d["geom"] = draw(st.one_of(
            electrode(), st.tuples(st.integers(-4, 4), st.integers(
                -4, 4), st.integers(1, 8), st.integers(1, 8)).map(
                    lambda t: [[[[t[0]/2., t[1]/2.],
                                 [(t[0] + t[2])/2., t[1]/2.],
                                 [(t[0] + t[2])/2., (t[1] + t[3])/2.],
                                 [t[0]/2., (t[1] + t[3])/2.]]]])))
    elif k == "within":
        d["edge"] = draw(st.one_of(st.none(), g.num(.5, 8, 1),
                                   st.integers(1, 8)))
    return d


@st.composite
def _chain(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5),
                       st.integers(6, 14)))
    m = draw(st.integers(1, 4))
    el = electrode() if n < 6 else st.one_of(rectangle(), rectangle(),
                                             rectangle(), electrode())
    return dict(e=[draw(el) for _ in range(n)],
                names=draw(st.lists(st.sampled_from(["a", "b", "c", "d", ""]),
                                    min_size=n, max_size=n)),
                single=draw(st.booleans()),
                ops=[draw(operation()) for _ in range(m)],
                seed=draw(st.integers(0, 10**6)))


def geom(e, single=True):
    from shapely import geometry
    ps = [geometry.Polygon(p[0], p[1:]) for p in e]
    return ps[0] if single and len(ps) == 1 else geometry.MultiPolygon(ps)


def snapshot(p):
    return [(n, q.wkb) for n, q in p]


def outlines(p):
    return [r for _, q in p for r in s.all_rings(q)]


def points(p, seed, extra=()):
    rr = outlines(p) + list(extra)
    if not rr:
        return np.zeros((0, 2)), rr
    return s.sample(rr, seed, 120), rr


def away(pts, rr, tol=3e-4):
    return s.boundary_distance(pts, rr) > tol if rr else np.ones(
        len(pts), bool)


def valid(p):
    for n, q in p:
        require(q.is_valid, "invalid result %s" % q.wkt[:300])


def names(p):
    return [n for n, _ in p]


def area(p):
    return [s.geom_area(q) for _, q in p]


def do_remove_overlaps(p, d, seed, ctx):
    r = p.remove_overlaps()
    check_equal(names(r), names(p), "names")
    pts, rr = points(p, seed)
    ok = away(pts, rr)
    taken = np.zeros(len(pts), bool)
    hit = False
    for (_, a), (_, b) in zip(p, r):
        ia = s.even_odd(pts, a)
        hit |= bool(np.any(ia & taken))
        check_equal(s.even_odd(pts, b)[ok], (ia & ~taken)[ok],
                    "region without overlaps")
        taken |= ia
    from shapely import ops
    n = len(p) + 1
    u = ops.unary_union([q for _, q in p])
    check_close(sum(area(r)), s.geom_area(u), atol=2e-7*n*n,
                what="area of the union")
    for i in range(len(r)):
        for j in range(i):
            require(r[i][1].intersection(r[j][1]).area < 3e-7*n, "overlap")
    if hit:
        ctx.label("overlaps")
        ctx.nontrivial()
    return r


def convex(q):
    for e, ii in s.rings(q):
        if ii:
            return False
        a = np.roll(e, -1, 0) - e
        b = np.roll(a, -1, 0)
        cr = a[:, 0]*b[:, 1] - a[:, 1]*b[:, 0]
        if not (np.all(cr >= 0) or np.all(cr <= 0)):
            return False
    return True


def do_add_gaps(p, d, seed, ctx):
    gap = d["gap"]
    r = p.add_gaps(gap) if gap else p.add_gaps()
    check_equal(names(r), names(p), "names")
    pts, rr = points(p, seed)
    if gap:
        # points at chosen depths
        more = []
        for q in rr:
            b = np.roll(q, -1, 0)
            dd = b - q
            nn = np.c_[-dd[:, 1], dd[:, 0]]/(np.hypot(*dd.T)[:, None]
                                             + 1e-300)
            for f in (.4, .6, .95, 1.05, 1.2, 1.6):
                for sg in (1, -1):
                    more.append(q + .5*dd + sg*f*gap/2*nn)
        pts = np.concatenate([pts] + more) if more else pts
    for (_, a), (_, b) in zip(p, r):
        ia = s.even_odd(pts, a)
        ib = s.even_odd(pts, b)
        ring = s.all_rings(a)
        if not ring:
            require(b.is_empty, "something from nothing")
            continue
        dist = s.boundary_distance(pts, ring)
        h = gap/2.
        lo = .98 if convex(a) else .37
        out = ~ia & (dist > 1e-9)
        require(not np.any(ib & out), "outside of the electrode")
        require(not np.any(ib & (dist < lo*h - 1e-9)), "within the gap")
        inn = ia & (dist > 1.02*h + 1e-9)
        require(np.all(ib[inn]), "shrunk by more than half the gap")
        if gap and np.any(inn):
            ctx.label("gap")
            ctx.nontrivial()
    return r


def do_unify(p, d, seed, ctx):
    r = p.unify()
    check_equal(names(r), names(p), "names")
    same_regions(p, r, seed)
    return r


def same_regions(p, r, seed, tol=1e-7):
    pts, rr = points(p, seed)
    ok = away(pts, rr, tol)
    for (_, a), (_, b) in zip(p, r):
        check_equal(s.even_odd(pts, b)[ok], s.even_odd(pts, a)[ok], "region")


def do_unify_by_name(p, d, seed, ctx):
    r = p.unify_by_name()
    order = []
    for n in names(p):
        if n not in order:
            order.append(n)
    check_equal(names(r), order, "names")
    pts, rr = points(p, seed)
    ok = away(pts, rr, 1e-7)
    for n, b in r:
        want = np.zeros(len(pts), bool)
        for m, a in p:
            if m == n:
                want |= s.even_odd(pts, a)
        check_equal(s.even_odd(pts, b)[ok], want[ok], "merged region")
    if len(order) < len(p):
        ctx.label("merged")
        ctx.nontrivial()
    return r


def do_simplify(p, d, seed, ctx):
    b = d["buffer"]
    r = p.simplify(b, preserve_topology=d["topo"]) if d["topo"] else (
        p.simplify(b))
    check_equal(names(r), names(p), "names")
    if b == 0:
        same_regions(p, r, seed)
        return r
    for (_, a), (_, q) in zip(p, r):
        ra, rq = s.all_rings(a), s.all_rings(q)
        if not rq:
            continue
        t = np.linspace(0, 1, 5)[:, None, None]
        for e in rq:
            pts = (e + t*(np.roll(e, -1, 0) - e)).reshape(-1, 2)
            dd = s.boundary_distance(pts, ra)
            # the start vertex of an outline can be dropped as well, on top
            # of the other simplifications: twice the tolerance
            require(np.all(dd <= 2*b*(1 + 1e-9) + 1e-12),
                    "outline too far from the original")
        if not d["topo"]:
            # (the other algorithm depends on memory addresses)
            w = a.simplify(b, preserve_topology=False)
            check_close(s.geom_area(q), s.geom_area(w), atol=1e-9,
                        what="area after simplification")
        if sum(map(len, rq)) < sum(map(len, ra)):
            ctx.label("simplified")
            ctx.nontrivial()
        if d["topo"]:
            check_equal(len(rq), len(ra), "number of outlines")
    return r


def do_filter(p, d, seed, ctx):
    deep, kind, mn = d["deep"], d["test"], d["min"]
    deepv = True if deep is None else deep
    kw = {} if deep is None else dict(deep=deep)
    calls = []

    def keep(name, e, ints=()):
        """decision for the ring e or the polygon (e, ints)"""
        if kind == "default":
            return abs(o.shoelace(e)) - sum(abs(o.shoelace(i))
                                            for i in ints) > 1e-2
        if kind == "area":
            return abs(o.shoelace(e)) - sum(abs(o.shoelace(i))
                                            for i in ints) > mn
        if kind == "name":
            return name in ("a", "b")
        if kind == "x":
            return e[:, 0].min() > -mn
        return kind == "all"

    def test(name, q):
        calls.append(name)
        if deepv:
            e, ii = np.array(q.coords)[:-1, :2], []
        else:
            (e, ii), = s.rings(q)
        return bool(keep(name, e, ii))
    if kind == "default":
        r = p.filter(**kw)
    else:
        r = p.filter(test, **kw)
        require(set(calls) <= set(names(p)), "names given to the test")
    want = []
    for n, q in p:
        patches = []
        for e, ii in s.rings(q):
            if deepv:
                if keep(n, e):
                    patches.append((e, [i for i in ii if keep(n, i)]))
            elif keep(n, e, ii):
                patches.append((e, ii))
        if patches:
            want.append((n, patches))
    check_equal(names(r), [n for n, _ in want], "names")
    for (_, q), (_, w) in zip(r, want):
        got = s.rings(q)
        check_equal(len(got), len(w), "patches")
        for (e, ii), (f, jj) in zip(got, w):
            check_close(abs(o.shoelace(e)), abs(o.shoelace(f)), atol=1e-12,
                        what="kept patch")
            check_equal(len(ii), len(jj), "holes")
            check_equal(sorted(map(tuple, e.tolist())),
                        sorted(map(tuple, f.tolist())), "vertices")
            for u, v in zip(ii, jj):
                check_equal(sorted(map(tuple, u.tolist())),
                            sorted(map(tuple, v.tolist())), "vertices")
    if len(outlines(r)) < len(outlines(p)):
        ctx.label("filtered")
        ctx.nontrivial()
    return r


def inter(p, r, q, seed, ctx):
    check_equal(names(r), names(p), "names")
    ro = s.all_rings(q)
    pts, rr = points(p, seed, ro)
    ok = away(pts, rr, 1e-7)
    iq = s.even_odd(pts, q)
    cut = False
    for (_, a), (_, b) in zip(p, r):
        ia = s.even_odd(pts, a)
        check_equal(s.even_odd(pts, b)[ok], (ia & iq)[ok], "intersection")
        check_close(s.geom_area(b), a.intersection(q).area, atol=1e-9,
                    what="area of the intersection")
        cut |= bool(np.any(ia & ~iq))
        require(b.type in ("Polygon", "MultiPolygon") or b.is_empty,
                "a shape that is no area: " + b.wkt[:200])
    if cut:
        ctx.label("clipped")
        ctx.nontrivial()
    return r


def do_restrict(p, d, seed, ctx):
    q = geom(d["geom"])
    k = q.wkb
    r = p.restrict(q)
    check_equal(q.wkb, k, "region modified")
    return inter(p, r, q, seed, ctx)


def do_within(p, d, seed, ctx):
    from shapely import geometry
    e = d["edge"]
    r = p.within() if e is None else p.within(e)
    h = (50 if e is None else e)/2.
    return inter(p, r, geometry.box(-h, -h, h, h), seed, ctx)


def do_gaps_union(p, d, seed, ctx):
    u = p.gaps_union()
    rr = outlines(p)
    if not rr:
        require(u.is_empty, "gaps from nothing")
        return p
    lines = [np.array(l.coords)[:, :2] for l in getattr(u, "geoms", [u])
             if not l.is_empty]
    seg = np.concatenate([np.c_[l[:-1], l[1:]] for l in lines])
    # every outline point is on the union
    t = np.linspace(.013, .987, 7)[:, None, None]
    for q in rr:
        pts = (q + t*(np.roll(q, -1, 0) - q)).reshape(-1, 2)
        dd = s.boundary_distance(pts, [k.reshape(2, 2) for k in seg])
        require(np.all(dd < 1e-7), "outline missing from the union")
    # and the other way round
    pts = (seg[:, :2] + t*(seg[:, 2:] - seg[:, :2])).reshape(-1, 2)
    require(np.all(s.boundary_distance(pts, rr) < 1e-7),
            "gap where there is no outline")
    if len(rr) > 1:
        ctx.nontrivial()
    return p


def do_validate(p, d, seed, ctx):
    p.validate()
    return p


def check_smooth(c, ctx):
    """without strength, smoothing keeps the outlines"""
    from electrode.polygons import Polygons
    f = 2.**c["f"]
    p = Polygons((n, geom([[np.array(q)*f for q in t] for t in e],
                          c["single"]))
                 for n, e in zip(c["names"], c["e"]))
    before = snapshot(p)
    r = p.smooth(smoothing=0.)
    check_equal(snapshot(p), before, "input modified")
    check_equal(names(r), names(p), "names")
    same_regions(p, r, c["seed"], 1e-7*f)
    for (_, a), (_, b) in zip(p, r):
        check_close(s.geom_area(b), s.geom_area(a), atol=1e-9*f*f,
                    what="area")
        check_equal(len(s.all_rings(b)), len(s.all_rings(a)), "outlines")
    if c["sm"]:
        q = p.smooth(smoothing=c["sm"]*f*f)
        check_equal(names(q), names(p), "names")
        q = p.smooth(smoothing=0., knots=c["knots"])
        for (_, a), (_, b) in zip(p, q):
            # knots are on the outline
            ra = s.all_rings(a)
            for v in s.all_rings(b):
                require(np.all(s.boundary_distance(v, ra) < 1e-6*f),
                        "knot off the outline")
    ctx.nontrivial(len(outlines(p)) > 1)


@st.composite
def _smooth(draw):
    n = draw(st.integers(1, 3))
    el = electrode() if n < 6 else st.one_of(rectangle(), rectangle(),
                                             rectangle(), electrode())
    return dict(e=[draw(el) for _ in range(n)],
                names=draw(st.lists(st.sampled_from(["a", "b", ""]),
                                    min_size=n, max_size=n)),
                f=draw(st.sampled_from([0, 0, 0, -20, 10])),
                single=draw(st.booleans()), sm=draw(st.sampled_from(
                    [0, 0, 1e-3, .1])), knots=draw(st.integers(5, 30)),
                seed=draw(st.integers(0, 10**6)))


@st.composite
def _weights(draw):
    n = draw(st.integers(4, 8))
    return dict(n=n, rad=draw(st.lists(g.num(1, 3, 2), min_size=n,
                                       max_size=n)),
                turn=draw(g.num(0, 6, 2)),
                split=draw(st.lists(st.integers(0, 4), min_size=n,
                                    max_size=n)),
                straight=draw(st.sampled_from([None, None, 1e3, 10., .1])),
                corner=draw(st.sampled_from([None, 1e3, 1e3, 10., 100.])),
                sm=draw(st.sampled_from([1e-3, 1e-2, .1, 1.])),
                f=draw(st.sampled_from([0, 0, 0, -20, 10])),
                hole=draw(st.booleans()))


def check_weights(c, ctx):
    """the distances from the vertices, weighted, are within the smoothing
    strength"""
    from shapely import geometry
    from electrode.polygons import Polygons
    f = 2.**c["f"]
    n = c["n"]
    a = c["turn"] + 2*np.pi*np.arange(n)/n
    corners = np.array(c["rad"])[:, None]*np.c_[np.cos(a), np.sin(a)]
    ring, kind = [], []
    for i in range(n):
        m = c["split"][i]
        for j in range(m + 1):
            ring.append(corners[i]*(1 - j/(m + 1.))
                        + corners[(i + 1) % n]*j/(m + 1.))
            # next to a vertex in a straight line?
            kind.append("straight" if j else "corner" if m or
                        c["split"][i - 1] else "plain")
    d = np.diff(np.array(corners)[list(range(n)) + [0, 1]], axis=0)
    bend = (d[:-1, 0]*d[1:, 1] - d[:-1, 1]*d[1:, 0])/np.hypot(
        d[:-1, 0], d[:-1, 1])/np.hypot(d[1:, 0], d[1:, 1])
    if np.abs(bend).min() < 1e-2:
        ctx.skip("almost straight corner")
    ring = np.array(ring)*f
    rings = [ring] + ([(ring*.2)[::-1]] if c["hole"] else [])
    p = Polygons([("a", geometry.MultiPolygon([geometry.Polygon(
        rings[0], rings[1:])]))])
    kw = dict((k, c[k]) for k in ("straight", "corner") if c[k] is not None)
    try:
        q = p.smooth(smoothing=c["sm"]*f*f, **kw)
    except AssertionError:
        ctx.skip("the spline was not found")
    require(names(q) == ["a"], "names")
    out = s.all_rings(q[0][1])
    if len(out) != len(rings):
        ctx.skip("outlines vanish")
    for i, (r, o) in enumerate(zip(rings, out)):
        k = kind if not i else kind[::-1]
        w = np.array([c.get(x) or 1. for x in k])
        total = ((w*s.boundary_distance(r, [o]))**2).sum()
        lim = c["sm"]*f*f*(len(r) + 1)
        require(total <= 1.02*lim + 1e-20*f*f,
                "weighted distance %s, limit %s" % (total, lim))
        if total > .3*lim:
            ctx.label("at the limit")
    ctx.nontrivial(len(set(kind)) > 1 and bool(kw))


@st.composite
def _tilegaps(draw):
    n = draw(st.integers(1, 4))
    own = {}
    for i in range(n):
        for t in draw(st.lists(st.tuples(st.integers(0, 4), st.integers(
                0, 4)), min_size=1, max_size=7, unique=True)):
            own.setdefault(tuple(t), i)
    return dict(cells=[[list(t) for t in sorted(own) if own[t] == i]
                       for i in range(n)], step=draw(st.sampled_from(
                           [1, .5, 3])))


def check_tilegaps(c, ctx):
    """exact: electrodes made of cells of a square lattice"""
    from shapely import geometry, ops
    from electrode.polygons import Polygons
    k = c["step"]
    p = Polygons()
    edges = set()
    for i, cells in enumerate(c["cells"]):
        if not cells:
            continue
        p.append(("t%d" % i, ops.unary_union([geometry.box(
            x*k, y*k, (x + 1)*k, (y + 1)*k) for x, y in cells])))
        mine = {}
        for x, y in cells:
            for e in ((x, y, x + 1, y), (x, y + 1, x + 1, y + 1),
                      (x, y, x, y + 1), (x + 1, y, x + 1, y + 1)):
                mine[e] = mine.get(e, 0) + 1
        edges |= {e for e, m in mine.items() if m == 1}
    u = p.gaps_union()
    check_close(u.length, len(edges)*float(k), atol=1e-9, what="length")
    for e in edges:
        l = geometry.LineString([(e[0]*k, e[1]*k), (e[2]*k, e[3]*k)])
        check_close(u.intersection(l).length, float(k), atol=1e-9,
                    what="edge %s in the gaps" % (e,))
    ctx.nontrivial(len(p) > 1)


def check_chain(c, ctx):
    from electrode.polygons import Polygons
    p = Polygons((n, geom(e, c["single"]))
                 for n, e in zip(c["names"], c["e"]))
    for i, d in enumerate(c["ops"]):
        if not all(q.is_valid for _, q in p):
            # simplification and filtering do not promise validity
            ctx.label("invalid intermediate")
            return
        before = snapshot(p)
        r = globals()["do_" + d["op"]](p, d, c["seed"] + i, ctx)
        check_equal(snapshot(p), before, "input of %s modified" % d["op"])
        require(isinstance(r, Polygons), "type")
        if d["op"] in ("remove_overlaps", "add_gaps", "unify",
                       "unify_by_name", "restrict", "within"):
            valid(r)
        ctx.label(d["op"])
        p = r
        if r is not None and d["op"] in ("gaps_union", "validate"):
            continue
    # still usable
    back = p.to_system()
    check_equal(back.names, names(p), "names")
    for e, (_, q) in zip(back, p):
        if q.is_valid:
            check_close(sum(o.shoelace(v) for v in e.paths),
                        s.geom_area(q), atol=1e-9, what="area in the system")


@st.composite
def _raw(draw):
    """electrodes whose patches overlap, valid and invalid shapes"""
    n = draw(st.integers(1, 4))
    return dict(e=[draw(st.lists(electrode(), min_size=1, max_size=3))
                   for _ in range(n)],
                bad=draw(st.sampled_from(["no", "no", "bowtie", "hole",
                                          "overlap"])),
                at=draw(st.integers(0, n)), seed=draw(st.integers(0, 10**6)))


def check_raw(c, ctx):
    from shapely import geometry
    from electrode.polygons import Polygons
    p = Polygons()
    for i, es in enumerate(c["e"]):
        flat = [q for e in es for q in e]
        p.append(("e%d" % i, geom(flat, False)))
    before = snapshot(p)
    r = p.unify()
    check_equal(snapshot(p), before, "input modified")
    check_equal(names(r), names(p), "names")
    valid(r)
    same_regions(p, r, c["seed"])
    r.validate()
    require(p.validate() is None if all(q.is_valid for _, q in p)
            else isinstance(raises(p.validate, ValueError), ValueError),
            "validation")
    # validation
    bad = {"bowtie": geometry.Polygon([(0, 0), (1, 1), (1, 0), (0, 1)]),
           "hole": geometry.Polygon([(0, 0), (1, 0), (1, 1), (0, 1)],
                                    [[(3, 3), (4, 3), (4, 4)]]),
           "overlap": geometry.MultiPolygon([
               geometry.box(0, 0, 2, 2), geometry.box(1, 1, 3, 3)])}.get(
                   c["bad"])
    v = Polygons(r)
    if bad is not None:
        v.insert(min(c["at"], len(v)), ("bad", bad))
        raises(v.validate, ValueError)
        ctx.label("invalid")
        # unifying repairs overlapping patches
        if c["bad"] == "overlap":
            u = v.unify()
            u.validate()
            check_close(sum(area(u)) - sum(area(r)), 7., atol=1e-9,
                        what="area")
    else:
        v.validate()
    ctx.nontrivial(any(not q.is_valid for _, q in p))


@st.composite
def _scaled(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(4, 9)))
    return dict(e=[draw(electrode()) for _ in range(n)],
                names=draw(st.lists(st.sampled_from(["a", "b", "c", ""]),
                                    min_size=n, max_size=n)),
                single=draw(st.booleans()),
                k=draw(st.sampled_from([-20, -20, -10, 7, 20])),
                ops=draw(st.lists(operation(), min_size=1, max_size=3)),
                seed=draw(st.integers(0, 10**6)))


def apply_op(p, d, f):
    k = d["op"]
    if k == "add_gaps":
        return p.add_gaps(d["gap"]*f)
    if k == "simplify":
        return p.simplify(d["buffer"]*f)
    if k == "filter":
        deep = True if d["deep"] is None else d["deep"]

        def test(name, q):
            from shapely import geometry
            if deep:
                q = geometry.Polygon(q)
            return abs(q.area) > d["min"]*f*f and (
                d["test"] != "name" or name in ("a", "b"))
        return p.filter(test, deep=deep)
    if k == "restrict":
        return p.restrict(geom([[np.array(r)*f for r in t]
                                for t in d["geom"]]))
    if k == "within":
        return p.within((3. if d["edge"] is None else d["edge"])*f)
    return getattr(p, k)()


def check_scaled(c, ctx):
    """the operations do not know the unit of length"""
    from electrode.polygons import Polygons
    f = 2.**c["k"]
    p = Polygons((n, geom(e, c["single"]))
                 for n, e in zip(c["names"], c["e"]))
    q = Polygons((n, geom([[np.array(r)*f for r in t] for t in e],
                          c["single"]))
                 for n, e in zip(c["names"], c["e"]))
    done = False
    for d in c["ops"]:
        if not all(a.is_valid for _, a in list(p) + list(q)):
            break
        if d["op"] == "gaps_union":
            u, v = p.gaps_union(), q.gaps_union()
            check_close(v.length/f, u.length, rtol=1e-7, atol=1e-9,
                        what="length of the gaps")
            continue
        if d["op"] == "validate":
            q.validate()
            continue
        r, t = apply_op(p, d, 1.), apply_op(q, d, f)
        check_equal(names(t), names(r), "names after " + d["op"])
        pts, rr = points(r, c["seed"])
        tr = [b/f for b in outlines(t)]
        ok = away(pts, rr + tr, 1e-6)
        for (_, a), (_, b), (_, o0) in zip(r, t, p):
            check_close(s.geom_area(b)/f/f, s.geom_area(a), rtol=1e-7,
                        atol=3e-7*(len(p) + 1), what="area after "
                        + d["op"])
            check_equal(s.even_odd(pts*f, b)[ok], s.even_odd(pts, a)[ok],
                        "region after " + d["op"])
            done |= abs(s.geom_area(o0) - s.geom_area(a)) > 1e-3
        ctx.label(d["op"])
        p, q = r, t
    ctx.nontrivial(bool(done))


SUBS = [
    Sub("scaled", _scaled, check_scaled, 500, 15000,
        "an operation that changes an area", shards=3),
    Sub("chain", _chain, check_chain, 1000, 40000,
        "an operation that changes something", shards=6),
    Sub("smooth", _smooth, check_smooth, 200, 4000,
        "several outlines", shards=1),
    Sub("smoothing strength", _weights, check_weights, 200, 6000,
        "straight vertices and weights", shards=1),
    Sub("gaps_union", _tilegaps, check_tilegaps, 400, 8000,
        "several electrodes", shards=1),
    Sub("unify_validate", _raw, check_raw, 300, 8000,
        "an electrode with overlapping patches", shards=2),
]
