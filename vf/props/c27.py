"""C27 cutting a field by polygons, gaps and routes"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import shapes as s
from ..core import Sub, check_close, check_equal, require

# ---------------------------------------------------------------- lattice
# cells (i, j) with 0 <= i, j < n are the square; the lattice extends beyond

M = 2       # margin


@st.composite
def walk(draw, n):
    """a path along lattice lines, list of (i, j) vertices"""
    k = draw(st.integers(0, 4))
    if k == 0:
        # straight through
        a = draw(st.integers(0, n))
        p = [(a, -1), (a, n + 1)]
        return p if draw(st.booleans()) else [v[::-1] for v in p]
    if k == 1:
        # closed rectangle
        i, j = draw(st.integers(-1, n - 1)), draw(st.integers(-1, n - 1))
        u, v = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        u, v = min(i + u, n + 1), min(j + v, n + 1)
        return [(i, j), (u, j), (u, v), (i, v), (i, j)]
    # random walk
    x, y = draw(st.integers(-1, n + 1)), draw(st.integers(-1, n + 1))
    out = [(x, y)]
    for d in draw(st.lists(st.integers(0, 3), min_size=2, max_size=8)):
        dx, dy = ((1, 0), (0, 1), (-1, 0), (0, -1))[d]
        x2, y2 = x + dx, y + dy
        if -1 <= x2 <= n + 1 and -1 <= y2 <= n + 1:
            if len(out) > 1 and (x2, y2) == out[-2]:
                continue
            out.append((x2, y2))
            x, y = x2, y2
    if len(out) < 2:
        out = [(x, y), (x + 1, y) if x <= n else (x - 1, y)]
    return out


@st.composite
def _lattice(draw):
    n = draw(st.integers(2, 6))
    h = draw(st.sampled_from([1., 1., .5, 4.]))
    used = set()
    polys = []
    for _ in range(draw(st.integers(0, 3))):
        i, j = draw(st.integers(-2, n)), draw(st.integers(-2, n))
        w, e = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        w, e = min(w, n + 2 - i), min(e, n + 2 - j)
        cells = [(i + a, j + b) for a in range(w) for b in range(e)]
        ring = [(i, j), (i + w, j), (i + w, j + e), (i, j + e)]
        if w > 1 and e > 1 and draw(st.booleans()):
            # L shape
            cells.remove((i + w - 1, j + e - 1))
            ring = [(i, j), (i + w, j), (i + w, j + e - 1),
                    (i + w - 1, j + e - 1), (i + w - 1, j + e), (i, j + e)]
        if used & set(cells):
            continue
        used |= set(cells)
        k = draw(st.integers(0, len(ring) - 1))
        ring = ring[k:] + ring[:k]
        if draw(st.booleans()):
            ring = ring[::-1]
        polys.append([draw(st.sampled_from(["p", "q", "", "p1"])),
                      ring + ring[:1], cells])
    gaps = draw(st.lists(walk(n), max_size=4))
    routes = draw(st.lists(walk(n), max_size=2))
    bridges = draw(st.lists(walk(n), max_size=2)) if routes else []
    names = draw(st.lists(st.tuples(
        st.sampled_from(["A", "B", "C", "D", ""]),
        st.integers(-1, n), st.integers(-1, n)), max_size=4))
    return dict(n=n, h=h, polys=polys, gaps=gaps, routes=routes,
                bridges=bridges, names=names,
                buffer=draw(st.sampled_from([None, None, 1e-8, 1e-6])),
                split=draw(st.booleans()))


def segments(paths):
    out = set()
    for p in paths:
        for (a, b), (c, d) in zip(p[:-1], p[1:]):
            if a == c:
                for y in range(min(b, d), max(b, d)):
                    out.add((a, y, a, y + 1))
            else:
                for x in range(min(a, c), max(a, c)):
                    out.add((x, b, x + 1, b))
    return out


def sides(seg):
    """the two cells of a lattice segment"""
    a, b, c, d = seg
    if a == c:
        return (a - 1, b), (a, b)
    return (a, b - 1), (a, b)


def between(p, q):
    """the segment between two cells"""
    (a, b), (c, d) = p, q
    if b == d:
        x = max(a, c)
        return (x, b, x, b + 1)
    y = max(b, d)
    return (a, y, a + 1, y)


def components(cells, walls):
    cells = set(cells)
    out = []
    while cells:
        todo = [min(cells)]
        cells.discard(todo[0])
        comp = set(todo)
        while todo:
            x, y = todo.pop()
            for v in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                if v in cells and between((x, y), v) not in walls:
                    cells.discard(v)
                    comp.add(v)
                    todo.append(v)
        out.append(comp)
    return out


def model(c):
    n = c["n"]
    square = {(i, j) for i in range(n) for j in range(n)}
    gaps, routes = segments(c["gaps"]), segments(c["routes"])
    loop = routes | segments(c["bridges"])
    enclosed = set()
    if c["routes"] and c["bridges"]:
        big = {(i, j) for i in range(-M, n + M) for j in range(-M, n + M)}
        for comp in components(big, loop):
            if (-M, -M) not in comp:
                enclosed |= comp
    # gaps inside of enclosed faces are undone (on both sides)
    walls = {w for w in gaps if not all(k in enclosed for k in sides(w))}
    walls |= routes
    taken = set()
    polys = []
    for name, ring, cells in c["polys"]:
        cc = {tuple(k) for k in cells} & square
        taken |= cc
        polys.append((name, cc))
    rest = components(square - taken, walls)
    if not c["gaps"] and not c["routes"]:
        rest = []
    return polys, rest


def check_lattice(c, ctx):
    from electrode.polygons import Polygons
    n, h = c["n"], c["h"]
    c = dict(c, polys=[(nm, [tuple(v) for v in r], cc)
                       for nm, r, cc in c["polys"]])
    for k in ("gaps", "routes", "bridges"):
        c[k] = [[tuple(v) for v in p] for p in c[k]]

    def xy(p):
        return (np.array(p, float) - n/2.)*h
    args = dict(polys=[(nm, xy(r)) for nm, r, _ in c["polys"]],
                gaps=[xy(p) for p in c["gaps"]],
                routes=[xy(p) for p in c["routes"]],
                bridges=[xy(p) for p in c["bridges"]],
                names=[(nm, tuple((np.array([i, j]) + .5 - n/2.)*h))
                       for nm, i, j in c["names"]], edge=n*h)
    if c["buffer"]:
        args["buffer"] = c["buffer"]
    for k in ("polys", "gaps", "routes", "bridges", "names"):
        if not args[k] and c["split"]:
            del args[k]
    r = Polygons.from_data(**args)
    require(isinstance(r, Polygons), "type")
    polys, rest = model(c)
    cen = np.array([[i, j] for i in range(-1, n + 1)
                    for j in range(-1, n + 1)])
    pts = (cen + .5 - n/2.)*h
    # off-centre points see everything larger than the gap width
    rng = np.random.RandomState(len(c["gaps"]) + 7*n)
    more = pts + (rng.rand(*pts.shape) - .5)*h*.9
    got = []
    for name, q in r:
        require(q.is_valid, "invalid fragment %s" % q.wkt[:200])
        inside = s.even_odd(pts, q)
        check_equal(s.even_odd(more, q), inside, "fragment within a cell")
        got.append((name, frozenset(tuple(v) for v in cen[inside].tolist()),
                    q))
    tol = 1e-6 if not c["buffer"] else 200*c["buffer"]*(1 + n*h)
    for name, cells, q in got:
        check_close(s.geom_area(q), len(cells)*h*h, atol=tol*h,
                    what="area of a fragment")
    # model with the names
    frag = [(nm, frozenset(cc)) for nm, cc in polys]
    fixed = len(frag)
    frag += [("", frozenset(cc)) for cc in rest]
    expect = list(frag)
    if c["names"]:
        left = list(range(len(frag)))
        named = []
        for nm, i, j in c["names"]:
            for k in left:
                if (i, j) in frag[k][1]:
                    named.append((nm, frag[k][1]))
                    left.remove(k)
                    break
        # names of a position in no (remaining) fragment do nothing
        expect = named + [frag[k] for k in left]
        # the order of the fragments of the field is not specified
        check_equal([x[:2] for x in got[:len(named)]], named,
                    "named fragments")
        rem = [x[:2] for x in got[len(named):]]
        pl = [frag[k] for k in left if k < fixed]
        check_equal(rem[:len(pl)], pl, "polygons")
        check_equal(sorted((a, sorted(b)) for a, b in rem[len(pl):]),
                    sorted((a, sorted(b)) for a, b in
                           [frag[k] for k in left if k >= fixed]),
                    "fragments of the field")
    else:
        check_equal([x[:2] for x in got[:fixed]], frag[:fixed], "polygons")
        check_equal(sorted((a, sorted(b)) for a, b, _ in got[fixed:]),
                    sorted((a, sorted(b)) for a, b in frag[fixed:]),
                    "fragments of the field")
    check_equal(len(got), len(expect), "number of fragments")
    # within the square, no overlaps
    for name, cells, q in got:
        if not q.is_empty:
            b = np.abs(q.bounds).max()
            require(b <= n*h/2*(1 + 1e-9), "outside of the square")
    for i in range(len(got)):
        for j in range(i):
            require(got[i][2].intersection(got[j][2]).area < tol*h,
                    "fragments overlap")
    if c["gaps"] or c["routes"]:
        check_close(sum(s.geom_area(q) for _, _, q in got), (n*h)**2,
                    atol=tol*h*10, what="covered area")
    # usable
    back = r.to_system()
    check_equal(back.names, [x[0] for x in got], "names in the system")
    for e, (_, cells, _) in zip(back, got):
        check_close(sum(o.shoelace(v) for v in e.paths), len(cells)*h*h,
                    atol=tol*h, what="area in the system")
    ctx.label("%d fragments" % min(len(got), 6))
    for k in ("polys", "gaps", "routes", "bridges", "names"):
        if c[k]:
            ctx.label(k)
    ctx.nontrivial(len(got) > 1 and bool(c["gaps"] or c["routes"]))


# ------------------------------------------------- gaps in any direction

@st.composite
def line(draw, e):
    k = draw(st.integers(0, 3))
    if k == 0:
        return [[round(x, 2), round(y, 2)] for x, y in
                draw(g.star(rmin=.1*e, rmax=.5*e, cr=.4*e))]
    v = st.tuples(g.num(-.7*e, .7*e, 2), g.num(-.7*e, .7*e, 2)).map(list)
    return draw(st.lists(v, min_size=2, max_size=5, unique_by=tuple))


@st.composite
def _free(draw):
    e = draw(st.sampled_from([10., 40., 3.]))
    gaps = []
    for _ in range(draw(st.integers(1, 4))):
        p = draw(line(e))
        if len(p) > 2 and draw(st.booleans()):
            p = p + p[:1]
        gaps.append(p)
    return dict(edge=e, gaps=gaps, route=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


def check_free(c, ctx):
    from shapely import geometry, ops
    from electrode.polygons import Polygons
    e = c["edge"]
    gaps = [np.array(p) for p in c["gaps"]]
    # a vertex that misses a line by less than the gap width
    for p in gaps:
        for v in p:
            for q in gaps:
                for a, b in zip(q[:-1], q[1:]):
                    dd = s.boundary_distance([v], [np.array([a, b])])[0]
                    if 0 < dd < 1e-6:
                        ctx.skip("vertex within the gap width of a line")
    # (GEOS does not always resolve the default width, see DESIGN.md)
    r = Polygons.from_data(**{"routes" if c["route"] else "gaps": gaps,
                              "edge": e, "buffer": 1e-8})
    box = geometry.box(-e/2, -e/2, e/2, e/2)
    net = ops.unary_union([geometry.LineString(p) for p in gaps]
                          + [box.exterior])
    faces = [f for f in ops.polygonize(net)
             if box.contains(f.representative_point())]
    small = 1e-5*e*e
    # slivers of the size of the buffer may or may not be there
    want = sorted((f.area for f in faces if f.area > small), reverse=True)
    got = sorted((s.geom_area(q) for _, q in r), reverse=True)
    got = [a for a in got if a > small/2]
    want2 = [a for a in want if a > 2*small]
    check_equal(names_of(r), {""} if r else set(), "names")
    require(len(got) >= len(want2) and all(
        abs(a - b) < 1e-6*e for a, b in zip(got, want2)),
        "areas of the fragments %s, of the faces %s" % (got, want))
    for _, q in r:
        require(q.is_valid, "invalid fragment")
        require(np.abs(q.bounds).max() <= e/2*(1 + 1e-9), "outside")
    check_close(sum(s.geom_area(q) for _, q in r), e*e, atol=1e-6*e,
                what="covered area")
    for i in range(len(r)):
        for j in range(i):
            require(r[i][1].intersection(r[j][1]).area < 1e-6*e, "overlap")
    # every face is one fragment
    for f in faces:
        if f.area > 2*small:
            p = f.buffer(-1e-5*e)
            if p.is_empty or p.type != "Polygon":
                continue
            hit = [q for _, q in r if q.intersection(p).area > 1e-4*p.area]
            check_equal(len(hit), 1, "fragments of a face")
            check_close(s.geom_area(hit[0]), f.area, atol=1e-6*e,
                        what="area of the face")
    ctx.label("%d faces" % min(len(want), 6))
    ctx.nontrivial(len(want) > 1)


def names_of(r):
    return {n for n, _ in r}


# ---------------------------------------------------------------- pads

@st.composite
def _pads(draw):
    return dict(step=draw(st.sampled_from([10., .25, .5, 1., 3., 2.5, 7, .1, .2,
                                           .3, .7, 1.1, .05, 1e-4, 3e-5])),
                ratio=draw(st.one_of(st.integers(1, 30).map(float), g.num(
                    1, 30, 2))), odd=draw(st.booleans()),
                corner=draw(st.integers(0, 3)), default=draw(st.booleans()))


def check_pads(c, ctx):
    from electrode.polygons import square_pads
    step = c["step"]
    # as a user would write it
    edge = float("%.9g" % (step*c["ratio"]))
    if c["default"]:
        step, edge = 10., 200.
        xy = square_pads(odd=c["odd"], start_corner=c["corner"])
    else:
        xy = square_pads(step, edge, c["odd"], c["corner"])
    xy = np.array(xy)
    # number of pads per edge
    q = edge/step
    # as many as fit: rounding does not lose one
    n0 = {int(np.floor(q + 1e-12*q))}
    if abs(q - round(q)) > 1e-12*q and abs(q - round(q)) < 1e-6:
        n0 |= {int(round(q)), int(round(q)) - 1}
    if c["odd"]:
        n0 = {k if k % 2 else k + 1 for k in n0}
    require(xy.ndim == 2 and xy.shape[1] == 2 and len(xy) % 4 == 0, "shape")
    n = len(xy)//4
    require(n in n0, "%d pads per edge" % n)
    p = (np.arange(n) - (n - 1)/2.)*step
    w = np.full(n, edge/2 - step/2)
    # left edge downwards, bottom, right upwards, top leftwards
    sides_ = [np.c_[-w, -p], np.c_[p, -w], np.c_[w, p], np.c_[-p, w]]
    k = c["corner"]
    check_close(xy, np.concatenate(sides_[k:] + sides_[:k]),
                atol=1e-9*edge, what="pads")
    if c["odd"]:
        require(np.any(np.abs(xy[:n]) < 1e-9*edge), "no pad in the center")
    ctx.label("odd" if c["odd"] else "any")
    ctx.nontrivial(n > 1)


@st.composite
def _assign(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(5, 20)))
    cells = {}
    for i in range(n):
        for t in draw(st.lists(st.tuples(st.integers(0, 4), st.integers(
                0, 4)), min_size=1, max_size=7, unique=True)):
            cells.setdefault(tuple(t), i)
    m = draw(st.one_of(st.integers(0, 7), st.integers(8, 25)))
    at = st.one_of(g.num(.1, .9, 1), g.num(.1, .9, 1), st.just(0.))
    return dict(cells=[[list(t) for t in sorted(cells) if cells[t] == i]
                       for i in range(n)],
                pads=[[draw(st.integers(-1, 5)), draw(st.integers(-1, 5)),
                       draw(at), draw(at)]
                      for _ in range(m)], overlap=draw(st.booleans()))


def check_assign(c, ctx):
    from shapely import geometry, ops
    from electrode.polygons import Polygons
    p = Polygons()
    all_cells = []
    for i, cells in enumerate(c["cells"]):
        if c["overlap"] and c["cells"][i - 1]:
            cells = cells + c["cells"][i - 1][:2]
        all_cells.append(cells)
        p.append(("t%d" % i, ops.unary_union([
            geometry.box(x, y, x + 1, y + 1) for x, y in cells])
            if cells else geometry.Polygon()))
    pads = [(x + a, y + b) for x, y, a, b in c["pads"]]
    got = list(p.assign_to_pad(pads))
    left = list(range(len(p)))
    want = []
    for k, xy in enumerate(pads):
        for i in left:
            # inside or on the outline
            if any(x <= xy[0] <= x + 1 and y <= xy[1] <= y + 1
                   for x, y in all_cells[i]):
                want.append((k, i))
                left.remove(i)
                break
    want += [(None, i) for i in left]
    check_equal([tuple(t) for t in got], want, "assignment")
    check_equal(sorted(i for _, i in got), list(range(len(p))),
                "every polygon once")
    ctx.nontrivial(len(pads) > 1 and len(p) > 1)


SUBS = [
    Sub("lattice", _lattice, check_lattice, 900, 30000,
        "several fragments cut by gaps or routes", shards=5),
    Sub("free", _free, check_free, 400, 15000, "several faces", shards=2),
    Sub("pads", _pads, check_pads, 500, 8000, "several pads per edge"),
    Sub("assign", _assign, check_assign, 400, 8000,
        "several pads and polygons"),
]
