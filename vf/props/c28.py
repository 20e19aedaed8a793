"""C28 layouts through GDS files"""
import io

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import shapes as s
from ..core import Sub, check_close, check_equal, require
from . import c27

NAMES = ["a", "b", "rf", "dc12", "Xy_1", "odd", "even", "x"*31, "p q",
         " lead", "trail ", "A", "0", "x.y/z-w", "l"*60]
LAYERS = st.tuples(st.integers(0, 255), st.integers(0, 255)).map(list)


def save_load(lib):
    from gdsii import library
    f = io.BytesIO()
    lib.save(f)
    return io.BytesIO(f.getvalue()), library.Library.load(
        io.BytesIO(f.getvalue()))


@st.composite
def units(draw):
    """(scale, phys_unit): length of the database unit in layout units
    is phys_unit/scale"""
    scale = draw(st.sampled_from([1., 1e-6, 40e-6, 100e-6, 3.3e-5, 1e-3]))
    dbu = draw(st.sampled_from([1e-3, 1e-4, 2.5e-5, 1e-5, 1e-6, 1e-7]))
    return scale, dbu*scale, dbu


@st.composite
def flat(draw, unique=False):
    """electrodes of disjoint patches without holes"""
    lay = []
    n = draw(st.integers(1, 5))
    cells = draw(st.lists(st.tuples(st.integers(-2, 2), st.integers(-2, 2)),
                          min_size=n, max_size=n, unique=True))
    for i, (x, y) in enumerate(cells):
        p = draw(s.shape_in(2.*x, 2.*y, .98))
        k = draw(st.integers(0, len(p) - 1))
        p = p[k:] + p[:k]
        if lay and draw(st.integers(0, 2)) == 0:
            lay[draw(st.integers(0, len(lay) - 1))].append(p)
        else:
            lay.append([p])
    if unique:
        names = draw(st.permutations(NAMES))[:len(lay)]
    else:
        names = [draw(st.sampled_from(NAMES + ["", ""])) for _ in lay]
    return [[nm, paths] for nm, paths in zip(names, lay)]


def build(c, electrodes=None):
    """Polygons of the electrodes: [name, [ccw paths]]"""
    from shapely import geometry
    from electrode.polygons import Polygons
    p = Polygons()
    for nm, paths in electrodes or c["electrodes"]:
        q = [geometry.Polygon(v[::-1] if c.get("cw") else v) for v in paths]
        if len(q) == 1 and c.get("single"):
            p.append((nm, q[0]))
        else:
            p.append((nm, geometry.MultiPolygon(q)))
    return p


def match_ring(got, want, tol, what):
    """same vertices up to start and direction"""
    got, want = np.asarray(got), np.asarray(want)
    check_equal(len(got), len(want), "%s: number of vertices" % what)
    best = np.inf
    for a in (got, got[::-1]):
        for k in range(len(a)):
            best = min(best, np.abs(np.roll(a, k, 0) - want).max())
    require(best <= tol, "%s: vertices off by %g > %g" % (what, best, tol))


# ------------------------------------------------ polygons and back

@st.composite
def _boundary(draw):
    scale, phys, dbu = draw(units())
    pl, gl = draw(LAYERS), draw(LAYERS)
    text = draw(st.sampled_from([None, "text", "text", "only"]))
    return dict(electrodes=draw(flat()), scale=scale, phys=phys, dbu=dbu,
                poly_layer=pl, gap_layer=gl, text=text,
                text_layer=draw(LAYERS), cw=draw(st.booleans()),
                single=draw(st.booleans()),
                read=draw(st.sampled_from(["all", "layer", "other"])),
                write_gaps=draw(st.booleans()), twice=draw(st.booleans()),
                clip=draw(st.sampled_from([None, 11., 100.])))


def check_boundary(c, ctx):
    from gdsii import elements
    from electrode.polygons import Polygons
    p = build(c)
    before = [(n, q.wkb) for n, q in p]
    patches = [(nm, np.array(v)) for nm, paths in c["electrodes"]
               for v in paths]
    tol = (.5 + 1e-6)*c["dbu"] + 1e-12
    for rnd in range(1 + c["twice"]):
        kw = dict(scale=c["scale"], phys_unit=c["phys"],
                  poly_layer=tuple(c["poly_layer"]),
                  gap_layer=tuple(c["gap_layer"]) if c["write_gaps"]
                  else None, text_layer=tuple(c["text_layer"])
                  if c["text"] else None)
        if c["clip"]:
            kw["edge"] = c["clip"]
        lib = p.to_gds(**kw)
        if c["text"] == "only":
            for e in lib[0]:
                if isinstance(e, elements.Boundary):
                    e.properties = []
        fil, lib2 = save_load(lib)
        check_close(lib2.physical_unit, c["phys"], rtol=1e-12,
                    what="physical unit")
        kw = dict(scale=c["scale"], edge=20.)
        if c["read"] == "layer" or c["write_gaps"]:
            kw["poly_layers"] = [(300, 0), tuple(c["poly_layer"])]
        if c["write_gaps"]:
            # not asked for
            kw["gap_layers"] = []
        if c["text"]:
            kw["name_layers"] = None if c["read"] == "all" else [
                c["text_layer"][0]]
        if c["read"] == "other":
            kw["poly_layers"] = [(c["poly_layer"][0],
                                  c["poly_layer"][1] + 1),
                                 (c["poly_layer"][0] + 1,
                                  c["poly_layer"][1])]
        r = Polygons.from_gds(fil, **kw)
        require(isinstance(r, Polygons), "type")
        if c["read"] == "other":
            check_equal(len(r), 0, "polygons of layers not asked for")
            ctx.label("other layer")
            return
        # names by text come first, in the order of the texts
        want = patches
        if c["text"]:
            want = [x for x in patches if x[0]] + [
                x for x in patches if not x[0]]
        check_equal([n for n, _ in r], [n for n, _ in want], "names")
        for (nm, q), (_, v) in zip(r, want):
            rg = s.rings(q)
            check_equal([len(rg), len(rg[0][1])], [1, 0], "rings")
            require(q.is_valid, "valid")
            match_ring(rg[0][0], v, tol, "patch %r" % nm)
        # the data are multiples of the unit now
        p = r
        patches = [(n, s.rings(q)[0][0]) for n, q in r]
        tol = 1e-9
        if rnd == 0:
            check_equal([(n, q.wkb) for n, q in build(c)], before, "input")
    ctx.label("read %s" % c["read"], "text %s" % c["text"])
    ctx.nontrivial(len(patches) > 1)


# ------------------------------------------------ what is in the file

@st.composite
def _file(draw):
    scale, phys, dbu = draw(units())
    lay = draw(s.layout(maxdepth=2, maxcells=3))
    # (the layouts are scaled by 100 or .01 at times)
    size = max(abs(v) for e in lay for p in e for q in p for v in q)
    return dict(lay=lay, names=[draw(st.sampled_from(NAMES + [""]))
                                for _ in lay],
                scale=scale, dbu=dbu*size, phys=dbu*size*scale,
                poly_layer=draw(st.one_of(st.none(), LAYERS)),
                gap_layer=draw(st.one_of(st.none(), LAYERS)),
                text_layer=draw(st.one_of(st.none(), LAYERS)),
                name=draw(st.sampled_from([None, "cell", "TOP_1"])),
                width=draw(st.one_of(st.none(), st.integers(0, 400),
                                    g.num(0, 300, 1))))


def check_file(c, ctx):
    from gdsii import elements
    from electrode.polygons import Polygons
    from electrode import System, PolygonPixelElectrode
    sys = System([PolygonPixelElectrode(name=nm, paths=[np.array(p)
                                                        for p in e])
                  for nm, e in zip(c["names"], c["lay"])])
    p = Polygons.from_system(sys)
    kw = {}
    for k in ("poly_layer", "gap_layer", "text_layer"):
        kw[k] = tuple(c[k]) if c[k] is not None else None
    if c["name"]:
        kw["name"] = c["name"]
    if c["width"] is not None:
        kw["gap_width"] = c["width"]*c["dbu"]
    lib = p.to_gds(scale=c["scale"], phys_unit=c["phys"], **kw)
    fil, lib = save_load(lib)
    check_equal([len(lib), lib[0].name.decode()],
                [1, c["name"] or "trap_electrodes"], "structure")
    bound, path, text = [], [], []
    for e in lib[0]:
        if isinstance(e, elements.Boundary):
            check_equal([e.layer, e.data_type], c["poly_layer"], "layer")
            bound.append(e)
        elif isinstance(e, elements.Path):
            check_equal([e.layer, e.data_type], c["gap_layer"], "layer")
            require(abs((e.width or 0) - (c["width"] or 0)) <= .5 + 1e-6,
                    "width %s instead of %s" % (e.width, c["width"]))
            path.append(e)
        elif isinstance(e, elements.Text):
            check_equal([e.layer, e.text_type], c["text_layer"], "layer")
            text.append(e)
        else:
            require(False, "unexpected element %r" % e)
    # expected patches
    ext, ints = [], []
    for nm, e in zip(c["names"], c["lay"]):
        for q in e:
            (ext if o.shoelace(q) > 0 else ints).append((nm, np.array(q)))
    attr = 951

    def near(e, q):
        a = np.array(e.xy)*c["dbu"]
        if len(a) != len(q) + 1 or (a[0] != a[-1]).any():
            return False
        a = a[:-1]
        b = min(np.abs(np.roll(v, k, 0) - q).max() for v in (a, a[::-1])
                for k in range(len(q)))
        return b <= (.5 + 1e-6)*c["dbu"]

    def assign(elems, rings, what):
        check_equal(len(elems), len(rings), "number of %s" % what)
        left = list(rings)
        for e in elems:
            for i, (nm, q) in enumerate(left):
                if near(e, q) and (what == "paths" or dict(
                        e.properties).get(attr, b"").decode() == nm):
                    del left[i]
                    break
            else:
                require(False, "%s that is no boundary %r %s" % (
                    what, dict(e.properties), np.array(e.xy)*c["dbu"]))
    assign(bound, ext if c["poly_layer"] is not None else [], "boundaries")
    assign(path, ext + ints if c["gap_layer"] is not None else [], "paths")
    named = [x for x in ext if x[0]] if c["text_layer"] is not None else []
    check_equal(sorted(e.string.decode() for e in text),
                sorted(n for n, _ in named), "texts")
    for e in text:
        xy = np.array(e.xy)[0]*c["dbu"]
        require(any(n == e.string.decode() and np.abs(
            q - xy).max(1).min() <= c["dbu"] for n, q in named),
            "text %r far from its polygon" % e.string)
    for k in ("poly_layer", "gap_layer", "text_layer"):
        if c[k] is None:
            ctx.label("no " + k)
    ctx.nontrivial(len(ext) + len(ints) > 1)


# ------------------------------------------------ gaps and back

@st.composite
def _tiles(draw):
    n = draw(st.integers(2, 5))
    k = draw(st.integers(1, 4))
    tiles = [[draw(st.integers(-1, k)) for _ in range(n)] for _ in range(n)]
    m = draw(st.integers(0, 5))
    return dict(n=n, tiles=tiles, units=draw(units()),
                step=draw(st.sampled_from([1., .5, 4.])),
                layer=draw(LAYERS), write=draw(st.booleans()),
                read=draw(st.sampled_from(["all", "layer"])),
                texts=[[draw(st.sampled_from(NAMES)),
                        draw(st.integers(0, n - 1)),
                        draw(st.integers(0, n - 1)),
                        draw(st.integers(0, 2))] for _ in range(m)],
                name_all=draw(st.booleans()),
                buffer=draw(st.sampled_from([None, 1e-8])))


def check_tiles(c, ctx):
    from gdsii import elements
    from shapely import geometry, ops
    from electrode.polygons import Polygons
    n, h = c["n"], c["step"]
    scale, phys, dbu = c["units"]
    el = {}
    for i in range(n):
        for j in range(n):
            el.setdefault(c["tiles"][i][j], []).append((i, j))
    p = Polygons()
    for k in sorted(el):
        if k >= 0:
            p.append(("t%d" % k, ops.unary_union([geometry.box(
                (i - n/2.)*h, (j - n/2.)*h, (i + 1 - n/2.)*h,
                (j + 1 - n/2.)*h) for i, j in el[k]])))
    lib = p.to_gds(scale=scale, phys_unit=phys, text_layer=None,
                   poly_layer=(0, 0) if c["write"] else None,
                   gap_layer=tuple(c["layer"]))
    for nm, i, j, lay in c["texts"]:
        t = elements.Text(layer=lay, text_type=0, xy=np.around(
            (np.array([[i, j]]) + .5 - n/2.)*h/dbu).astype(int),
            string=nm.encode())
        t.properties = []
        lib[0].append(t)
    fil, lib = save_load(lib)
    kw = dict(edge=n*h)
    if c["buffer"]:
        kw["buffer"] = c["buffer"]
    if c["read"] == "layer":
        kw["gap_layers"] = [tuple(c["layer"])]
    names = c["texts"]
    if not c["name_all"]:
        kw["name_layers"] = [0, 2]
        names = [t for t in names if t[3] != 1]
    r = Polygons.from_gds(fil, scale=scale, poly_layers=[], **kw)
    square = {(i, j) for i in range(n) for j in range(n)}
    walls = set()
    for i, j in square:
        for v in ((i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1)):
            a, b = c["tiles"][i][j], c["tiles"][v[0]][v[1]] \
                if v in square else -1
            if a != b:
                walls.add(c27.between((i, j), v))
    left = [frozenset(f) for f in c27.components(square, walls)]
    if not p:
        left = []       # no gaps
    want = []
    for nm, i, j, _ in names:
        for f in left:
            if (i, j) in f:
                want.append((nm, f))
                left.remove(f)
                break
    cen = np.array(sorted(square))
    pts = (cen + .5 - n/2.)*h
    tol = 1e-6*(1 + n*h) if not c["buffer"] else 200*c["buffer"]*(1 + n*h)
    got = []
    for nm, q in r:
        require(q.is_valid, "invalid fragment")
        cells = frozenset(tuple(v) for v in
                          cen[s.even_odd(pts, q)].tolist())
        check_close(s.geom_area(q), len(cells)*h*h, atol=tol*h,
                    what="area of a fragment")
        got.append((nm, cells))
    check_equal(got[:len(want)], want, "named fragments")
    check_equal(sorted((a, sorted(b)) for a, b in got[len(want):]),
                sorted(("", sorted(b)) for b in left), "other fragments")
    ctx.label("%d faces" % min(len(got), 8))
    ctx.nontrivial(len(got) > 1)


# ------------------------------------------------ clipping

@st.composite
def _clip(draw):
    scale, phys, dbu = draw(units())
    return dict(electrodes=draw(flat(unique=True)), scale=scale, phys=phys,
                dbu=min(dbu, 1e-4), edge=draw(g.num(.5, 12, 2)),
                cw=draw(st.booleans()), single=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


def halfplanes(v, e):
    """Sutherland-Hodgman with the square"""
    for ax in (0, 1):
        for sg in (1, -1):
            out = []
            for i in range(len(v)):
                a, b = v[i - 1], v[i]
                da, db = e - sg*a[ax], e - sg*b[ax]
                if (da >= 0) != (db >= 0):
                    t = da/(da - db)
                    x = a + t*(b - a)
                    out.append(x)
                if db >= 0:
                    out.append(b)
            v = out
            if not v:
                return []
    return v


def check_clip(c, ctx):
    from gdsii import elements
    p = build(c)
    phys = c["dbu"]*c["scale"]
    lib = p.to_gds(scale=c["scale"], phys_unit=phys, edge=c["edge"])
    fil, lib = save_load(lib)
    e = c["edge"]/2
    got = {}
    paths, texts = 0, []
    for x in lib[0]:
        xy = np.array(x.xy)*c["dbu"]
        require(np.abs(xy).max() <= e + .51*c["dbu"], "outside of the edge")
        if isinstance(x, elements.Boundary):
            nm = dict(x.properties)[951].decode()
            got.setdefault(nm, []).append(xy[:-1])
        elif isinstance(x, elements.Path):
            paths += 1
        else:
            texts.append(x.string.decode())
    check_equal(paths, sum(len(v) for v in got.values()), "gap paths")
    check_equal(sorted(texts), sorted(k for k in got for _ in got[k]),
                "texts")
    cut = 0
    for nm, patches in c["electrodes"]:
        want = 0
        length = 0
        for v in patches:
            v = np.array(v)
            q = halfplanes(list(v), e)
            want += o.shoelace(q) if len(q) > 2 else 0.
            length += np.hypot(*(v - np.roll(v, 1, 0)).T).sum()
            cut += np.abs(v).max() > e
        check_close(sum(abs(o.shoelace(q)) for q in got.get(nm, [])),
                    want, atol=2*c["dbu"]*(length + 8*e), what="area of %s"
                    % nm)
        all_ = [np.array(v) for v in patches]
        pts = s.sample(all_, c["seed"], 100)
        near = np.minimum(s.boundary_distance(pts, all_), np.abs(
            np.abs(pts) - e).min(1)) < 2*c["dbu"]
        pts = pts[~near]
        inside = (s.total_winding(pts, all_) != 0) & (
            np.abs(pts).max(1) < e)
        w = np.zeros(len(pts), int)
        for q in got.get(nm, []):
            w += s.winding(pts, q) != 0
        check_equal(w, inside.astype(int), "membership in %s" % nm)
    ctx.label("%d cut" % min(cut, 3))
    ctx.nontrivial(cut > 0)


# ------------------------------------------------ reading any file

@st.composite
def _read(draw):
    """a file with several structures and all kinds of elements on few
    layers"""
    ij = st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list)
    strus = []
    for nm in draw(st.permutations(["top", "x", "cell2"]))[:draw(
            st.integers(1, 3))]:
        el = []
        for _ in range(draw(st.integers(0, 8))):
            k = draw(st.sampled_from(["boundary", "path", "path", "text",
                                      "box", "node", "sref"]))
            i, j = draw(st.integers(-4, 4)), draw(st.integers(-4, 4))
            if k == "boundary":
                w, e = draw(st.integers(1, 3)), draw(st.integers(1, 3))
                xy = [[i, j], [i + w, j], [i + w, j + e], [i, j + e], [i, j]]
            elif k == "path":
                xy = [[draw(st.integers(-5, 5)), draw(st.integers(-5, 5))]
                      for _ in range(draw(st.integers(1, 4)))]
                xy = [v for a, v in enumerate(xy) if a == 0
                      or v != xy[a - 1]]
            else:
                xy = [[2*i + 1, 2*j + 1]]
                if k == "box":
                    xy = [[i, j], [i + 1, j], [i + 1, j + 1], [i, j + 1],
                          [i, j]]
            el.append([k, draw(ij), xy, draw(st.sampled_from(
                ["", "a", "b", "cc"]))])
        strus.append([nm, el])
    layers = st.lists(ij, max_size=3)
    return dict(strus=strus, pick=draw(st.one_of(st.none(), st.integers(
        0, len(strus) - 1))), phys=draw(st.sampled_from([1e-9, 1e-6, 5e-9])),
        scale=draw(st.sampled_from([None, 1e-6, 40e-6])),
        poly_layers=draw(st.one_of(st.none(), layers)),
        gap_layers=draw(st.one_of(st.none(), layers)),
        route_layers=draw(st.one_of(st.none(), layers)),
        bridge_layers=draw(st.one_of(st.none(), layers)),
        name_layers=draw(st.one_of(st.none(), st.lists(st.integers(0, 2),
                                                       max_size=2))),
        edge=draw(st.sampled_from([None, 3, 9, 20])))


def check_read(c, ctx):
    from gdsii import elements, library, structure
    from electrode.polygons import Polygons
    lib = library.Library(version=5, name=b"l", physical_unit=c["phys"],
                          logical_unit=1e-3)
    scale = c["scale"] or 1.
    # one lattice unit
    u = int(round(1e3*scale/c["phys"])) if c["scale"] is None else int(
        round(scale/c["phys"]))
    u = min(u, 10**6)
    for nm, el in c["strus"]:
        stru = structure.Structure(name=nm.encode())
        for k, (i, j), xy, prop in el:
            xy = np.array(xy)*u if k != "text" else np.array(xy)*u//2
            if k == "boundary":
                e = elements.Boundary(layer=i, data_type=j, xy=xy)
            elif k == "path":
                e = elements.Path(layer=i, data_type=j, xy=xy)
            elif k == "box":
                e = elements.Box(layer=i, box_type=j, xy=xy)
            elif k == "node":
                e = elements.Node(layer=i, node_type=j, xy=xy)
            elif k == "sref":
                e = elements.SRef(struct_name=b"other", xy=xy)
            else:
                e = elements.Text(layer=i, text_type=j, xy=xy,
                                  string=(prop or "n").encode())
            e.properties = [(951, prop.encode())] if prop else []
            if prop and j:
                e.properties = [(3, b"junk"), (951, prop.encode())]
            stru.append(e)
        lib.append(stru)
    fil, lib = save_load(lib)
    kw = {}
    for k in ("poly_layers", "gap_layers", "route_layers", "bridge_layers"):
        if c[k] is not None:
            kw[k] = [tuple(x) for x in c[k]]
    if c["name_layers"] is not None:
        kw["name_layers"] = c["name_layers"]
    if c["pick"] is not None:
        kw["name"] = c["strus"][c["pick"]][0]
    if c["scale"]:
        kw["scale"] = scale
    f = u*c["phys"]/scale
    data = {}
    if c["edge"]:
        data["edge"] = c["edge"]*f
    data["buffer"] = 10.**np.floor(np.log10(f*1e-7))
    polys, gaps, routes, bridges, names = [], [], [], [], []
    for k, ij, xy, prop in c["strus"][c["pick"] or 0][1]:
        xy = np.array(xy)*u if k != "text" else np.array(xy)*u//2
        xy = xy*c["phys"]/scale
        if k == "boundary" and (c["poly_layers"] is None
                                or ij in c["poly_layers"]):
            polys.append((prop, xy))
        elif k == "path" and len(xy) > 1:
            if c["gap_layers"] is None or ij in c["gap_layers"]:
                gaps.append(xy)
            elif ij in (c["route_layers"] or []):
                routes.append(xy)
            elif ij in (c["bridge_layers"] or []):
                bridges.append(xy)
        elif k == "text" and (c["name_layers"] is None
                              or ij[0] in c["name_layers"]):
            names.append((prop or "n", tuple(xy[0])))

    def run(fun):
        try:
            return [(n, q.wkt) for n, q in fun()]
        except Exception as err:
            return type(err).__name__
    want = run(lambda: Polygons.from_data(polys, gaps, routes, bridges,
                                          names, **data))
    kw.update(data)
    got = run(lambda: Polygons.from_gds(fil, **kw))
    check_equal(got, want, "fragments, read and from the data")
    for k in ("polys", "gaps", "routes", "bridges", "names"):
        if locals()[k]:
            ctx.label(k)
    if isinstance(want, str):
        ctx.label(want)
    ctx.nontrivial(not isinstance(want, str) and len(want) > 1)


SUBS = [
    Sub("boundary", _boundary, check_boundary, 800, 15000,
        "several patches", shards=2),
    Sub("file", _file, check_file, 600, 12000, "several rings", shards=2),
    Sub("tiles", _tiles, check_tiles, 600, 15000, "several faces", shards=2),
    Sub("clip", _clip, check_clip, 500, 8000, "an electrode is cut"),
    Sub("read", _read, check_read, 1000, 10000, "several fragments",
        shards=2),
]
