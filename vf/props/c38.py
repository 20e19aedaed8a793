"""C38 plots"""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import harm
from .. import shapes
from ..core import Sub, check_close, check_equal, require

N = 160     # pixels


def canvas(lo, hi):
    """axes that fill the picture, the limits set afterwards"""
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    f = Figure(figsize=(N/100., N/100.), dpi=100)
    c = FigureCanvasAgg(f)
    ax = f.add_axes([0, 0, 1, 1])

    def draw():
        ax.set_axis_off()
        ax.set_xlim(lo[0], hi[0])
        ax.set_ylim(lo[1], hi[1])
        texts = [(t.get_text(), t.get_position()) for t in ax.texts]
        for t in list(ax.texts):
            t.remove()
        c.draw()
        a = np.array(c.buffer_rgba(), float)[::-1, :, :3]/255.
        require(a.shape == (N, N, 3), "picture of %s" % (a.shape,))
        return a, texts
    return ax, draw


def pixels(lo, hi, seed, paths=(), n=160):
    """some pixels and their positions, also close to the boundaries"""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    p = shapes.sample(paths, seed, n) if len(paths) else \
        lo + np.random.RandomState(seed).rand(n, 2)*(hi - lo)
    ij = np.unique(np.floor((p - lo)/(hi - lo)*N).astype(int), axis=0)
    ij = ij[((ij >= 0) & (ij < N)).all(1)]
    return ij, lo + (ij + .5)/N*(hi - lo)


def frame(paths):
    lo, hi = shapes.bbox(paths)
    d = (hi - lo).max()
    return lo - .1*d, hi + .15*d


def blend(color, alpha=1., on=(1., 1., 1.)):
    return np.array(color[:3])*alpha + np.array(on)*(1 - alpha)


# ------------------------------------------------------------------ polygons

@st.composite
def _polygons(draw):
    return dict(layout=draw(shapes.layout(3, 4)),
                names=draw(st.lists(st.sampled_from(
                    ["a", "b", "rf", "", "dc 1"]), min_size=8, max_size=8)),
                how=draw(st.sampled_from(["single", "system", "system",
                                          "alpha", "voltages", "voltages",
                                          "voltages"])),
                label=draw(st.sampled_from([None, None, "x", ""])),
                bad=draw(st.lists(st.integers(0, 5), max_size=2)),
                dcs=draw(st.lists(st.one_of(g.num(-5, 5, 2), st.sampled_from(
                    [0., 0., 300., -300.])), min_size=30, max_size=30)),
                u=draw(st.booleans()),
                zero=draw(st.integers(0, 7)) == 0,
                vs=draw(st.sampled_from([1., 1., 1., 1e-4, 1e-9, 1e6])),
                um=draw(st.one_of(st.none(), st.none(),
                                  g.num(.5, 10, 1))),
                cmap=draw(st.sampled_from([None, None, "jet", "viridis"])),
                many=draw(st.sampled_from([0, 0, 0, 0, 14])),
                alpha=draw(st.sampled_from([1., .5, .9])),
                seed=draw(st.integers(0, 10**6)))


def check_polygons(c, ctx):
    import matplotlib
    from electrode import PolygonPixelElectrode, System, CoverElectrode, \
        colors
    layout = [l for l in c["layout"] if l]
    lo, hi = shapes.bbox([p for l in layout for p in l])
    size = (hi - lo).max()
    if c["zero"]:
        c["dcs"] = [0.]*30
        c["um"] = None
    c["dcs"] = [v*c["vs"] for v in c["dcs"]]
    if c["um"]:
        c["um"] *= c["vs"]
    for k in range(c["many"]):
        # more electrodes than colours
        x, y, w = lo[0] + size*k/14., lo[1] - .2*size, .05*size
        layout.append([[[x, y], [x + w, y], [x + w, y + w], [x, y + w]]])
    allpaths = [p for l in layout for p in l]
    lo, hi = frame(allpaths)
    es = []
    for k, l in enumerate(layout):
        es.append(PolygonPixelElectrode(paths=l, name=c["names"][k % 8]))
    # electrodes that are not drawn
    s = list(es)
    for b in c["bad"]:
        s.insert(b % (len(s) + 1), CoverElectrode(name="cover"))
    for k, e in enumerate(s):
        e.dc = c["dcs"][k % 30]
        e.rf = c["dcs"][(k + 7) % 29] + 1.
    ax, draw = canvas(lo, hi)
    kw = {} if c["label"] is None else dict(label=c["label"])
    want, how = {}, c["how"]
    ctx.label(how)
    if how == "single":
        for k, e in enumerate(es):
            col = ((k % 3)/3., (k % 5)/5., (k % 7)/7.)
            e.plot(ax, color=col, **kw)
            want[id(e)] = blend(col)
    elif how in ("system", "alpha"):
        alpha = .3
        if how == "alpha":
            kw["alpha"] = alpha = c["alpha"]
        System(s).plot(ax, **kw)
        for k, e in enumerate(s):
            want[id(e)] = blend(np.array(colors.set3[k % len(colors.set3)])
                                / 255., alpha)
        require(len(set(map(tuple, np.array(colors.set3).tolist())))
                == len(colors.set3) >= 12, "colours")
    else:
        S = System(s)
        u = np.array([e.dc for e in s], float)
        if c["u"]:
            u = u[::-1].copy()
            kw["u"] = u
        um = c["um"]
        if um is not None:
            kw["um"] = um
        else:
            um = np.abs(u).max() or 1.
        cm = matplotlib.cm.get_cmap(c["cmap"] or "RdBu_r")
        if c["cmap"]:
            kw["cmap"] = cm
        before = u.copy()
        S.plot_voltages(ax, **kw)
        check_equal(u, before, "voltages argument")
        check_equal(S.dcs, [c["dcs"][k % 30] for k in range(len(s))],
                    "voltages")
        for e, ui in zip(s, before):
            want[id(e)] = blend(cm(.5*(1 + ui/um)))
            if c["cmap"] is None and abs(ui) > .3*um:
                r, _, b = want[id(e)]
                require((r > b) == (ui > 0), "red or blue")
    a, texts = draw()
    expected = []
    for e, l in zip(es, layout):
        t = e.name if c["label"] is None else c["label"]
        if t:
            expected += [(t, p) for p in l]
    check_equal(sorted(t for t, _ in texts), sorted(t for t, _ in expected),
                "labels")
    for (t, p) in expected:
        q0, q1 = shapes.bbox([p])
        require(any(t == t1 and (q0 <= pos).all() and (pos <= q1).all()
                    for t1, pos in texts), "no label in the patch %s" % (p,))
    ij, pos = pixels(lo, hi, c["seed"], allpaths)
    sc = ((hi - lo)/N)
    inside = 0
    # distances in pixels
    d = shapes.boundary_distance(pos/sc, [(np.array(p)/sc).tolist()
                                          for p in allpaths])
    ok = d > 1.6
    ij, pos = ij[ok], pos[ok]
    exp = np.ones((len(pos), 3))
    for e, l in zip(es, layout):
        w = shapes.total_winding(pos, l) != 0
        exp[w] = want[id(e)]
        inside += w.sum()
    got = a[ij[:, 1], ij[:, 0]]
    err = np.abs(got - exp).max(1)
    if len(err):
        k = err.argmax()
        require(err[k] < .02, "colour %s instead of %s at %s" % (
            got[k], exp[k], pos[k]))
    if any(len(l) > 1 for l in layout):
        ctx.label("holes or islands")
    ctx.nontrivial(inside >= 5)


# -------------------------------------------------------------------- points

@st.composite
def _points(draw):
    n = draw(st.integers(1, 4))
    return dict(e=[dict(
        p=draw(st.lists(st.tuples(g.num(-3, 3, 2), g.num(-3, 3, 2)),
                        min_size=1, max_size=3)),
        r=draw(st.lists(g.num(.05, .9, 2), min_size=3, max_size=3)),
        z=draw(st.booleans()), dc=draw(g.num(-3, 3, 2)),
        name=draw(st.sampled_from(["p", "q", ""])))
        for _ in range(n)], label=draw(st.sampled_from([None, None, "x"])),
        how=draw(st.sampled_from(["single", "system", "voltages"])),
        wx=draw(g.num(3, 9, 1)), wy=draw(g.num(3, 9, 1)),
        seed=draw(st.integers(0, 10**6)))


def check_points(c, ctx):
    import matplotlib
    from electrode import PointPixelElectrode, System, colors
    es, ps, rs = [], [], []
    for e in c["e"]:
        p = np.array(e["p"], float)
        r = np.array(e["r"][:len(p)])
        q = np.c_[p, np.zeros(len(p))] if e["z"] else p
        es.append(PointPixelElectrode(points=q, areas=np.pi*r**2,
                                      name=e["name"], dc=e["dc"]))
        ps.append(p)
        rs.append(r)
    lo, hi = -np.array([c["wx"], c["wy"]]), np.array([c["wx"], c["wy"]])
    ax, draw = canvas(lo, hi)
    kw = {} if c["label"] is None else dict(label=c["label"])
    if c["how"] == "single":
        cols = [((k % 3)/3., (k % 5)/5., .2) for k in range(len(es))]
        for e, col in zip(es, cols):
            e.plot(ax, color=col, **kw)
    elif c["how"] == "system":
        System(es).plot(ax, alpha=1., **kw)
        cols = [tuple(np.array(colors.set3[k])/255.)
                for k in range(len(es))]
    else:
        System(es).plot_voltages(ax, **kw)
        u = np.array([e["dc"] for e in c["e"]])
        cm = matplotlib.cm.get_cmap("RdBu_r")
        cols = [cm(.5*(1 + x/(np.abs(u).max() or 1.))) for x in u]
    a, texts = draw()
    check_equal(sorted(t for t, _ in texts), sorted(
        x for x in (e["name"] if c["label"] is None else c["label"]
                    for e in c["e"]) if x), "labels")
    ij, pos = pixels(lo, hi, c["seed"], n=300)
    for p, r in zip(ps, rs):
        for pi, ri in zip(p, r):
            for k in np.linspace(0, 6, 7):
                for f in (.5, .9, 1.1):
                    x = pi + ri*f*np.array([np.cos(k), np.sin(k)])
                    j = np.floor((x - lo)/(hi - lo)*N).astype(int)
                    if (j >= 0).all() and (j < N).all():
                        ij = np.r_[ij, j[None]]
    pos = lo + (ij + .5)/N*(hi - lo)
    exp = np.ones((len(pos), 3))
    ok = np.ones(len(pos), bool)
    px = ((hi - lo)/N).max()
    inside = 0
    for p, r, col in zip(ps, rs, cols):
        for pi, ri in zip(p, r):
            d = np.hypot(*(pos - pi).T)
            exp[d < ri] = blend(col)
            inside += (d < ri).sum()
            # (drawn with a polygon)
            ok &= np.abs(d - ri) > 1.6*px + .005*ri
    got = a[ij[:, 1], ij[:, 0]]
    err = np.where(ok, np.abs(got - exp).max(1), 0)
    k = err.argmax()
    require(err[k] < .02, "colour %s instead of %s at %s" % (
        got[k], exp[k], pos[k]))
    ctx.label(c["how"])
    ctx.nontrivial(inside > 5)


# ------------------------------------------------------------------- contour

@st.composite
def _contour(draw):
    kind = draw(st.sampled_from(["harmonic", "harmonic", "surface",
                                 "default"]))
    c = dict(kind=kind, typ=draw(st.sampled_from(["tot", "dc", "rf", None])),
             slc=draw(st.sampled_from(["x", "y", "z", None])),
             at=draw(st.one_of(st.none(), g.num(-1, 1, 2))),
             fill=draw(st.booleans()),
             div=draw(st.sampled_from([None, 8, 1, 2.5, -1, 100])),
             num=draw(st.sampled_from([None, None, 5, 12, 12, 2, 150, 400])),
             levels=draw(st.one_of(st.none(), st.none(), st.lists(
                 g.num(0, 1, 2), min_size=1, max_size=4, unique=True))),
             center=draw(g.vec(-1, 1, 3, 2)),
             step=draw(g.vec(.05, .4, 3, 2)),
             shape=draw(st.lists(st.integers(2, 7), min_size=3, max_size=3)),
             conv=draw(st.sampled_from(["list", "array"])),
             rf_scale=draw(g.num(.2, 2, 1)))
    n = draw(st.integers(1, 3))
    if kind == "harmonic":
        c["e"] = [draw(g.harmonic_electrode(4)) for _ in range(n)]
    elif kind == "surface":
        c["e"] = [draw(g.polygon_electrode()) for _ in range(n)]
    else:
        c["e"] = [dict(origin=c["center"], spacing=c["step"],
                       shape=c["shape"], dc=draw(g.volt()),
                       rf=draw(g.volt()), seed=draw(st.integers(0, 9999)))
                  for _ in range(n)]
    return c


def check_contour(c, ctx):
    from electrode import GridElectrode, Grid, System
    kind = c["kind"]
    shape = list(c["shape"])
    if kind == "default":
        es = []
        for e in c["e"]:
            r = np.random.RandomState(e["seed"])
            es.append(GridElectrode(
                data=[r.randn(*(tuple(e["shape"]) + (2*k + 1,)))
                      for k in range(3)],
                origin=np.array(e["origin"], float),
                spacing=np.array(e["spacing"], float), dc=e["dc"],
                rf=e["rf"], name="g"))
        s = System(es)
    else:
        s = System([g.build_electrode(e) for e in c["e"]])
    s.rf_coeff = c["rf_scale"]
    slc, typ = c["slc"] or "x", c["typ"] or "tot"
    k = "xyz".index(slc)
    i, j = [m for m in range(3) if m != k]
    center = np.array(c["center"], float)
    step = np.array(c["step"], float)
    at = c["at"]
    if kind == "surface":
        # above the electrodes
        center[2] = 1.5 + abs(center[2]) + step[2]*shape[2]
        if slc == "z":
            at = .5 + abs(at or 0)
    kw = {}
    if kind == "default":
        center = center + (np.array(shape) - 1)*step/2
    else:
        conv = list if c["conv"] == "list" else np.array
        kw["grid"] = Grid(center=conv(center.tolist()),
                          step=conv(step.tolist()), shape=shape)
    X = center[i] + step[i]*(np.arange(shape[i]) - (shape[i] - 1)/2.)
    Y = center[j] + step[j]*(np.arange(shape[j]) - (shape[j] - 1)/2.)
    pts = np.zeros((len(Y), len(X), 3))
    pts[..., i] = X
    pts[..., j] = Y[:, None]
    pts[..., k] = at or 0.
    pot = s.potential(pts.reshape(-1, 3), 0, typ).reshape(len(Y), len(X))
    hi, lo = pot.max(), pot.min()
    rng = hi - lo
    if not rng > 1e-6*max(1e-3, np.abs(pot).max()):
        ctx.skip("constant")
    for key, v in (("slc", c["slc"]), ("typ", c["typ"]), ("slc_at", at),
                   ("divide_max", c["div"]), ("line_num", c["num"])):
        if v is not None:
            kw[key] = v
    if c["fill"]:
        kw["fill"] = True
    div, num = c["div"] or 8, c["num"] or 50
    if c["levels"]:
        lev = np.sort(lo + rng*np.array(c["levels"]))
        if c["fill"] and len(lev) < 2:
            lev = np.array([lo + .1*rng, lo + .7*rng])
        kw["levels"] = lev
    else:
        top = hi/div
        if abs(top - lo) < 1e-6*rng:
            ctx.skip("range of the levels")
        if top <= lo:
            top = (hi + lo)/2
        lev = np.linspace(lo, top, num)
    if not c["fill"] and not ((lev > lo + 1e-9*rng)
                              & (lev < hi - 1e-9*rng)).any():
        # matplotlib chooses another level
        ctx.skip("no level in the range")
    ax, _ = canvas([0, 0], [1, 1])
    dcs, rfs = s.dcs.copy(), s.rfs.copy()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        CS, ex = s.plot_contour(ax, **kw)
    check_close(list(ex), [hi, lo], rtol=1e-9, atol=1e-9*rng,
                what="extreme values")
    check_equal(s.dcs, dcs, "voltages")
    check_equal(s.rfs, rfs, "voltages")
    check_close(CS.levels, lev, rtol=1e-9, atol=1e-9*rng, what="levels")
    require(ax.get_xlabel().startswith("xyz"[i])
            and ax.get_ylabel().startswith("xyz"[j]), "labels of the axes")
    require(bool(CS.filled) == c["fill"], "filled")
    if not c["fill"]:
        lines(CS, lev, X, Y, pot, ctx)
    else:
        fills(CS, lev, X, Y, pot, ctx)
    ctx.label(kind)
    ctx.label(typ)


def lines(CS, lev, X, Y, pot, ctx):
    rng = np.ptp(pot)
    n = 0
    dx, dy = (X[-1] - X[0])/(len(X) - 1), (Y[-1] - Y[0])/(len(Y) - 1)
    for L, segs in zip(lev, CS.allsegs):
        v = np.concatenate([np.asarray(q, float).reshape(-1, 2)
                            for q in segs]) if len(segs) else \
            np.zeros((0, 2))
        # in units of the cells
        q = np.c_[(v[:, 0] - X[0])/dx, (v[:, 1] - Y[0])/dy]
        if len(q):
            off = np.abs(q - np.rint(q)).min(1)
            require(off.max() < 1e-6, "point of a line off the grid")
            require((q > -1e-6).all() and (q[:, 0] < len(X) - 1 + 1e-6).all()
                    and (q[:, 1] < len(Y) - 1 + 1e-6).all(), "outside")
            a = np.clip(np.floor(q).astype(int), 0,
                        [len(X) - 2, len(Y) - 2])
            t = q - a
            val = sum(pot[a[:, 1] + y, a[:, 0] + x]
                      * np.abs(1 - x - t[:, 0])*np.abs(1 - y - t[:, 1])
                      for x in (0, 1) for y in (0, 1))
            check_close(val - L, np.zeros(len(val)), atol=1e-6*rng,
                        what="potential on the line")
        # every crossing is drawn
        for di, dj in ((0, 1), (1, 0)):
            A = pot[:pot.shape[0] - di, :pot.shape[1] - dj]
            B = pot[di:, dj:]
            cr = ((A < L) != (B < L)) & (np.abs(A - L) > 1e-6*rng) & (
                np.abs(B - L) > 1e-6*rng)
            for y, x in zip(*np.nonzero(cr)):
                t = (L - A[y, x])/(B[y, x] - A[y, x])
                p = np.array([x + dj*t, y + di*t])
                require(len(q) and np.abs(q - p).max(1).min() < 1e-5,
                        "level %s does not cross the edge at %s" % (L, p))
                n += 1
    ctx.label("lines")
    ctx.nontrivial(n > 3)


def fills(CS, lev, X, Y, pot, ctx):
    rng = np.ptp(pot)
    n = 0
    for k, col in enumerate(CS.collections):
        polys = [q for p in col.get_paths()
                 for q in p.to_polygons(closed_only=False) if len(q) > 2]
        for y in range(1, len(Y) - 1):
            for x in range(1, len(X) - 1):
                v = pot[y, x]
                if min(abs(v - lev[k]), abs(v - lev[k + 1])) < 1e-3*rng:
                    continue
                w = sum(int(shapes.winding([[X[x], Y[y]]], q)[0])
                        for q in polys)
                require((w % 2 == 1) == (lev[k] < v < lev[k + 1]),
                        "value %s in the layer %i" % (v, k))
                n += lev[k] < v < lev[k + 1]
    ctx.label("fills")
    ctx.nontrivial(n > 1)


SUBS = [
    Sub("polygons", _polygons, check_polygons, 250, 8000,
        "at least five pixels inside patches", shards=4),
    Sub("points", _points, check_points, 200, 6000,
        "more than five pixels inside discs", shards=2),
    Sub("contour", _contour, check_contour, 400, 10000,
        "more than three crossings of grid lines or filled nodes", shards=2),
]
