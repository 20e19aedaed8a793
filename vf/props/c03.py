"""C03 cover plane expansion"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, pure, check_close, require, finite


@st.composite
def _electrode(draw):
    k = draw(st.sampled_from(["poly", "poly", "point", "mesh"]))
    if k == "point":
        e = draw(g.point_electrode(voltages=False, covers=False))
    else:
        e = draw(g.polygon_electrode(voltages=False, covers=False))
        if k == "mesh":
            e["kind"] = "mesh"
    return e


def build(s, height=None, nmax=0):
    import electrode
    kw = {}
    if height is not None:
        kw = dict(cover_height=height, cover_nmax=nmax)
    if s["kind"] == "point":
        return electrode.PointPixelElectrode(points=s["points"],
                                             areas=s["areas"], **kw)
    if s["kind"] == "poly":
        return electrode.PolygonPixelElectrode(paths=s["paths"], **kw)
    pts, edges, pol = [], [], []
    for k, p in enumerate(s["paths"]):
        n = len(pts)
        for i in range(len(p)):
            edges.append([n + (i - 1) % len(p), n + i])
            pol.append(k)
        pts.extend(p)
    return electrode.electrode.MeshPixelElectrode(
        points=pts, edges=edges, polygons=pol,
        potentials=np.ones(len(s["paths"])), **kw)


def tolerance(s, x, d, v, nmax, height):
    if s["kind"] == "point":
        _, m = o.point_reference(x, s["points"], s["areas"], v, d, nmax,
                                 height)
        return 1e-11*np.max(m, axis=1).astype(float)[:, None] + 1e-300
    _, m = o.polygon_reference(x, s["paths"], v, d, nmax, height)
    return g.polygon_tolerance(x, s["paths"], m, d, v, nmax, height)


@st.composite
def _images(draw):
    e = draw(_electrode())
    h = draw(g.num(1, 20, 2))
    x = draw(g.points3(1, 4, zmin=.05, zmax=.95))
    inside = draw(st.integers(0, 3))
    # between the planes, mostly; z never on an image of the plane
    x = [[a, b, (abs(z) if inside else 2*h + z*h)*(h if inside else 1)]
         for a, b, z in x]
    u = draw(g.unit())
    e, h, x = g.rescale(e, u), h*u, (np.array(x)*u).tolist()
    return dict(e=e, h=h, n=draw(st.integers(0, 7)), x=x,
                d=draw(st.integers(0, 5)),
                v=draw(st.one_of(st.just(1.), g.volt())),
                late=draw(st.booleans()), k=draw(st.integers(0, 3)))


def check_images(c, ctx):
    import electrode
    s, h, n, d, v = c["e"], c["h"], c["n"], c["d"], c["v"]
    x = np.array(c["x"])
    if np.abs(x[:, 2:]/(2*h) - np.round(x[:, 2:]/(2*h))).min() < 1e-3:
        ctx.skip("on an image of the plane")
    if c["late"]:
        e = build(s)
        e.cover_height = h
        e.cover_nmax = n
    else:
        e = build(s, h, n)
    e.dc = v
    if c["k"] == 0:
        got = electrode.System([e]).electrical_potential(x, d)
    elif c["k"] == 1:
        got = electrode.System([e]).individual_potential(x, d)[0]*v
    else:
        got = e.potential(x, d, v)
    free = build(s, h if c["k"] == 2 else None, 0)
    want = 0.
    for k in range(-n, n + 1):
        want = want + free.potential(
            np.ascontiguousarray(x + [0, 0, 2*k*h]), d, v)
    tol = tolerance(s, x, d, v, n, h)
    finite(got, "potential")
    check_close(got, want, atol=2*tol, what="image sum n=%d order %d" % (n, d))
    if s["kind"] == "point":
        ref = o.point_reference(x, s["points"], s["areas"], v, d, n, h)[0]
    else:
        ref = o.polygon_reference(x, s["paths"], v, d, n, h)[0]
    check_close(got, ref, atol=tol, what="n=%d order %d" % (n, d))
    ctx.label(s["kind"], "n%d" % n, "order%d" % d)
    ctx.nontrivial(n > 0 and bool(np.abs(want).max() > tol.max()))


@st.composite
def _planes(draw):
    return dict(e=draw(_electrode()), h=draw(g.num(2, 20, 2)),
                n=draw(st.integers(0, 60)), xy=draw(g.vec(-6, 6, 2)),
                v=draw(st.one_of(st.just(1.), g.volt())))


def check_planes(c, ctx):
    s, h, n, v = c["e"], c["h"], c["n"], c["v"]
    e = build(s, h, n)
    x = np.array([c["xy"] + [h]])
    got = e.potential(x, 0, v)
    # on the cover plane images cancel pairwise up to the last one
    far = build(s).potential(x + [0, 0, 2*n*h], 0, v)
    tol = tolerance(s, x, 0, v, n, h)
    check_close(got, far, atol=2*tol, what="potential on the cover plane")
    # which vanishes with n
    if s["kind"] == "point":
        A = np.abs(s["areas"]).sum()
    else:
        P = np.concatenate([np.array(p) for p in s["paths"]])
        A = len(P)*np.prod(np.ptp(P, 0))
    bound = abs(v)*A/(2*np.pi*((2*n + 1)*h)**2)
    require(abs(got[0, 0]) <= bound*1.001 + tol.max(),
            "potential %r on the cover, expected below %r" % (got, bound))
    # at the surface the images cancel: cover free boundary value
    z = 1e-7
    x0 = np.array([c["xy"] + [z]])
    if s["kind"] != "point" and g.edge_distance(x0, s["paths"])[0] > .05:
        a, b = e.potential(x0, 0, v), build(s).potential(x0, 0, v)
        check_close(a, b, atol=abs(v)*len(P)*z*n/h*4 + 1e-10*abs(v) + 1e-300,
                    what="boundary value with cover")
    ctx.label(s["kind"])
    ctx.nontrivial(n > 0 and v != 0)


@st.composite
def _cover(draw):
    return dict(h=draw(st.one_of(g.num(.5, 80, 2), st.integers(1, 60))),
                v=draw(g.volt()), x=draw(g.points3(1, 6)),
                d=draw(st.integers(0, 5)), out=draw(st.booleans()),
                sys=draw(st.booleans()), rf=draw(st.booleans()),
                default=draw(st.integers(0, 5)),
                form=draw(st.sampled_from(g.FORMS)),
                fill=draw(g.num(-3, 3)))


def check_cover(c, ctx):
    import electrode
    (xa, x), d, v = g.array_like(c["x"], c["form"]), c["d"], c["v"]
    h = c["h"]
    if c["default"] == 0:
        e, h = electrode.CoverElectrode(), 50.
    else:
        e = electrode.CoverElectrode(height=h)
    require(e.height == h, "height")
    want = np.zeros((len(x), 2*d + 1))
    if d == 0:
        want[:, 0] = v*x[:, 2]/h
    elif d == 1:
        want[:, 2] = v/h
    if c["sys"]:
        if c["rf"]:
            e.rf = v
            got = electrode.System([e]).time_potential(xa, d, t=0.)
        else:
            e.dc = v
            got = electrode.System([e]).electrical_potential(xa, d)
    elif c["out"]:
        out = np.full((len(x), 2*d + 1), c["fill"])
        got = e.potential(xa, d, v, out)
        require(got is out, "out not returned")
        want = want + c["fill"]
    else:
        got = e.potential(xa, d, v)
    check_close(got, want, rtol=1e-13, atol=1e-13*abs(c["fill"]) + 1e-300,
                what="cover order %d" % d)
    ctx.nontrivial(v != 0)
    ctx.label("order%d" % d)


SUBS = [
    Sub("images", _images, check_images, 700, 30000,
        "n > 0 and a potential above the tolerance", shards=6),
    Sub("planes", _planes, check_planes, 400, 15000,
        "n > 0 and non-zero voltage", shards=1),
    Sub("cover", _cover, check_cover, 400, 10000,
        "non-zero voltage", shards=1),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    images=(250, 9000, 3),
    planes=(100, 4000),
).get(s.name)] if a]
