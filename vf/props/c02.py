"""C02 point pixel electrodes"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, pure, check_close, check_equal, require, finite


@st.composite
def _case(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6),
                       st.integers(7, 60)))
    pts = [list(p) for p in draw(st.lists(
        g.vec(-4, 4, 2), min_size=n, max_size=n))]
    areas = draw(st.lists(g.nonzero(.01, 3, 2), min_size=n, max_size=n))
    if draw(st.integers(0, 5)) == 0 and n > 1:
        areas[draw(st.integers(0, n - 1))] = 0.
    x = draw(g.points3(1, 5))
    sp = draw(st.integers(0, 4))
    if sp == 0:
        # straight above a pixel; in the plane, away from the pixels
        p = pts[draw(st.integers(0, n - 1))]
        x.append([p[0], p[1], draw(g.nonzero(.2, 2))])
    elif sp == 1:
        x.append([draw(g.nonzero(4.5, 9)), draw(g.nonzero(4.5, 9)), 0.])
    elif sp == 2:
        x = x*draw(st.integers(2, 30))
    f = 10.**draw(st.sampled_from([0, 0, 0, 0, -6, -4, 3, 6]))
    return dict(points=(np.array(pts)*f).tolist(),
                areas=(np.array(areas)*f*f).tolist(),
                x=(np.array(x)*f).tolist(), d=draw(st.integers(0, 5)),
                v=draw(st.one_of(st.just(1.), g.volt())),
                how=draw(st.integers(0, 2)),
                form=draw(st.sampled_from(g.FORMS)) if f == 1 and sp != 1
                else "array")


def tolerance(mag):
    return 1e-11*np.max(mag, axis=1).astype(float)[:, None] + 1e-300


def check_reference(c, ctx):
    import electrode
    (xa, x), d, v = g.array_like(c["x"], c["form"]), c["d"], c["v"]
    if c["how"]:
        e = electrode.PointPixelElectrode(points=c["points"],
                                          areas=c["areas"])
    else:
        e = electrode.PointPixelElectrode(points=np.array(c["points"]),
                                          areas=np.array(c["areas"]))
    if c["how"] == 2:
        e.dc = v
        got = electrode.System([e]).electrical_potential(xa, d)
    else:
        got = e.potential(xa, d, v)
    want, mag = o.point_reference(x, c["points"], c["areas"], v, d)
    finite(got, "potential")
    tol = tolerance(mag)
    check_close(got, want, atol=tol, what="order %d" % d)
    ctx.label("order%d" % d, *(["in plane"] if (x[:, 2] == 0).any() else []))
    ctx.nontrivial(v != 0 and bool((np.abs(want).max(1) > 1e3*tol.max(1)
                                    ).any()))


@st.composite
def _conv(draw):
    paths = draw(st.lists(g.path(), min_size=1, max_size=4))
    f = 10.**draw(st.sampled_from([0, 0, -3, 2, -6, -5, 4]))
    sh = draw(st.sampled_from([[0., 0.], [0., 0.], [40., -70.]]))
    return dict(paths=[((np.array(p) + sh)*f).tolist() for p in paths], f=f,
                name=draw(st.sampled_from(["", "a", "rf", "e 1"])),
                dc=draw(g.volt()), rf=draw(g.volt()),
                cover=draw(g.cover()), v=draw(g.volt()),
                close=draw(st.booleans()),
                dir=draw(g.vec(-1, 1, 2)), up=draw(st.booleans()),
                k=draw(st.integers(2, 4)), d=draw(st.integers(0, 3)))


def check_conv(c, ctx):
    import electrode
    paths = [np.array(p + p[:1] if c["close"] else p) for p in c["paths"]]
    before = [p.copy() for p in paths]
    e = electrode.PolygonPixelElectrode(
        name=c["name"], dc=c["dc"], rf=c["rf"], paths=paths,
        cover_height=c["cover"][0], cover_nmax=c["cover"][1])
    p = e.to_points()
    require(isinstance(p, electrode.PointPixelElectrode), "type %r" % p)
    for k in "name dc rf cover_height cover_nmax".split():
        check_equal(getattr(p, k), getattr(e, k), k)
    A = np.array([o.shoelace(q) for q in c["paths"]], float)
    C = np.array([o.centroid(q) for q in c["paths"]], float)
    size = max(np.abs(np.concatenate([np.array(q) for q in c["paths"]])
                      ).max(), c["f"])
    check_close(np.asarray(p.areas), A, atol=1e-11*size*size, what="areas")
    require(np.shape(p.points)[0] == len(A), "number of points")
    rel = size*size/np.abs(A)[:, None]
    check_close(np.asarray(p.points)[:, :2], C, atol=1e-11*size*(1 + rel),
                what="centroids")
    for a, b in zip(before, e.paths):
        check_equal(b, a, "path modified")
    # far away, polygon and points have the same field
    e.cover_nmax = p.cover_nmax = 0
    cen = C.mean(0)
    r = 10.**c["k"]*c["f"]
    n = np.r_[np.array(c["dir"]), 1.]
    n /= np.linalg.norm(n)
    x = (np.r_[cen, 0] + 6*r*n*(1 if c["up"] else -1))[None]
    d = c["d"]
    gp = e.potential(x, d, c["v"])
    gq = p.potential(x, d, c["v"])
    big = max(np.ptp(np.concatenate([np.array(q) for q in c["paths"]]), 0
                     ).max(), c["f"])
    _, mag = o.polygon_reference(x, c["paths"], c["v"], d)
    lead = np.abs(A).sum()*abs(c["v"])/(6*r)**(2 + d)
    from math import factorial
    tol = (factorial(d + 4)*lead*(big/(6*r))**2*(1 + 0*big)
           + g.polygon_tolerance(x, c["paths"], mag, d, c["v"])
           # the solid angle is a difference of angles of order one
           + 1e-15*factorial(d)*abs(c["v"])/(6*r)**d)
    check_close(gq, gp, atol=tol, what="far field order %d" % d)
    ctx.nontrivial(bool(np.abs(A).max() > 0))
    ctx.label("order%d" % d)


@st.composite
def _meta(draw):
    n = draw(st.integers(1, 8))
    return dict(points=draw(st.lists(g.vec(-3, 3, 2), min_size=n,
                                     max_size=n)),
                areas=draw(st.lists(g.nonzero(.05, 3, 2), min_size=n,
                                    max_size=n)),
                x=draw(g.points3(1, 4, zmin=.2)), d=draw(st.integers(0, 5)),
                op=draw(st.sampled_from(["split", "permute", "translate",
                                         "rotate", "mirror", "scale",
                                         "below", "double"])),
                a=draw(g.num(-3, 3, 2)), b=draw(g.num(-3, 3, 2)),
                k=draw(st.integers(0, 8)), seed=draw(st.integers(0, 999)))


def check_meta(c, ctx):
    import electrode
    P, A, x, d = (np.array(c["points"]), np.array(c["areas"]),
                  np.array(c["x"]), c["d"])

    def pot(P, A, x, v=1.):
        return electrode.PointPixelElectrode(points=P, areas=A).potential(
            np.ascontiguousarray(x), d, v)
    want = pot(P, A, x)
    full = lambda r: o.expand_reference(r, d)
    op = c["op"]
    if op == "split":
        k = c["k"] % (len(P) + 1)
        got = 0*want
        for s in (slice(None, k), slice(k, None)):
            if len(P[s]):
                got = got + pot(P[s], A[s], x)
    elif op == "permute":
        s = np.random.RandomState(c["seed"]).permutation(len(P))
        got = pot(P[s], A[s], x)
    elif op == "translate":
        t = np.array([c["a"], c["b"]])
        got = pot(P + t, A, x + np.r_[t, 0.])
    elif op in ("rotate", "mirror"):
        ca, sa = np.cos(c["a"]), np.sin(c["a"])
        r = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1.]])
        if op == "mirror":
            r = r @ np.diag([1., -1., 1.])
        got = full(pot(P @ r[:2, :2].T, A, x @ r.T))
        want = o.rotate_reference(full(want), r.T, d)
    elif op == "scale":
        f = 10.**c["a"]
        got = pot(P*f, A*f*f, x*f)*f**d
    elif op == "below":
        sg = [(-1.)**(nm.count("z") + 1) for nm in o.NAMES[d]]
        got, want = pot(P, A, x*[1, 1, -1]), want*sg
    elif op == "double":
        got, want = pot(np.r_[P, P], np.r_[A, 2*A], x, c["a"]), 3*want*c["a"]
    mag = o.point_reference(x, P, A, 1., d)[1]
    check_close(got, want, atol=20*tolerance(mag).max(), what=op)
    ctx.label(op, "order%d" % d)
    ctx.nontrivial(bool(np.abs(want).max() > 1e-9))


SUBS = [
    Sub("reference", _case, check_reference, 1200, 60000,
        "a non-zero component well above the tolerance", shards=5),
    Sub("metamorphic", _meta, check_meta, 600, 20000,
        "a potential above 1e-9", shards=1),
    Sub("conversion", _conv, check_conv, 500, 20000,
        "a patch of non-zero area", shards=2),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    reference=(250, 10000),
    metamorphic=(150, 5000),
).get(s.name)] if a]
