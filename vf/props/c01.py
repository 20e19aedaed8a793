"""C01 polygon electrodes: exact gapless plane potential and derivatives"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, pure, check_close, require, finite


STAT = None


def _case():
    @st.composite
    def s(draw):
        paths = draw(st.lists(g.decorated_path(), min_size=1, max_size=4))
        h = draw(st.integers(0, 5))
        if h == 0:
            paths.append(g.scaled_about(paths[0], .5)[::-1])
        elif h == 1:
            # a fine polygon
            n = draw(st.integers(20, 120))
            paths.append([[2*np.cos(2*np.pi*i/n), 1.5*np.sin(2*np.pi*i/n)]
                          for i in range(n)])
        pts = draw(g.points3(1, 5))
        sp = draw(st.integers(0, 3))
        if sp == 0:
            # above a vertex, an edge, on the extension of an edge
            p = draw(st.sampled_from(paths))
            i = draw(st.integers(0, len(p) - 1))
            t = draw(st.sampled_from([0., .5, 1., 1.7, -.6]))
            a, b = np.array(p[i - 1]), np.array(p[i])
            q = a + t*(b - a)
            pts.append([q[0], q[1], draw(g.nonzero(.2, 2))])
        elif sp == 1:
            pts = pts*draw(st.integers(2, 40))
        k = draw(st.sampled_from([0, 0, 0, 0, 0, -6, -4, -2, 2, 3, 6]))
        shift = draw(st.sampled_from([[0., 0.], [0., 0.], [100., -57.],
                                      [-13.5, 8.]]))
        f = 10.**k
        paths = [((np.array(p) + shift)*f).tolist() for p in paths]
        pts = ((np.array(pts) + np.r_[shift, 0.])*f).tolist()
        return dict(paths=paths, x=pts, d=draw(st.integers(0, 5)),
                    v=draw(st.one_of(st.just(1.), g.volt())),
                    how=draw(st.integers(0, 2)),
                    form=draw(st.sampled_from(g.FORMS)) if k == 0
                    and shift[0] == 0 else "array")
    return s()


def check_reference(c, ctx):
    import electrode
    xa, x = g.array_like(c["x"], c["form"])
    d, v = c["d"], c["v"]
    e = electrode.PolygonPixelElectrode(
        paths=c["paths"] if c["how"] else [np.array(p) for p in c["paths"]])
    if c["how"] == 2:
        e.dc = v
        got = electrode.System([e]).electrical_potential(xa, d)
    else:
        got = e.potential(xa, d, v)
    want, mag = o.polygon_reference(x, c["paths"], v, d)
    tol = g.polygon_tolerance(x, c["paths"], mag, d, v)
    finite(got, "potential")
    check_close(got, want, atol=tol, what="order %d" % d)
    if STAT is not None:
        STAT.append((d, float((np.abs(got - want)/tol).max())))
    ctx.label("order%d" % d)
    ctx.label(c["form"])
    if len(x) > 50:
        ctx.label("many points")
    if (x[:, 2] < 0).any():
        ctx.label("below")
    ctx.nontrivial(v != 0 and bool(
        (np.abs(want).max(1) > 1e3*tol.max(1)).any()))


def _near():
    @st.composite
    def s(draw):
        p = draw(g.star(.5, 1.5))
        return dict(p=p, z=10.**-draw(st.integers(1, 9)),
                    up=draw(st.booleans()), d=draw(st.integers(0, 2)),
                    inside=draw(st.booleans()), f=draw(g.num(0, .4, 2)),
                    ang=draw(g.num(0, 6.28, 2)),
                    hole=draw(st.booleans()), start=draw(st.integers(0, 8)))
    return s()


def check_near(c, ctx):
    """boundary condition: the electrode is at its voltage on its patches and
    grounded elsewhere on the plane; antisymmetric below"""
    import electrode
    p = np.array(c["p"])
    k = c["start"] % len(p)
    p = np.roll(p, k, 0)
    paths = [p]
    # the star is star shaped around its generation centre; find it as the
    # centroid of the kernel: use the polygon's own inner points by scaling
    cen = np.array([p[:, 0].mean(), p[:, 1].mean()])
    if c["inside"]:
        q = cen + c["f"]*.3*np.array([np.cos(c["ang"]), np.sin(c["ang"])])
    else:
        q = cen + 5*np.array([np.cos(c["ang"]), np.sin(c["ang"])])
    h = g.edge_distance([[q[0], q[1], 0.]], paths)[0]
    if h < .02:
        ctx.skip("too close to an edge")
    w = _winding(p, q)
    if c["hole"]:
        # surrounding square makes the star a hole
        paths = [np.array([[-50., -50], [50, -50], [50, 50], [-50, 50]]),
                 p[::-1]]
        w = 1 - w
    z = c["z"] if c["up"] else -c["z"]
    e = electrode.PolygonPixelElectrode(paths=paths)
    x = np.array([[q[0], q[1], z]])
    got = e.potential(x, 0)[0, 0]
    s = 1 if c["up"] else -1
    bound = 20*c["z"]/h
    require(abs(got - s*w) <= bound + 1e-12,
            "potential %r at height %r, boundary value %r" % (got, z, s*w))
    if c["d"]:
        want, mag = o.polygon_reference(x, paths, 1., c["d"])
        got = e.potential(x, c["d"])
        check_close(got, want,
                    atol=g.polygon_tolerance(x, paths, mag, c["d"]), what="order %d near" % c["d"])
    ctx.nontrivial()
    ctx.label("inside" if w else "outside")


def _winding(p, q):
    a = np.arctan2(p[:, 1] - q[1], p[:, 0] - q[0])
    d = np.diff(np.r_[a, a[:1]])
    d = (d + np.pi) % (2*np.pi) - np.pi
    return int(round(d.sum()/(2*np.pi)))


def _meta():
    @st.composite
    def s(draw):
        p = draw(g.path())
        return dict(p=p, x=draw(g.points3(1, 4, zmin=.3)),
                    d=draw(st.integers(0, 5)),
                    op=draw(st.sampled_from(
                        ["cyclic", "close", "dup", "reverse", "chord",
                         "split", "translate", "rotate", "mirror", "scale",
                         "below", "order", "midpoint"])),
                    i=draw(st.integers(0, 50)), j=draw(st.integers(0, 50)),
                    a=draw(g.num(-3, 3, 2)), b=draw(g.num(-3, 3, 2)),
                    p2=draw(g.path()))
    return s()


def _rot(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0],
                     [0, 0, 1.]])


def check_meta(c, ctx):
    import electrode
    P = np.array(c["p"])
    x = np.array(c["x"])
    d, op = c["d"], c["op"]
    n = len(P)
    i, j = c["i"] % n, c["j"] % n

    def pot(paths, x):
        return electrode.PolygonPixelElectrode(
            paths=[np.array(q) for q in paths]).potential(
                np.ascontiguousarray(x), d)
    base = pot([P], x)
    allp = [P]
    want = base
    full = lambda r: o.expand_reference(r, d)
    if op == "cyclic":
        got = pot([np.roll(P, i, 0)], x)
    elif op == "close":
        got = pot([np.r_[P, P[:1]]], x)
    elif op == "dup":
        got = pot([np.insert(P, i, P[i], 0)], x)
    elif op == "midpoint":
        m = .5*(P[i - 1] + P[i])
        got = pot([np.insert(P, i, m, 0)], x)
    elif op == "reverse":
        got, want = pot([P[::-1]], x), -base
    elif op in ("chord", "split"):
        i, j = sorted((i, j))
        if j - i < 2 or (i == 0 and j == n - 1):
            i, j = 0, 2
        a, b = P[i:j + 1], np.r_[P[j:], P[:i + 1]]
        if op == "chord":
            got = pot([a, b], x)
        else:
            got = pot([b], x) + pot([a], x)
        allp = [P, a, b]
    elif op == "translate":
        t = np.array([c["a"], c["b"], 0.])
        got = pot([P + t[:2]], x + t)
    elif op in ("rotate", "mirror"):
        r = _rot(c["a"])
        s = 1
        if op == "mirror":
            r = r @ np.diag([1., -1., 1.])
            s = -1
        got = full(pot([P @ r[:2, :2].T], x @ r.T))
        want = s*o.rotate_reference(full(base), r.T, d)
    elif op == "scale":
        f = 10.**c["a"]
        got = pot([P*f], x*f)*f**d
    elif op == "below":
        # antisymmetric about the plane
        sg = [(-1.)**(nm.count("z") + 1) for nm in o.NAMES[d]]
        got, want = pot([P], x*[1, 1, -1]), base*sg
    elif op == "order":
        Q = np.array(c["p2"])
        got, want = pot([P, Q], x), pot([Q, P], x)
        allp = [P, Q]
    mag = o.polygon_reference(x, allp, 1., d)[1]
    check_close(got, want, what=op,
                atol=6*g.polygon_tolerance(x, allp, mag, d).max())
    ctx.label(op, "order%d" % d)
    ctx.nontrivial(bool(np.abs(want).max() > 1e-9))


def _range():
    return st.fixed_dictionaries(dict(
        p=g.path(), x=g.points3(1, 8, zmin=.001), k=st.integers(2, 6)))


def check_range(c, ctx):
    """maximum principle and far field"""
    import electrode
    P = np.array(c["p"])
    if o.shoelace(P) < 0:
        P = P[::-1]
    x = np.array(c["x"])
    e = electrode.PolygonPixelElectrode(paths=[P])
    v = e.potential(x, 0)[:, 0]*np.sign(x[:, 2])
    require(np.all((v > -1e-12) & (v < 1 + 1e-12)),
            "potential of a grounded plane with one patch at 1 V out of "
            "range: %s" % v)
    # far field of the area, from the centroid
    A, cen = o.shoelace(P), o.centroid(P)
    R = 10.**c["k"]
    far = x/np.linalg.norm(x, axis=1)[:, None]*R*5
    far[:, :2] += cen.astype(float)
    r = np.linalg.norm(far - np.r_[cen.astype(float), 0], axis=1)
    want = float(A)*far[:, 2]/(2*np.pi*r**3)
    got = e.potential(np.ascontiguousarray(far), 0)[:, 0]
    atol = 100*float(A)/r**2/r**2*10 + 1e-15
    check_close(got, want, atol=atol, what="far field")
    ctx.nontrivial(bool((v > 1e-3).any()))


SUBS = [
    Sub("reference", _case, check_reference, 900, 60000,
        "a non-zero component well above the tolerance", shards=8),
    Sub("metamorphic", _meta, check_meta, 500, 20000,
        "a potential above 1e-9", shards=2),
    Sub("boundary", _near, check_near, 300, 10000,
        "point away from the patch edges", shards=1),
    Sub("range", _range, check_range, 300, 10000,
        "a potential above 1e-3", shards=1),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    reference=(250, 12000, 3),
    metamorphic=(150, 5000),
).get(s.name)] if a]
