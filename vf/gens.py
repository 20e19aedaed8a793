"""Generators.  Every strategy yields JSON-able data; builders turn the data
into objects of the code under test (imported lazily)."""
import math

import numpy as np
from hypothesis import strategies as st


def num(lo, hi, dec=3):
    """decimal fractions in [lo, hi]; shrinks towards 0 (or the bound)"""
    s = 10**dec
    return st.integers(int(math.ceil(lo*s)), int(math.floor(hi*s))).map(
        lambda i: i/s)


def nonzero(lo, hi, dec=3):
    """+-[lo, hi]"""
    return st.tuples(num(lo, hi, dec), st.booleans()).map(
        lambda t: -t[0] if t[1] else t[0])


def wide(dec=3):
    """numbers of very different magnitude"""
    return st.tuples(nonzero(1, 9.9, 1), st.integers(-4, 3)).map(
        lambda t: t[0]*10.**t[1])


def extreme():
    """numbers from one part in a thousand million to hundred million"""
    return st.tuples(nonzero(1, 9.9, 1), st.integers(-9, 8)).map(
        lambda t: float("%.1fe%d" % t))


def volt():
    return st.one_of(num(-10, 10, 2), num(-10, 10, 2),
                     st.sampled_from([0., 1., -1.]), wide(),
                     st.one_of(wide(), extreme()))


def vec(lo, hi, n=3, dec=3):
    return st.lists(num(lo, hi, dec), min_size=n, max_size=n)


def points3(lo=1, hi=6, r=5., zmin=.1, zmax=5., both=True):
    z = num(zmin, zmax)
    if both:
        z = st.tuples(z, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])
    p = st.tuples(num(-r, r), num(-r, r), z).map(list)
    few = st.lists(p, min_size=lo, max_size=hi)
    if hi < 3:
        return few

    def many(t):
        # a batch of points spread around a few
        n, q = t
        return [[a + .1*(i//len(q)), b - .07*(i//len(q)),
                 c*(1 + .01*(i//len(q)))]
                for i in range(n) for a, b, c in [q[i % len(q)]]]
    lots = st.tuples(st.integers(hi + 1, 40),
                     st.lists(p, min_size=1, max_size=3)).map(many)
    return st.integers(0, 15).flatmap(lambda i: lots if i == 15 else few)


def star(rmin=.3, rmax=1.5, cr=3., nmin=3, nmax=9):
    """simple star shaped ccw polygon"""
    @st.composite
    def s(draw):
        n = draw(st.integers(nmin, nmax))
        cx, cy = draw(num(-cr, cr, 2)), draw(num(-cr, cr, 2))
        ph = draw(num(0, 6.28, 2))
        r = draw(st.lists(num(rmin, rmax, 2), min_size=n, max_size=n))
        j = draw(st.lists(num(0, .4, 2), min_size=n, max_size=n))
        return star_path(cx, cy, ph, r, j)
    return s()


def star_path(cx, cy, ph, r, j):
    n = len(r)
    return [[cx + ri*math.cos(ph + 2*math.pi*(i + ji)/n),
             cy + ri*math.sin(ph + 2*math.pi*(i + ji)/n)]
            for i, (ri, ji) in enumerate(zip(r, j))]


def fine():
    """simple star shaped ccw polygon with many vertices"""
    def make(t):
        n, a, k, ph, cx, cy, size = t
        return [[cx + size*(1 + a*math.cos(k*u + ph))*math.cos(u),
                 cy + size*(1 + a*math.cos(k*u + ph))*math.sin(u)]
                for u in (2*math.pi*i/n for i in range(n))]
    return st.tuples(st.integers(10, 90), num(0, .4, 2), st.integers(1, 5),
                     num(0, 6, 1), num(-3, 3, 2), num(-3, 3, 2),
                     num(.3, 2, 2)).map(make)


def rect(cr=3., smin=.2, smax=3.):
    return st.tuples(num(-cr, cr, 2), num(-cr, cr, 2), num(smin, smax, 2),
                     num(smin, smax, 2)).map(lambda t: [
                         [t[0], t[1]], [t[0] + t[2], t[1]],
                         [t[0] + t[2], t[1] + t[3]], [t[0], t[1] + t[3]]])


def lshape():
    return st.tuples(num(-3, 3, 2), num(-3, 3, 2), num(.3, 1.5, 2),
                     num(.3, 1.5, 2), num(.3, 1.5, 2), num(.3, 1.5, 2)).map(
        lambda t: [[t[0], t[1]], [t[0] + t[2] + t[3], t[1]],
                   [t[0] + t[2] + t[3], t[1] + t[4]],
                   [t[0] + t[2], t[1] + t[4]],
                   [t[0] + t[2], t[1] + t[4] + t[5]],
                   [t[0], t[1] + t[4] + t[5]]])


def anypoly():
    """any closed vertex list, also self intersecting"""
    return st.lists(st.tuples(num(-4, 4, 2), num(-4, 4, 2)).map(list),
                    min_size=3, max_size=7)


def reverse(p):
    return p[::-1]


def scaled_about(p, f):
    c = np.mean(p, 0)
    return (c + f*(np.array(p) - c)).tolist()


def path():
    """one simple path with orientation, start vertex and closure varied"""
    @st.composite
    def s(draw):
        if draw(st.integers(0, 11)) == 11:
            p = draw(fine())
        else:
            p = draw(st.one_of(star(), rect(), lshape()))
        k = draw(st.integers(0, len(p) - 1))
        p = p[k:] + p[:k]
        if draw(st.integers(0, 3)) == 0:
            p = p[::-1]
        return p
    return s()


def decorated_path():
    """path, possibly closed explicitly or with repeated vertices, or any
    vertex list"""
    @st.composite
    def s(draw):
        p = draw(st.one_of(path(), path(), anypoly()))
        d = draw(st.integers(0, 5))
        if d == 0:
            p = p + p[:1]
        elif d == 1:
            i = draw(st.integers(0, len(p) - 1))
            p = p[:i] + [p[i]] + p[i:]
        return p
    return s()


def orthonormal(proper=False):
    """angles -> rotation (JSON list), identity and axis permutations too"""
    from . import oracles
    a = num(-3.2, 3.2, 2)

    def make(t):
        r = oracles.rotation(t[0])
        if t[1] and not proper:
            r = r @ np.diag([1., 1., -1.])
        return r.tolist()
    perms = [np.eye(3).tolist(), [[0., 1., 0.], [0., 0., 1.], [1., 0., 0.]],
             [[0., -1., 0.], [1., 0., 0.], [0., 0., 1.]]]
    if not proper:
        perms.append([[0., 1., 0.], [1., 0., 0.], [0., 0., 1.]])
    return st.one_of(
        st.tuples(st.tuples(a, a, a), st.booleans()).map(make),
        st.tuples(st.tuples(a, a, a), st.booleans()).map(make),
        # almost no rotation
        st.tuples(st.tuples(*[st.sampled_from(
            [0., 1e-6, 1e-4, -5e-4, 2e-3, .01])]*3), st.booleans()).map(make),
        st.sampled_from(perms))


# ---------------------------------------------------- electrodes as specs

def cover():
    return st.one_of(
        st.just([50., 0]),
        st.tuples(num(3, 60, 1), st.integers(0, 6)).map(list))


@st.composite
def polygon_electrode(draw, voltages=True, covers=True, maxpaths=3,
                      decorated=True):
    paths = draw(st.lists(decorated_path() if decorated else path(),
                          min_size=1, max_size=maxpaths))
    if draw(st.integers(0, 4)) == 0:
        paths = paths + [scaled_about(paths[0], .4)[::-1]]
    return dict(kind="poly", paths=paths, cover=draw(cover()) if covers
                else [50., 0], dc=draw(volt()) if voltages else 0.,
                rf=draw(volt()) if voltages else 0.)


@st.composite
def point_electrode(draw, voltages=True, covers=True, maxpoints=6):
    n = draw(st.integers(1, maxpoints))
    pts = draw(st.lists(vec(-4, 4, 2), min_size=n, max_size=n))
    areas = draw(st.lists(nonzero(.05, 3, 2), min_size=n, max_size=n))
    return dict(kind="point", points=pts, areas=areas,
                cover=draw(cover()) if covers else [50., 0],
                dc=draw(volt()) if voltages else 0.,
                rf=draw(volt()) if voltages else 0.)


@st.composite
def cover_electrode(draw):
    return dict(kind="cover", height=draw(num(2, 60, 1)), dc=draw(volt()),
                rf=draw(volt()))


@st.composite
def harmonic_electrode(draw, maxdeg=4, scale=1.):
    """solid harmonic polynomial (an Electrode subclass of the harness)"""
    deg = draw(st.integers(1, maxdeg))
    terms = []
    for l in range(1, deg + 1):
        n = draw(st.integers(0, 2))
        for _ in range(n):
            terms.append([l, draw(st.integers(-l, l)),
                          draw(nonzero(.05, 1.5, 2))*scale])
    if not terms:
        terms = [[deg, draw(st.integers(-deg, deg)), scale]]
    return dict(kind="harm", terms=terms, dc=draw(volt()), rf=draw(volt()))


@st.composite
def system_spec(draw, lo=1, hi=4, kinds=("poly", "poly", "point", "cover",
                                         "harm")):
    n = draw(st.integers(lo, hi))
    out = []
    for i in range(n):
        k = draw(st.sampled_from(kinds))
        e = draw(dict(poly=polygon_electrode(), point=point_electrode(),
                      cover=cover_electrode(),
                      harm=harmonic_electrode())[k])
        # names may be missing or shared
        e["name"] = draw(st.sampled_from(["e%d" % i]*3 + ["", "a"]))
        out.append(e)
    return out


FORMS = ["array", "array", "array", "array", "list", "tuple", "whole",
         "whole list", "float32", "strided"]


def array_like(x, form):
    """(points as some array_like, the positions they mean); whole: integers,
    off the plane"""
    x = np.array(x, float).reshape(-1, 3)
    if form.startswith("whole"):
        x = np.round(x)
        x[x[:, 2] == 0, 2] = 1.
        y = x.astype(int)
        return (y.tolist() if form == "whole list" else y), x
    if form == "float32":
        y = x.astype(np.float32)
        return y, y.astype(float)
    if form == "list":
        return x.tolist(), x
    if form == "tuple":
        return tuple(map(tuple, x.tolist())), x
    if form == "strided":
        return np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2], x
    return x, x


def unit():
    """unit of length, mostly 1"""
    return st.one_of(*[st.just(1.)]*5, st.sampled_from([1e-6, 1e-3, 1e3, 1e6]))


def rescale(spec, f):
    """the electrode specification in a unit of length 1/f"""
    if f == 1:
        return spec
    s = dict(spec)
    if "paths" in s:
        s["paths"] = [(np.array(p)*f).tolist() for p in s["paths"]]
    if "points" in s:
        s["points"] = (np.array(s["points"])*f).tolist()
        s["areas"] = (np.array(s["areas"])*f*f).tolist()
    if "cover" in s:
        s["cover"] = [s["cover"][0]*f, s["cover"][1]]
    if "height" in s:
        s["height"] = s["height"]*f
    if "terms" in s:
        s["terms"] = [[l, m, t*f**-l] for l, m, t in s["terms"]]
    return s


def build_electrode(s):
    import electrode
    from . import harm
    kw = dict(name=s.get("name", ""), dc=s["dc"], rf=s["rf"])
    if s["kind"] == "poly":
        return electrode.PolygonPixelElectrode(
            paths=[np.array(p, float) for p in s["paths"]],
            cover_height=s["cover"][0], cover_nmax=s["cover"][1], **kw)
    if s["kind"] == "point":
        return electrode.PointPixelElectrode(
            points=s["points"], areas=s["areas"],
            cover_height=s["cover"][0], cover_nmax=s["cover"][1], **kw)
    if s["kind"] == "cover":
        return electrode.CoverElectrode(height=s["height"], **kw)
    if s["kind"] == "harm":
        return harm.Harmonic(s["terms"], origin=s.get("origin"), **kw)
    raise ValueError(s["kind"])


def build_system(spec):
    import electrode
    return electrode.System([build_electrode(s) for s in spec])


def reference_electrode(s, x, derivative):
    """unit potential reference (value, magnitude) of an electrode spec"""
    from . import oracles, harm
    x = np.asarray(x, float).reshape(-1, 3)
    if s["kind"] == "poly":
        return oracles.polygon_reference(x, s["paths"], 1., derivative,
                                         s["cover"][1], s["cover"][0])
    if s["kind"] == "point":
        return oracles.point_reference(x, s["points"], s["areas"], 1.,
                                       derivative, s["cover"][1],
                                       s["cover"][0])
    if s["kind"] == "cover":
        o = np.zeros((len(x), 2*derivative + 1))
        if derivative == 0:
            o[:, 0] = x[:, 2]/s["height"]
        elif derivative == 1:
            o[:, 2] = 1/s["height"]
        return o, np.abs(o)
    if s["kind"] == "harm":
        return harm.evaluate(s["terms"], s.get("origin"), x, derivative)
    raise ValueError(s["kind"])


def edge_distance(x, paths):
    """smallest distance (n,) of points (n, 3) to the edges of the paths"""
    x = np.asarray(x, float).reshape(-1, 3)
    best = np.full(len(x), np.inf)
    for p in paths:
        p = np.asarray(p, float)
        for a, b in zip(np.roll(p, 1, 0), p):
            d = b - a
            l2 = d @ d
            t = np.clip(((x[:, :2] - a) @ d)/l2, 0, 1) if l2 else 0*x[:, 0]
            f = a + t[:, None]*d - x[:, :2]
            best = np.minimum(best, np.sqrt((f*f).sum(1) + x[:, 2]**2))
    return best


def polygon_tolerance(x, paths, mag, derivative, v=1., nmax=0, height=50.):
    """absolute tolerance (n, 1) for the closed form edge expressions given
    the magnitudes of the terms; they cancel like (length/distance)**order
    near an edge"""
    x = np.asarray(x, float).reshape(-1, 3)
    allv = np.concatenate([np.asarray(p, float) for p in paths])
    size = max(np.ptp(allv, 0).max(), 1e-9)
    tol = np.zeros(len(x))
    for m in range(-nmax, nmax + 1):
        xm = x + [0, 0, 2*m*height]
        h = np.maximum(edge_distance(xm, paths), 1e-12)
        far = np.sqrt(((xm[:, None, :2] - allv[None])**2).sum(-1)
                      + xm[:, None, 2]**2).max(1)
        ratio = np.maximum(far, size)/h + 1
        rel = 1e-12 + 2e-14*ratio**max(derivative, 1)
        tol = tol + rel*(.1 + .02*len(allv))*abs(v)*np.minimum(
            size/h, 1)/h**derivative
        tol = tol + rel*np.max(mag, axis=1)
    return tol[:, None].astype(float) + 1e-300


def reference_tolerance(s, x, derivative):
    """unit reference, absolute tolerance (n, 1)"""
    w, m = reference_electrode(s, x, derivative)
    if s["kind"] == "poly":
        return w, polygon_tolerance(x, s["paths"], m, derivative, 1.,
                                    s["cover"][1], s["cover"][0])
    return w, 1e-11*np.max(m, axis=1).astype(float)[:, None] + 1e-300
