"""C42 covariance of the analysis of a trap under symmetries of its layout"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite


@st.composite
def _change(draw, scales=True):
    """rotation about z, reflection, shift, magnification; another order,
    start vertices and pieces of the electrodes"""
    return dict(turn=draw(st.one_of(
        g.num(-7, 7, 2), st.sampled_from([0., math.pi/2, math.pi,
                                          -math.pi/2, math.pi/6]))),
        mirror=draw(st.booleans()),
        shift=draw(st.one_of(st.just([0., 0.]), g.vec(-5, 5, 2),
                             g.vec(-300, 300, 2, 1))),
        size=draw(st.one_of(st.just(1.), g.num(.3, 3, 2), st.sampled_from(
            [.01, 1e-3, 1e-5, 40., 1e3]))) if scales else 1.,
        perm=draw(st.integers(0, 999)), start=draw(st.integers(0, 5)),
        cut=draw(st.lists(st.integers(0, 5), max_size=3)),
        at=draw(g.num(.1, .9, 2)))


class Change(object):
    def __init__(self, c):
        t = c["turn"]
        self.m = np.array([[math.cos(t), -math.sin(t), 0],
                           [math.sin(t), math.cos(t), 0], [0, 0, 1.]])
        if c["mirror"]:
            self.m = self.m @ np.diag([1., -1, 1])
        self.t = np.r_[np.array(c["shift"], float), 0.]*c["size"]
        self.k, self.c = c["size"], c

    def points(self, x):
        return np.asarray(x, float) @ self.m.T*self.k + self.t

    def vectors(self, v):
        return np.asarray(v, float) @ self.m.T

    def path(self, p):
        p = np.asarray(p, float)
        q = p @ self.m[:2, :2].T*self.k + self.t[:2]
        if self.c["mirror"]:
            q = q[::-1]
        return np.roll(q, self.c["start"], axis=0)

    def tensor(self, a):
        """a (n, 3, ..., 3) derivatives"""
        a = np.asarray(a, float)
        for i in range(1, a.ndim):
            a = np.moveaxis(np.tensordot(a, self.m, (i, 1)), -1, i)
        return a/self.k**(a.ndim - 1)

    def system(self, s, cut=True, volts=1.):
        """and the old index of every new electrode"""
        import electrode
        n = len(s)
        idx = [int(i) for i in np.random.RandomState(
            self.c["perm"]).permutation(n)]
        els, old = [], []
        for i in idx:
            e = s[i]
            paths = [np.asarray(p, float) for p in e.paths]
            parts = [paths]
            if cut and i in self.c["cut"] and all(
                    len(p) == 4 for p in paths):
                # two strips of each quadrangle
                a = self.c["at"]
                one, two = [], []
                for p in paths:
                    u, v = p[0] + a*(p[1] - p[0]), p[3] + a*(p[2] - p[3])
                    one.append(np.array([p[0], u, v, p[3]]))
                    two.append(np.array([u, p[1], p[2], v]))
                parts = [one, two]
            for part in parts:
                els.append(electrode.PolygonPixelElectrode(
                    name=e.name, dc=e.dc*volts, rf=e.rf*volts,
                    paths=[self.path(p) for p in part],
                    cover_height=e.cover_height*self.k,
                    cover_nmax=e.cover_nmax))
                old.append(i)
        r = electrode.System(els)
        if hasattr(s, "rf_coeff"):
            r.rf_coeff = s.rf_coeff*self.k/volts
        return r, old


@st.composite
def _trap(draw, cover=True):
    return dict(trap=draw(traps.surface_trap()),
                n=draw(st.sampled_from([0, 0, 0, 1, 2])) if cover else 0,
                h=draw(g.num(6, 20, 1)),
                dcs=draw(st.lists(g.num(-.02, .02, 3), min_size=6,
                                  max_size=6)))


def build(c):
    s, x = traps.build_surface_trap(c["trap"])
    for e, v in zip(s, c["dcs"]):
        if e.name != "rf":
            e.dc += v
        e.cover_nmax, e.cover_height = c["n"], c["h"]
    return s, x


@st.composite
def _fields(draw):
    return dict(draw(_trap()), change=draw(_change()), x=[
        draw(g.vec(-2, 2, 3)) for _ in range(draw(st.integers(1, 3)))],
        k=draw(st.sampled_from([1., .1, 5.])))


def check_fields(c, ctx):
    s, x0 = build(c)
    s.rf_coeff = c["k"]
    T = Change(c["change"])
    r, old = T.system(s)
    x = np.array(c["x"], float)*[1, 1, 0] + [0, 0, 1]*(
        np.abs(np.array(c["x"], float)) + .4) + x0*[1, 1, 0]
    y = T.points(x)
    far = 1 + np.abs(T.t).max()/T.k
    scale = []
    for d in range(5):
        m = np.abs(s.individual_potential(x, d)).max((0, 2))
        a, b = (max(1., np.abs(v).max()) for v in (s.dcs, s.rfs))
        # edges much longer than the height cancel
        e = max(1e-11, 1e-14*50.**d)*far*m*len(s)
        scale.append((e*a, e*b, m))
        sh = (len(x),) + (1,)*d
        for typ, f in (("dc", a), ("rf", b)):
            check_close(r.electrical_potential(y, d, typ, expand=True)*T.k**d,
                        T.tensor(s.electrical_potential(
                            x, d, typ, expand=True))*T.k**d,
                        atol=(30*e*f).reshape(sh),
                        what="%s potential, order %d" % (typ, d))
        # parts of an electrode
        u = r.individual_potential(y, d)
        v = s.individual_potential(x, d)
        for i in range(len(s)):
            w = u[[j for j, k in enumerate(old) if k == i]].sum(0)
            from electrode import utils
            check_close(utils.expand_tensor(w)*T.k**d, T.tensor(
                utils.expand_tensor(v[i]))*T.k**d,
                atol=(30*e).reshape(sh), what="contribution, order %d" % d)
    for d in range(4):
        # scaled so that the sum transforms as a potential
        b = max(1., np.abs(s.rfs).max())
        m = sum(scale[i + 1][2].max()*scale[d - i + 1][2].max()
                for i in range(d + 1))*b*b*len(s)**2*c["k"]**2*2**d
        for typ in ("rf", "tot"):
            check_close(r.potential(y, d, typ)*T.k**d,
                        T.tensor(s.potential(x, d, typ))*T.k**d,
                        atol=(1e-9 if d < 3 else 1e-6)*far*(
                            m + np.abs(s.dcs).max()*len(s)*scale[d][2].max()),
                        what="%s potential, order %d" % (typ, d))
    ctx.label("cut" if len(r) > len(s) else "whole",
              "mirrored" if c["change"]["mirror"] else "turned",
              "cover" if c["n"] else "open")
    ctx.nontrivial(len(r) > len(s) or T.k != 1)


@st.composite
def _analysis(draw):
    c = dict(draw(_trap()), change=draw(_change()),
             off=draw(g.vec(-.05, .05)), r=draw(st.integers(2, 4)),
             amp=draw(g.num(.05, .5, 2)),
             method=draw(st.sampled_from([None, "Nelder-Mead", "Newton-CG"])),
             d=draw(st.lists(st.sampled_from(
                 "x y z xx xy xz yy yz".split()), min_size=1, max_size=3,
                 unique=True)))
    # tolerances of the searches are absolute
    if not .3 <= c["change"]["size"] <= 3:
        c["change"]["size"] = 1.
    return c


def check_analysis(c, ctx):
    s, x0 = build(c)
    T = Change(c["change"])
    r, old = T.system(s, cut=False)
    far = 1 + np.abs(T.t).max()/T.k
    # curvature at a common point
    y0 = T.points(x0)
    w, v = s.modes(x0)
    w2, v2 = r.modes(y0)
    a = np.abs(w).max()
    check_close(np.asarray(w2)*T.k**2, w, atol=1e-8*far*a, what="curvatures")
    v, v2 = np.asarray(v), np.asarray(v2)
    check_close(v2 @ np.diag(w2) @ v2.T*T.k**2,
                T.m @ v @ np.diag(w) @ v.T @ T.m.T, atol=1e-8*far*a,
                what="curvature from the modes")
    # frequencies of the driven motion
    dc = np.abs(s.electrical_potential(x0, 2, "dc")).max()*16
    rf = np.abs(s.electrical_potential(x0, 2, "rf")).max()*8
    sc = math.sqrt(c["amp"]/max(dc, rf))
    mu = np.asarray(s.mathieu(x0, sc, r=c["r"])[0])
    mu2 = np.asarray(r.mathieu(y0, sc*T.k, r=c["r"])[0])
    mu, mu2 = (np.sort(i.imag[i.imag > 1e-3]) for i in (mu, mu2))
    k = min(len(mu), len(mu2))
    if abs(len(mu) - len(mu2)) == 0 and k:
        check_close(mu2, mu, atol=2e-4, what="frequencies")
        ctx.label("frequencies")
    # minimum
    kw = {} if c["method"] is None else dict(method=c["method"])
    start = x0 + c["off"]
    try:
        m = np.asarray(s.minimum(start, **kw))
    except Exception:
        m = None
    try:
        m2 = np.asarray(r.minimum(T.points(start), **kw))
    except Exception:
        m2 = None
    if m is not None and m2 is not None and np.abs(m - x0).max() < 1:
        # both searches stop at small gradients
        h = np.linalg.eigvalsh(s.potential(m, 2)[0])
        if h[0] > 1e-3*h[-1]:
            b = T.points(m)
            g1 = s.potential(m, 1)[0]
            g2 = r.potential(m2, 1)[0]*T.k
            tol = (np.linalg.norm(g1) + np.linalg.norm(g2))/h[0]
            # a search without bounds may leave the trap
            if tol < .02 and np.abs(m2 - b).max() < .5*T.k:
                check_close(m2/T.k, b/T.k, atol=3*tol + 1e-4 + 1e-9*far,
                            what="minimum")
                ctx.label("minimum")
                ctx.nontrivial()
    # strengths of the shims
    f = T.m if not c["change"]["mirror"] else T.m @ np.diag([1., -1, 1])
    sign = -1. if c["change"]["mirror"] else 1.
    q = [(x0, None, d) for d in c["d"]]
    q2 = [(y0, f, d) for d in c["d"]]
    from electrode import utils
    rows = np.array([utils.expand_tensor(s.individual_potential(
        x0, len(d))[:, 0])[(slice(None),) + tuple("xyz".index(j) for j in d)]
        for d in c["d"]])
    sv = np.linalg.svd(rows/np.array([np.abs(s.individual_potential(
        x0, len(d))).max() for d in c["d"]])[:, None], compute_uv=False)
    if sv[-1] < 1e-3*sv[0]:
        # demands that the electrodes can not meet
        ctx.label("shims degenerate")
        return
    try:
        u, u2 = s.shims(q), r.shims(q2)
    except (ValueError, ArithmeticError):
        # the solver gives up on demands that can not be met
        ctx.skip("solver")
    for i, d in enumerate(c["d"]):
        n1 = np.abs(u[i]).max()
        n2 = np.abs(u2[i]).max()/T.k**len(d)
        # shims that the electrodes can just not make
        top = np.abs(s.individual_potential(x0, len(d))).max()
        if not np.maximum(n1, n2)*top <= 1e3:
            ctx.label("not feasible")
            continue
        check_close(n2, n1, atol=2e-3*n1, what="strength of shim %s" % d)
    ctx.label("shims")


@st.composite
def _motion(draw):
    return dict(draw(_trap()), change=draw(_change()),
                off=draw(g.vec(-.1, .1)), v=draw(g.vec(-.3, .3)),
                n=0, steps=draw(st.integers(1, 40)),
                dt=draw(g.num(.05, .3, 2)), t0=draw(g.num(-3, 3, 1)),
                q=draw(g.num(.05, .2, 2)))


def check_motion(c, ctx):
    """kick and drift with the force of the trap"""
    s, x0 = build(c)
    T = Change(c["change"])
    f = c["q"]/np.abs(s.electrical_potential(x0, 2, "rf")).max()
    s.rfs, s.dcs = s.rfs*f, s.dcs*f
    r, old = T.system(s, volts=T.k**2)

    def integ(ddx, nsteps, t, p, q, t1, *args, **kwargs):
        a = np.zeros(3)
        ddx(t, q, a)
        p += a*(t1 - t)
        q += p*(t1 - t)
    t1 = c["t0"] + (c["steps"] - .5)*c["dt"]
    kw = dict(t0=c["t0"], dt=c["dt"], t1=t1, integ=integ)
    a = list(s.trajectory(x0 + c["off"], c["v"], **kw))
    b = list(r.trajectory(T.points(x0 + c["off"]),
                          T.vectors(c["v"])*T.k, **kw))
    check_equal(len(b), len(a), "number of steps")
    far = 1 + np.abs(T.t).max()/T.k
    z = max(1., max(np.abs(i[1]).max() + np.abs(i[2]).max() for i in a))
    if z > 30 or min(i[1][2] for i in a) < .05:
        ctx.skip("not confined")
    grow = math.exp(.5*c["dt"]*len(a))
    for (ta, qa, pa), (tb, qb, pb) in zip(a, b):
        check_close(tb, ta, atol=1e-12, what="time")
        check_close(qb/T.k, T.points(qa)/T.k, atol=1e-9*far*z*grow,
                    what="position")
        check_close(pb/T.k, T.vectors(pa), atol=1e-9*far*z*grow, what="speed")
    ctx.label("cut" if len(r) > len(s) else "whole")
    ctx.nontrivial(len(a) > 3)


def _area(p):
    x, y = np.array(p, float)[:, :2].T
    return (x*np.roll(y, -1) - y*np.roll(x, -1)).sum()/2


@st.composite
def _shapes(draw):
    path = g.decorated_path().filter(lambda p: abs(_area(p)) > .05)
    return dict(paths=[draw(st.lists(path, min_size=1,
                                     max_size=3))
                       for _ in range(draw(st.integers(1, 3)))],
                change=draw(_change()), x=draw(g.vec(-3, 3, 3)),
                dc=[draw(g.volt()) for _ in range(3)])


def check_shapes(c, ctx):
    """conversions of polygons commute with the symmetries"""
    import electrode
    T = Change(c["change"])
    s = electrode.System([electrode.PolygonPixelElectrode(
        name="e%d" % i, dc=v, paths=p) for i, (p, v) in enumerate(
            zip(c["paths"], c["dc"]))])
    r, old = T.system(s, cut=False)
    far = 1 + np.abs(T.t).max()/T.k
    x = np.array(c["x"])*[1, 1, 0] + [0, 0, abs(c["x"][2]) + .3]
    y = T.points(x)
    for e, i in zip(r, old):
        check_equal(np.asarray(e.orientations()).tolist(),
                    np.asarray(s[i].orientations()).tolist(), "orientations")
        p, q = s[i].to_points(), e.to_points()
        check_close(np.asarray(q.areas)/T.k**2, p.areas,
                    atol=1e-10*far*(1 + np.abs(p.areas).max()), what="areas")
        z = T.points(np.c_[p.points, np.zeros(len(p.points))])[:, :2]
        lim = np.minimum(1., np.abs(p.areas))[:, None]
        check_close(np.asarray(q.points)/T.k, z/T.k, atol=1e-9*far**2/lim,
                    what="centroids")
        for d in range(3):
            from electrode import utils
            a = utils.expand_tensor(p.potential(x[None], d))
            b = utils.expand_tensor(q.potential(y[None], d))
            check_close(b*T.k**d, T.tensor(a)*T.k**d,
                        atol=1e-8*far*(1 + np.abs(a).max())*(
                            1 + np.abs(p.areas).sum())/lim.min(),
                        what="points, order %d" % d)
    mesh = [electrode.MeshPixelElectrode.from_polygon_system(i)
            for i in (s, r)]
    for d in range(4):
        from electrode import utils
        a = utils.expand_tensor(mesh[0].potential(x[None], d))
        b = utils.expand_tensor(mesh[1].potential(y[None], d))
        n = sum(len(p) for ps in c["paths"] for p in ps)
        check_close(b*T.k**d, T.tensor(a)*T.k**d,
                    atol=1e-9*far*n*(1 + np.abs(s.dcs).max())*4.**d,
                    what="mesh, order %d" % d)
    ctx.nontrivial(len(s) > 1 and T.k != 1)


SUBS = [
    Sub("fields", _fields, check_fields, 400, 12000,
        "electrodes cut or layout magnified", shards=3),
    Sub("analysis", _analysis, check_analysis, 200, 6000,
        "minimum compared", shards=4),
    Sub("motion", _motion, check_motion, 150, 4000,
        "more than three steps", shards=2),
    Sub("shapes", _shapes, check_shapes, 300, 10000,
        "several electrodes, magnified", shards=2),
]
