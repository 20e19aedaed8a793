"""C11 saddle search"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite
from .c10 import AXES, setup_quad, generic, start_forms

TIGHT = dict(xtol=1e-8, ftol=1e-10)


def call(s, start, c, coord, kw):
    a = dict(kw)
    ax = c["axis"]
    if ax != [0, 1, 2] or c["form"] == 1:
        a["axis"] = tuple(ax) if c["form"] else list(ax)
    if coord is not None:
        a["coord"] = coord
    r = s.saddle(start, **a)
    require(len(r) == 2, "result %r" % (r,))
    x, p = r
    require(np.shape(x) == (3,), "position %r" % (x,))
    return np.asarray(x), float(np.asarray(p).reshape(()))


@st.composite
def _quad(draw):
    return dict(axis=draw(st.sampled_from(AXES)),
                ew=draw(st.lists(g.num(.3, 3, 2), min_size=3, max_size=3)),
                ang=draw(g.vec(-3, 3, 3, 2)), cang=draw(g.vec(-3, 3, 3, 2)),
                sang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot", "rot", "refl"])),
                anti=draw(g.num(0, .9, 2)), x0=draw(g.vec(-2, 2, 3, 2)),
                off=draw(g.vec(-.3, .3, 3, 2)), start=draw(g.vec(-1, 1)),
                form=draw(st.integers(0, 2)), tight=draw(st.booleans()),
                pot=draw(st.sampled_from([0., 0., .1])),
                k=draw(st.sampled_from([1., 1., .3, 2.5])))


def check_quad(c, ctx):
    s, coord, C, Q, cen = setup_quad(c, 1)
    A = c["axis"]
    R = [i for i in range(3) if i not in A]
    start = np.array(c["start"])
    start[A] = cen[A] + np.array(c["off"])[A]
    want = start.copy()
    d = (start - cen)[R]
    want[A] = cen[A] - np.linalg.solve(Q[np.ix_(A, A)],
                                       Q[np.ix_(A, R)] @ d)
    # well inside the domain: keep the frozen offset from pushing it away
    err = None
    first = np.abs(start - want).max()
    start[A] = want[A] + np.array(c["off"])[A]
    for k in range(3):
        x = start_forms(start.tolist(), c["form"])
        keep = np.array(x)
        try:
            r, p = call(s, x, c, coord, TIGHT if c["tight"] else {})
        except ValueError as e:
            err = "failed: %s" % (str(e)[:300])
        else:
            check_equal(np.asarray(x), keep, "start modified")
            require(all(r[i] == start[i] for i in R),
                    "components not searched: %s, start %s" % (r, start))
            f = s.potential((C @ r)[None], 0)[0]
            check_close(p, f, atol=1e-9*(1 + abs(f)), what="height")
            f0, f1, ratio, w = generic(s, C, A, start, r, None)
            require((w < 0).sum() == 1, "curvatures %s" % w)
            if np.abs(r - want).max() <= (1e-4 if c["tight"] else 2e-2):
                break
            err = "found %s, saddle at %s" % (r, want)
        start[A] += [.05, -.07, .03][:len(A)]
    else:
        require(False, err)
    if c["tight"]:
        # whole numbers as integers
        w = np.round(start)
        res = []
        for x in (w, w.astype(int), [int(k) for k in w]):
            try:
                res.append(call(s, x, c, coord, {}))
            except ValueError:
                res.append(None)
        for r in res[1:]:
            require((r is None) == (res[0] is None),
                    "integers %s: %s, floats: %s" % (w, r, res[0]))
            if r:
                check_close(r[0], res[0][0], atol=1e-9,
                            what="integer start")
        ctx.label("integers")
    ctx.label("%d axes" % len(A), c["coord"])
    ctx.nontrivial(np.abs(start - want).max() > .01)


@st.composite
def _trap(draw):
    return dict(trap=draw(traps.surface_trap()),
                axis=draw(st.sampled_from(AXES)),
                cang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot", "rot"])),
                off=draw(g.vec(-.15, .15)), up=draw(g.num(0, 1, 2)),
                form=draw(st.integers(0, 2)), tight=draw(st.booleans()))


def check_trap(c, ctx):
    s, x = traps.build_surface_trap(c["trap"])
    C = np.eye(3) if c["coord"] == "none" else o.rotation(c["cang"])
    coord = None if c["coord"] == "none" else C
    A = c["axis"]
    start = C.T @ (x + [0, 0, c["up"]*x[2]]) + np.array(c["off"])
    x0 = start_forms(start.tolist(), c["form"])
    keep = np.array(x0)
    try:
        r, p = call(s, x0, c, coord, TIGHT if c["tight"] else {})
    except ValueError:
        ctx.skip("reported failure")
    check_equal(np.asarray(x0), keep, "start modified")
    if (C @ r)[2] < .05 or np.abs(r).max() > 50:
        ctx.skip("left the region of the trap")
    f0, f1, ratio, w = generic(s, C, A, start, r, None)
    check_close(p, f1, atol=1e-9*(1 + abs(f1)), what="height")
    require(ratio < (.01 if c["tight"] else .15),
            "gradient at the result is %.3g of that at the start" % ratio)
    if abs(w).min() > 1e-3*abs(w).max():
        require((w < 0).sum() == 1, "curvatures %s" % w)
    ctx.label("%d axes" % len(A))
    ctx.nontrivial(np.abs(r - start).max() > .01)


@st.composite
def _aniso(draw):
    """quadratic plus third order terms: the saddle stays at the centre"""
    c = draw(_quad())
    c["coord"] = draw(st.sampled_from(["none", "rot"]))
    c["cubic"] = draw(st.lists(st.tuples(st.just(3), st.integers(-3, 3),
                                         g.nonzero(.01, .06, 3)).map(list),
                               min_size=1, max_size=3))
    return c


def check_aniso(c, ctx):
    c["axis"] = sorted(c["axis"])
    s, coord, C, Q, cen = setup_quad(c, 1)
    s[0].terms = s[0].terms + c["cubic"]
    A = c["axis"]
    start = cen.copy()
    start[A] += .6*np.array(c["off"])[A]
    err = None
    for k in range(3):
        try:
            r, p = call(s, start.copy(), c, coord, TIGHT)
        except ValueError as e:
            err = "failed: %s" % (str(e)[:300])
        else:
            f = s.potential((C @ r)[None], 0)[0]
            check_close(p, f, atol=1e-9*(1 + abs(f)), what="height")
            if np.abs(r - cen).max() <= 2e-3:
                break
            err = "found %s, saddle at %s" % (r, cen)
            f0, f1, ratio, w = generic(s, C, A, start, r, None)
            require(ratio < .02, "gradient is %.3g of start" % ratio)
            require((w < 1e-3*abs(w).max()).sum() >= 1, "curvatures %s" % w)
        start[A] += [.03, -.04, .02][:len(A)]
    else:
        require(False, err)
    ctx.label("%d axes" % len(A))
    ctx.nontrivial(np.abs(start - cen).max() > .01)


@st.composite
def _fail(draw):
    c = draw(_quad())
    c["far"] = draw(st.lists(g.nonzero(.5, 2, 2), min_size=3, max_size=3))
    c["dx"] = draw(g.num(.001, .02, 3))
    c["n"] = draw(st.integers(1, 5))
    return c


def check_fail(c, ctx):
    """too few, too small steps to get to the saddle"""
    s, coord, C, Q, cen = setup_quad(c, 1)
    A = c["axis"]
    start = cen.copy()
    start[A] += np.array(c["far"])[A]
    x = start.copy()
    try:
        r, p = call(s, x, c, coord, dict(dx_max=c["dx"], maxiter=c["n"],
                                         xtol=1e-12, ftol=1e-12))
    except ValueError:
        check_equal(x, start, "start modified")
        ctx.nontrivial()
        return
    require(False, "returned %s (start %s, saddle %s)" % (r, start, cen))


@st.composite
def _rfo(draw):
    n = draw(st.integers(1, 4))
    v = lambda lo, hi: draw(st.lists(g.num(lo, hi, 2), min_size=n,
                                     max_size=n))
    return dict(n=n, ew=v(.3, 3), mix=draw(st.lists(
        g.num(-1, 1, 2), min_size=n*n, max_size=n*n)), cen=v(-2, 2),
        x0=v(-2, 2), f0=draw(g.num(-1, 1, 2)),
        h=draw(st.sampled_from(["exact", "exact", "list", "none", "other"])),
        cubic=draw(st.sampled_from([0., 0., .05])),
        form=draw(st.sampled_from(["array", "list", "ints", "int array"])),
        gform=draw(st.sampled_from(["array", "list"])),
        dx_max=draw(st.sampled_from([None, .1, .5, 3.])),
        maxiter=draw(st.sampled_from([None, None, 1, 5, 30])),
        tol=draw(st.sampled_from(["default", "tight", "tight",
                                  "step"])))


def check_rfo(c, ctx):
    """the search itself, for any function"""
    from electrode.saddle import rfo
    n = c["n"]
    R = np.linalg.qr(np.array(c["mix"]).reshape(n, n) + 3*np.eye(n))[0]
    e = np.array(c["ew"])
    e[0] *= -1
    Q = R @ np.diag(e) @ R.T
    Q = .5*(Q + Q.T)
    cen = np.array(c["cen"])
    k = c["cubic"]

    def fun(x):
        d = np.asarray(x, float) - cen
        require(d.shape == (n,), "point %r passed to the function" % (x,))
        return c["f0"] + .5*d @ Q @ d + k*(d**3).sum()

    def grad(x):
        d = np.asarray(x, float) - cen
        v = Q @ d + 3*k*d**2
        return v.tolist() if c["gform"] == "list" else v
    x0 = list(c["x0"])
    if c["form"].startswith("int"):
        x0 = [int(round(i)) for i in x0]
    if "array" in c["form"]:
        x0 = np.array(x0)
    kw = {}
    for name in ("dx_max", "maxiter"):
        if c[name] is not None:
            kw[name] = c[name]
    if c["tol"] == "tight":
        kw.update(xtol=1e-9, ftol=1e-13)
    elif c["tol"] == "step":
        kw.update(xtol=1e-5, ftol=1e-300)
    h = None
    if c["h"] in ("exact", "list"):
        h = Q.tolist() if c["h"] == "list" else Q
    elif c["h"] == "other":
        h = Q + .3*np.diag(np.arange(n) - .5)
    if h is not None:
        kw["h"] = h
    keep = np.array(x0), None if h is None else np.array(h)
    log = []

    def cb(x, f, g_, h_):
        log.append((np.array(x).ravel().copy(), float(np.asarray(f)),
                    np.array(g_).ravel().copy(), np.array(h_).copy()))
    x, f, ret = rfo(fun, grad, x0, cb=cb, **kw)
    check_equal(np.asarray(x0), keep[0], "start modified")
    if h is not None:
        check_equal(np.asarray(h), keep[1], "hessian modified")
    require(ret in ("xtol", "ftol", "iter"), "reason %r" % (ret,))
    x = np.asarray(x)
    require(x.shape == (n,), "result %r" % (x,))
    X = np.array([i[0] for i in log])
    check_equal(X[0], np.asarray(x0, float), "first point")
    check_equal(X[-1], x, "last point")
    if not np.all(np.isfinite(X)) or np.abs(X).max() > 1e3:
        ctx.skip("ran away")
    sc = 1 + np.abs(X - cen).max()**2*(np.abs(Q).sum() + k*10*sum(
        np.abs(X - cen).max(0)))
    for i, (xi, fi, gi, hi) in enumerate(log):
        check_close(fi, fun(xi), atol=1e-12*sc*len(log), what="height at "
                    "step %d" % i)
        check_close(gi, np.array(grad(xi)), atol=1e-12*sc*len(log),
                    what="gradient at step %d" % i)
        check_close(hi, hi.T, atol=1e-9*(1 + np.abs(hi).max()),
                    what="symmetry of the hessian")
    check_close(float(np.asarray(f)), fun(x), atol=1e-12*sc*len(log),
                what="height")
    steps = np.diff(X, axis=0)
    ln = np.sqrt((steps**2).sum(1))
    require(np.all(ln <= c["dx_max"]*(1 + 1e-9) if c["dx_max"] else
                   ln <= 1 + 1e-9), "step of %r" % ln.max())
    m = c["maxiter"] or 200
    require(len(steps) <= m + 1, "%d steps" % len(steps))
    require(ret != "iter" or len(steps) == m + 1,
            "gave up after %d steps" % len(steps))
    # when it stops
    xtol, ftol = kw.get("xtol", 1e-4), kw.get("ftol", 1e-4)
    nx = np.sqrt((X**2).sum(1))
    small = 2*ln <= xtol*(nx[1:] + nx[:-1] + 1e-20)
    if ret == "xtol":
        require(2*ln[-1] <= xtol*(1 + 1e-6)*(nx[-1] + nx[-2] + 1e-20)
                + 1e-13, "stopped at a step of %r" % ln[-1])
    require(not np.any((2*ln < xtol*(1 - 1e-6)*(nx[1:] + nx[:-1]) - 1e-13)[
        :-1]), "did not stop after a small step")
    for i, s in enumerate(steps):
        if ln[i] < 1e-5:
            continue
        # the approximate hessian reproduces the last change of the gradient
        h1, dg = log[i + 1][3], log[i + 1][2] - log[i][2]
        check_close(h1 @ s, dg, atol=1e-7*ln[i]*(
            1 + np.abs(h1).max() + np.abs(log[i][3]).max()) + 1e-11*sc,
            what="secant condition at step %d" % i)
        # and only downhill along all but the lowest mode
        w, v = np.linalg.eigh(log[i][3])
        if n > 1 and np.diff(w).min() > 1e-3:
            gl, dl = v.T @ log[i][2], v.T @ s
            t = 1e-9*sc
            require(gl[0]*dl[0] >= -t and np.all(gl[1:]*dl[1:] <= t),
                    "step %s for the gradient %s along the modes" % (dl, gl))
    if c["h"] in ("exact", "list") and not k and not c["maxiter"]:
        if c["tol"] == "tight":
            require(ret != "iter", "no convergence on a quadratic")
            check_close(x, cen, atol=1e-5, what="saddle of a quadratic")
        if not np.any(ln < 1e-5):
            check_close(log[-1][3], Q, atol=1e-6*(1 + np.abs(Q).max()),
                        what="exact hessian")
    ctx.label(ret, c["form"], "h " + c["h"])
    ctx.nontrivial(len(steps) > 2)


SUBS = [
    Sub("rfo", _rfo, check_rfo, 600, 20000, "more than two steps", shards=1),
    Sub("harmonic", _quad, check_quad, 700, 25000,
        "start more than 0.01 away from the saddle", shards=3),
    Sub("anharmonic", _aniso, check_aniso, 300, 12000,
        "start more than 0.01 away from the saddle", shards=2),
    Sub("surface trap", _trap, check_trap, 160, 6000,
        "the search moves by more than 0.01", shards=2),
    Sub("failure", _fail, check_fail, 150, 5000,
        "the failure is reported", shards=1),
]
