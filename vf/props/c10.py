"""C10 minimum search"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite

# method, keyword, position tolerance for unit curvature
METHODS = {
    "default": ({}, 1e-5),
    "Newton-CG": ({}, 1e-5),
    "BFGS": ({}, 1e-3),
    "CG": ({}, 1e-3),
    "L-BFGS-B": ({}, 1e-3),
    "TNC": ({}, 3e-3),
    "trust-ncg": ({}, 3e-3),
    "trust-exact": ({}, 1e-3),
    "SLSQP": ({"tol": 1e-12}, 3e-3),
    "Nelder-Mead": ({"tol": 1e-8}, 1e-3),
    "Powell": ({"tol": 1e-10}, 1e-3),
}

AXES = [[0, 1, 2], [0, 1, 2], [0, 1], [1, 2], [0, 2], [2, 0], [2, 1, 0],
        [1, 0, 2], [0], [1], [2]]


def start_forms(x, how):
    if how == 0:
        return list(x)
    if how == 1:
        return tuple(x)
    return np.array(x)


def call(s, start, c, method, coord, kw):
    a = dict(kw)
    ax = c["axis"]
    if sorted(ax) != [0, 1, 2] or ax != [0, 1, 2] or c["form"] == 1:
        a["axis"] = tuple(ax) if c["form"] else list(ax)
    if coord is not None:
        a["coord"] = coord
    if method != "default":
        a["method"] = method
    return s.minimum(start, **a)


@st.composite
def _quad(draw):
    return dict(axis=draw(st.sampled_from(AXES)),
                ew=draw(st.lists(g.num(.3, 3, 2), min_size=3, max_size=3)),
                ang=draw(g.vec(-3, 3, 3, 2)), cang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot", "rot", "refl"])),
                anti=draw(g.num(0, .9, 2)), x0=draw(g.vec(-2, 2, 3, 2)),
                off=draw(g.vec(-1, 1, 3, 2)), start=draw(g.vec(-1, 1)),
                method=draw(st.sampled_from(sorted(METHODS))),
                form=draw(st.integers(0, 3)),
                pot=draw(st.sampled_from([0., 0., .5, -2.])),
                k=draw(st.sampled_from([1., 1., .3, 2.5])))


def setup_quad(c, index=0):
    """system, coord, matrix in the frame, centre in the frame"""
    A = c["axis"]
    R = [i for i in range(3) if i not in A]
    Q = traps.spd(c["ew"], c["ang"])
    if index:
        # exactly one negative curvature among the searched axes
        n = len(A)
        u = o.rotation(c["sang"])[:n, :n] if n == 3 else (
            np.array([[np.cos(c["sang"][0]), -np.sin(c["sang"][0])],
                      [np.sin(c["sang"][0]), np.cos(c["sang"][0])]])[:n, :n]
            if n == 2 else np.eye(1))
        e = np.array(c["ew"][:n])
        e[0] *= -1
        Q[np.ix_(A, A)] = u @ np.diag(e) @ u.T
        short = -np.trace(Q)
        if R:
            for r in R:
                Q[r, r] += max(short, 0)/len(R) + c["anti"]
        elif short > 0:
            i = A[0]
            w, v = np.linalg.eigh(Q)
            w[-1] += short + .1
            Q = v @ np.diag(w) @ v.T
    elif R:
        # repulsive along the axes that are not searched
        t = np.trace(Q)*c["anti"]
        for r in R:
            Q[r, r] -= t/len(R)
    coord = None
    C = np.eye(3)
    if c["coord"] != "none":
        C = o.rotation(c["cang"])
        if c["coord"] == "refl":
            C = C @ np.diag([1., -1., 1.])
        coord = C
    s = traps.quadratic_system(C @ Q @ C.T, c["x0"], rf_coeff=c["k"],
                               rot=o.rotation([.3, .4, .5]), offset=c["pot"])
    return s, coord, C, Q, C.T @ np.array(c["x0"])


def check_quad(c, ctx):
    s, coord, C, Q, cen = setup_quad(c)
    A = c["axis"]
    R = [i for i in range(3) if i not in A]
    start = np.array(c["start"])
    start[A] = cen[A] + np.array(c["off"])[A]
    if c["form"] == 3 and coord is None:
        start = np.round(start)
    want = start.copy()
    d = (start - cen)[R]
    want[A] = cen[A] - np.linalg.solve(Q[np.ix_(A, A)],
                                       Q[np.ix_(A, R)] @ d)
    kw, tol = METHODS[c["method"]]
    before = s.dcs.tolist(), s.rfs.tolist()
    err = None
    for k in range(3):
        x = start_forms(start.tolist(), c["form"])
        if c["form"] == 3 and coord is None and k == 0:
            x = start.astype(int)
        keep = np.array(x)
        try:
            r = call(s, x, c, c["method"], coord, kw)
        except ValueError as e:
            err = "failed: %s" % (str(e)[:300])
        else:
            check_equal(np.asarray(x), keep, "start modified")
            require(np.shape(r) == (3,) and not (
                isinstance(x, np.ndarray) and np.shares_memory(x, r)),
                "result %r" % (r,))
            require(all(r[i] == start[i] for i in R),
                    "components not searched: %s, start %s" % (r, start))
            if np.abs(r - want).max() <= tol:
                break
            err = "%s found %s, minimum at %s" % (c["method"], r, want)
            f0, f1 = s.potential(np.array([C @ start, C @ r]), 0)
            require(f1 <= f0 + 1e-12*(1 + abs(f0)),
                    "potential at the result above that at the start")
        # unlucky simplices and line searches may fail; not three times
        start[A] += [.13, -.21, .17][:len(A)]
    else:
        require(False, err)
    require((s.dcs.tolist(), s.rfs.tolist()) == before, "voltages changed")
    ctx.label(c["method"], "%d axes" % len(A))
    ctx.nontrivial(np.abs(start - want).max() > .01)


@st.composite
def _trap(draw):
    return dict(trap=draw(traps.surface_trap()),
                axis=draw(st.sampled_from(AXES)),
                cang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot", "rot"])),
                off=draw(g.vec(-.12, .12)),
                method=draw(st.sampled_from(["default", "Newton-CG", "BFGS",
                                             "Nelder-Mead", "L-BFGS-B"])),
                form=draw(st.integers(0, 2)))


def generic(s, C, A, start, r, tol):
    R = [i for i in range(3) if i not in A]
    require(all(r[i] == start[i] for i in R),
            "components not searched: %s, start %s" % (r, start))
    X = np.array([C @ start, C @ r])
    f0, f1 = s.potential(X, 0)
    g0, g1 = [(C.T @ v)[A] for v in s.potential(X, 1)]
    H = [(C.T @ h @ C)[np.ix_(A, A)] for h in s.potential(X, 2)]
    scale = np.linalg.norm(g0) + .05*max(np.abs(h).max() for h in H)
    return f0, f1, np.linalg.norm(g1)/scale, np.linalg.eigvalsh(H[1])


def check_trap(c, ctx):
    s, x = traps.build_surface_trap(c["trap"])
    C = np.eye(3) if c["coord"] == "none" else o.rotation(c["cang"])
    coord = None if c["coord"] == "none" else C
    A = c["axis"]
    start = C.T @ x + np.array(c["off"])
    w = np.linalg.eigvalsh((C.T @ s.potential((C @ start)[None], 2)[0] @ C)[
        np.ix_(A, A)])
    if w[0] < 0:
        ctx.skip("not confined at the start")
    kw = METHODS[c["method"]][0]
    try:
        r = call(s, start_forms(start.tolist(), c["form"]), c, c["method"],
                 coord, kw)
    except ValueError:
        ctx.skip("reported failure")
    f0, f1, ratio, w = generic(s, C, A, start, r, None)
    require(f1 <= f0 + 1e-12*(1 + abs(f0)),
            "potential %r at the result, %r at the start" % (f1, f0))
    require(ratio < .02, "gradient at the result is %.3g of that at the "
            "start" % ratio)
    require(w[0] > -1e-3*abs(w).max(), "curvatures %s" % w)
    ctx.label(c["method"], "%d axes" % len(A))
    ctx.nontrivial(np.abs(r - start).max() > .01)


@st.composite
def _fail(draw):
    return dict(axis=draw(st.sampled_from(AXES)),
                ew=draw(st.lists(g.num(.3, 3, 2), min_size=3, max_size=3)),
                ang=draw(g.vec(-3, 3, 3, 2)), cang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot"])), anti=0.,
                x0=draw(g.vec(-2, 2, 3, 2)), pot=0., k=1.,
                off=draw(st.lists(g.nonzero(.5, 2, 2), min_size=3,
                                  max_size=3)),
                method=draw(st.sampled_from(["Nelder-Mead", "Powell", "BFGS",
                                             "CG", "Newton-CG"])),
                form=draw(st.integers(0, 2)), n=draw(st.integers(1, 2)))


def check_fail(c, ctx):
    """with too few iterations either the minimum is reached or the failure
    is reported"""
    s, coord, C, Q, cen = setup_quad(c)
    A = c["axis"]
    start = cen + np.array(c["off"])
    want = start.copy()
    want[A] = cen[A]
    R = [i for i in range(3) if i not in A]
    want[A] -= np.linalg.solve(Q[np.ix_(A, A)], Q[np.ix_(A, R)]
                               @ (start - cen)[R])
    x = np.array(start)
    try:
        r = call(s, x, c, c["method"], coord,
                 dict(options=dict(maxiter=c["n"])))
    except ValueError:
        ctx.label("failure reported")
        check_equal(x, start, "start modified")
        ctx.nontrivial()
        return
    check_close(r, want, atol=3e-3, what="returned in spite of %d iterations "
                "of %s" % (c["n"], c["method"]))
    ctx.label("converged")


@st.composite
def _simplex(draw):
    c = draw(_quad())
    c.update(method=draw(st.sampled_from(["Nelder-Mead", "Nelder-Mead",
                                          "Powell", "BFGS", "CG"])),
             t=draw(st.sampled_from([.1, .03, 1e-2, 1e-4])))
    return c


def check_simplex(c, ctx):
    """a coarse search returns the best of the points it looked at"""
    s, coord, C, Q, cen = setup_quad(c)
    A = c["axis"]
    start = np.array(c["start"])
    start[A] = cen[A] + np.array(c["off"])[A]
    seen = []

    class Recorder(type(s)):
        def potential(self, x, derivative=0, *a, **k):
            r = super().potential(x, derivative, *a, **k)
            if np.ndim(derivative) == 0 and derivative == 0:
                seen.extend(np.ravel(r).tolist())
            return r
    rec = Recorder(list(s))
    rec.rf_coeff = s.rf_coeff
    opt = dict(options={"Nelder-Mead": dict(xatol=c["t"], fatol=c["t"]),
                        "Powell": dict(xtol=c["t"], ftol=c["t"])}.get(
        c["method"], dict(gtol=c["t"])))
    try:
        r = call(rec, start_forms(start.tolist(), c["form"] % 3), c,
                 c["method"], coord, opt)
    except ValueError:
        ctx.skip("reported failure")
    require(np.shape(r) == (3,), "result %r" % (r,))
    f = s.potential((C @ r)[None], 0)[0]
    if not seen:
        ctx.skip("not observed")
    best = min(seen)
    # gradient methods and line searches may look at lower points, but end
    # close to the bottom
    require(f <= best + 1e-9*(1 + abs(best)) if c["method"] ==
            "Nelder-Mead" else f <= max(seen),
            "potential %r at the result, %r was seen" % (f, best))
    ctx.label(c["method"])
    ctx.nontrivial(len(seen) > 10)


@st.composite
def _own(draw):
    return dict(axis=draw(st.sampled_from(AXES)),
                spec=draw(g.system_spec(1, 3, ("poly", "point", "harm"))),
                cang=draw(g.vec(-3, 3, 3, 2)),
                coord=draw(st.sampled_from(["none", "rot", "rot", "refl"])),
                x0=draw(g.vec(-2, 2, 3, 2)), h=draw(g.num(.3, 2, 2)),
                steps=draw(st.lists(g.vec(-1, 1, 3, 2), min_size=1,
                                    max_size=4)),
                form=draw(st.integers(0, 2)), method="",
                success=draw(st.sampled_from([True, True, True, False])),
                k=draw(st.sampled_from([1., 1., .3, 2.5])))


def check_own(c, ctx):
    """a method given as a function is told the potential over the searched
    axes and its derivatives, and what it returns is taken"""
    from scipy.optimize import OptimizeResult
    s = g.build_system([dict(e) for e in c["spec"]])
    s.rf_coeff = c["k"]
    A = c["axis"]
    C, coord = np.eye(3), None
    if c["coord"] != "none":
        C = o.rotation(c["cang"])
        if c["coord"] == "refl":
            C = C @ np.diag([1., -1., 1.])
        coord = C.copy()
    y = np.array(c["x0"])
    y[2] = c["h"]
    start = C.T @ y
    orders = set()

    def close(got, want, what):
        m = np.abs(want).max()
        require(np.shape(got) == np.shape(want), "%s: shape %s" % (
            what, np.shape(got)))
        check_close(np.array(got), want, atol=1e-9*m + 1e-12, what=what)

    def search(fun, x0, args=(), jac=None, hess=None, **kw):
        check_equal(np.array(x0), start[A], "start of the search")
        require(kw.get("depth") == 3, "options %s" % (sorted(kw),))
        x = np.array(x0, float)
        for i, d in enumerate([[0., 0., 0.]] + c["steps"]):
            x = np.array(x0, float) + np.array(d)[A]
            full = start.copy()
            full[A] = x
            p = C @ full
            if abs(p[2]) < .1:
                continue
            z = x.copy()
            # in changing order
            for k in ((0, 1, 2), (2, 0, 1), (1, 2, 0))[i % 3]:
                if k == 0:
                    got = fun(z, *args)
                    close(np.array(got).reshape(()),
                          np.array(s.potential(p[None], 0)[0]), "potential")
                elif k == 1 and callable(jac):
                    t = np.array(s.potential(p[None], 1)[0])
                    close(jac(z, *args), (C.T @ t)[A], "gradient")
                elif k == 2 and callable(hess):
                    t = np.array(s.potential(p[None], 2)[0])
                    close(hess(z, *args), (C.T @ t @ C)[np.ix_(A, A)],
                          "curvatures")
                else:
                    continue
                orders.add(k)
                check_equal(z, x, "argument modified")
        return OptimizeResult(x=x.copy(), success=c["success"],
                              message="given up", fun=0., nit=1)

    a = dict(method=search, options=dict(depth=3))
    if A != [0, 1, 2] or c["form"] == 1:
        a["axis"] = tuple(A) if c["form"] else list(A)
    if coord is not None:
        a["coord"] = coord
    x = start_forms(start.tolist(), c["form"])
    try:
        r = s.minimum(x, **a)
    except ValueError:
        require(not c["success"], "raises")
        ctx.label("failure reported")
        return
    require(c["success"], "failure not reported")
    want = start.copy()
    want[A] += np.array(c["steps"][-1])[A]
    check_close(r, want, atol=1e-14, what="result")
    check_equal(np.array(x), start, "start modified")
    if coord is not None:
        check_equal(coord, C, "coord modified")
    ctx.label(*("order %i" % k for k in orders))
    ctx.nontrivial(len(c["steps"]) > 1 and len(orders) > 1)


SUBS = [
    Sub("harmonic", _quad, check_quad, 800, 30000,
        "start more than 0.01 away from the minimum", shards=5),
    Sub("surface trap", _trap, check_trap, 160, 6000,
        "the search moves by more than 0.01", shards=2),
    Sub("coarse search", _simplex, check_simplex, 150, 5000,
        "more than ten points looked at", shards=1),
    Sub("method given", _own, check_own, 200, 6000,
        "more than one point looked at, derivatives too", shards=1),
    Sub("failure", _fail, check_fail, 150, 5000,
        "the failure is reported", shards=1),
]
