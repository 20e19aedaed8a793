"""C14 characteristic exponents of the scalar Mathieu equation"""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, require


def aq(small=False):
    a = st.one_of(g.num(.0005, 9, 4), g.num(.0005, .3, 4), g.num(.0005, 2, 4))
    q = g.num(-1.2, 1.2, 3)
    return st.tuples(a, q).map(lambda t: [
        t[0] + .01*(abs(t[0] - 4) < 3e-3) + .01*(abs(t[0] - 1) < 3e-3), t[1]])


def y1pi(a, q):
    """even solution of y'' + (a - 2q cos 2t) y = 0 at t = pi"""
    return o.monodromy([[[a]], [[-q]]], 600)[0, 0]


def back(nu):
    """the value of the even solution the exponent stands for"""
    if np.iscomplexobj(nu):
        return np.cosh(np.pi*nu)
    return math.cos(math.pi*nu)


def check_nu(nu, c, tol, what, warned, ctx):
    """nu against c = y1(pi)"""
    nu = np.asarray(nu)[()]
    require(np.isfinite(nu), "%s: %r" % (what, nu))
    if abs(abs(c) - 1) <= tol + 1e-7:
        # at the edge of the stable region either is right
        require(abs(back(nu) - c) <= 2*tol + 1e-6, "%s: %r for y1(pi)=%.9g" % (
            what, nu, c))
        ctx.label("edge")
        return
    if abs(c) < 1:
        require(not np.iscomplexobj(nu), "%s: complex %r for y1(pi)=%.9g" % (
            what, nu, c))
        require(-1e-12 <= nu <= 1 + 1e-12, "%s: nu=%r" % (what, nu))
        require(not warned, "%s: warns about bounded motion" % what)
        ctx.label("stable")
    else:
        require(np.iscomplexobj(nu), "%s: real %r for y1(pi)=%.9g" % (
            what, nu, c))
        require(warned, "%s: no warning about unbounded motion" % what)
        gr = math.acosh(abs(c))/math.pi
        check_close(abs(np.real(nu)), gr, atol=2*tol/math.sqrt(c*c - 1) + 1e-9
                    + math.sqrt(2*tol)*(abs(c) < 1 + 4*tol),
                    what=what + " growth rate")
        ctx.label("unstable")
    v = back(nu)
    require(abs(v - c) <= tol, "%s: nu=%r means y1(pi)=%r, is %.12g "
            "(tolerance %.2g)" % (what, nu, v, c, tol))


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, any("complex" in str(i.message).lower()
                  or "unbound" in str(i.message).lower() for i in w)


@st.composite
def _det(draw):
    return dict(aq=draw(aq()), n=draw(st.integers(4, 40)),
                tol=draw(st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6, 1e-8])),
                start=draw(st.integers(3, 8)),
                default=draw(st.integers(0, 3)))


def check_det(c, ctx):
    from electrode.mathieu import Mathieu
    m = Mathieu()
    a, q = c["aq"]
    y = y1pi(a, q)
    n = c["n"]
    # truncation error of the infinite determinant
    for k in (n, 2*n):
        nu, w = quiet(m.nu_exp_det, a, q, k)
        check_nu(nu, y, .1*q*q/k**3*abs(1 - y) + 3e-9*max(1, abs(y)),
                 "determinant of order %d" % k, w, ctx)
    # to a tolerance
    kw = dict(tol=c["tol"], nstart=c["start"])
    if c["default"] == 0:
        kw = {}
    elif c["default"] == 1:
        kw.pop("nstart")
    tol = kw.get("tol", 1e-5)
    try:
        (nu, order), w = quiet(m.nu_tolerance, a, q, **kw)
    except ValueError:
        # documented: more terms than allowed are needed
        if tol < 1e-7 or abs(y) > .99:
            ctx.skip("tolerance not reached")
        raise
    require(int(order) == order and order >= 2, "order %r" % order)
    nu2, _ = quiet(m.nu_exp_det, a, q, int(order))
    require(abs(nu - nu2) <= 1e-12, "exponent %r, that of order %s is %r" % (
        nu, order, nu2))
    if abs(y) < 1 - 1e-6:
        # (orders too small for the edge of the stable region may warn)
        require(not np.iscomplexobj(nu), "unbounded: %r" % nu)
        require(not w or 1 - abs(y) < .4*q*q/kw.get("nstart", 5)**3,
                "warns about bounded motion")
        ref = math.acos(y)/math.pi
        require(abs(nu - ref) <= tol + 1e-8/math.sqrt(1 - y*y),
                "nu %r, exact %.10g, tolerance %g" % (nu, ref, tol))
    elif abs(y) > 1 + 1e-3:
        require(w, "no warning")
        check_nu(nu, y, .02*abs(1 - y)*q*q + 3e-9*abs(y),
                 "nu_tolerance", w, ctx)
    ctx.nontrivial(q != 0)


@st.composite
def _ivp(draw):
    return dict(aq=draw(aq()),
                method=draw(st.sampled_from([None, "RK45", "Radau", "Radau",
                                             "DOP853", "LSODA"])),
                nstep=draw(st.sampled_from([None, None, 1, 2, 7, 50])))


def check_ivp(c, ctx):
    from electrode.mathieu import Mathieu
    a, q = c["aq"]
    y = y1pi(a, q)
    kw = dict((k, c[k]) for k in ("method", "nstep") if c[k] is not None)
    nu, w = quiet(Mathieu().nu_exp_ivp, a, q, **kw)
    tol = {"Radau": 2e-3, "DOP853": 8e-3}.get(c["method"], 1.2e-2)
    check_nu(nu, y, tol*max(1, abs(y)), "integration", w, ctx)
    ctx.label(str(c["method"]), "nstep" if c["nstep"] else "free")
    ctx.nontrivial(q != 0)


@st.composite
def _approx(draw):
    return dict(a=draw(g.num(.0005, 9, 4)), q=draw(g.nonzero(.005, .3, 3)),
                f=draw(g.num(.02, .98, 2)), arr=draw(st.booleans()))


def check_approx(c, ctx):
    from electrode.mathieu import Mathieu
    m = Mathieu()
    a, q = c["a"], c["q"]
    if abs(a - 1) > .06:
        y = y1pi(a, q)
        tol = (.01 + .08*a*a)*q**4/(a - 1)**2 + 1e-9
        if abs(y) < 1 - 2*tol:
            nu = m.nu_exp_d0ap(a, q)
            require(np.isfinite(nu) and 0 <= nu <= 1, "d0ap: %r" % nu)
            require(abs(math.cos(math.pi*nu) - y) <= tol,
                    "d0ap: nu=%r, cos %r, y1(pi)=%.10g" % (
                        nu, math.cos(math.pi*nu), y))
            ctx.label("d0ap")
            ctx.nontrivial()
    a = c["f"]*q*q
    y = y1pi(a, q)
    nu = m.nu_exp_d0ap(a, q)
    require(abs(math.cos(math.pi*nu) - y) <= .03*q**6 + 1e-9,
            "d0ap: nu=%r, cos %r, y1(pi)=%.10g for small a, q" % (
                nu, math.cos(math.pi*nu), y))
    ref = math.acos(y)/math.pi
    b = m.nu_exp_bla(a, q)
    require(b > 0 and abs(b*b - ref*ref) <= 1.3*q**4 + 1e-9,
            "lowest order: nu=%r, exact %.9g" % (b, ref))


SUBS = [
    Sub("determinant", _det, check_det, 800, 30000, "q is not zero",
        shards=4),
    Sub("integration", _ivp, check_ivp, 500, 15000, "q is not zero",
        shards=2),
    Sub("approximations", _approx, check_approx, 500, 15000,
        "away from the resonance at a=1 and stable", shards=2),
]
