"""C15 Mathieu solutions"""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require, raises
from . import c14


@st.composite
def _case(draw):
    a, q = draw(c14.aq())
    if abs(q) < .05:
        q = math.copysign(.05 + abs(q), q)
    a += .04*(abs(a - 4) < .02) + .04*(abs(a - 1) < .02)
    return dict(a=a, q=q, mode=draw(st.sampled_from(
        ["det", "det", "default", "ivp", "d0ap"])),
        tol=draw(st.sampled_from([None, 1e-4, 1e-6, 1e-9])),
        nc=draw(st.sampled_from([None, None, 7, 10, 16])),
        ng=draw(st.sampled_from([None, 3, 8])),
        t=draw(st.lists(g.num(-8, 20, 2), min_size=3, max_size=6)),
        t0=draw(st.one_of(g.num(-8, 20, 2), st.sampled_from([0, 0., 1, 3]))),
        y0=draw(g.vec(-3, 3, 2, 2)), form=draw(st.integers(0, 2)),
        twice=draw(st.booleans()))


def check_case(c, ctx):
    from electrode.mathieu import Mathieu
    a, q = c["a"], c["q"]
    mono = o.monodromy([[[a]], [[-q]]], 600)
    y = mono[0, 0]
    if abs(y) > .995:
        ctx.skip("not stable")
    m = Mathieu()
    if c["twice"]:
        # initialised before with other parameters
        m.init_sol(.05, .3)
    kw = {}
    tol = 1e-5
    if c["mode"] != "default":
        kw["mode"] = c["mode"]
    if c["tol"] and c["mode"] in ("det", "default"):
        kw["tol_nu"] = tol = c["tol"]
    if c["nc"]:
        kw["nc"] = c["nc"]
    if c["ng"]:
        kw["ng"] = c["ng"]
    try:
        m.init_sol(a, q, **kw)
    except ValueError:
        # documented: more terms than allowed are needed
        if tol < 1e-7:
            ctx.skip("tolerance not reached")
        raise
    nu = m.nu
    if c["mode"] == "d0ap" and not np.isfinite(nu):
        ctx.skip("exponent is a poor approximation")
    require(np.isfinite(nu), "nu=%r" % nu)
    ref = math.acos(y)/math.pi
    err = abs(nu - ref)
    if c["mode"] in ("det", "default"):
        require(err <= tol + 1e-8, "nu=%r, exact %.10g" % (nu, ref))
        eps = tol
    else:
        # (the accuracy of these exponents is checked separately)
        eps = err + 1e-9
        if eps > 5e-3:
            ctx.skip("exponent is a poor approximation")
    eps = 400*(eps + 1e-11)
    t = np.array(c["t"])
    if c["form"] == 0:
        def sol(f, d=None):
            return np.array([f(i) if d is None else f(i, d) for i in t])
    elif c["form"] == 1:
        def sol(f, d=None):
            return f(t) if d is None else f(t, deri=d)
    else:
        def sol(f, d=None):
            return f(list(t), 0 if d is None else d)
    # initial values
    for f, w in ((m.sol_y1, (1., 0.)), (m.sol_y2, (0., 1.))):
        check_close([f(0.), f(0., 1)], np.array(w), atol=1e-10,
                    what="initial values")
    Y = [[np.asarray(sol(f, d)) for d in range(10)]
         for f in (m.sol_y1, m.sol_y2)]
    P = a - 2*q*np.cos(2*t)
    Z = []
    for f, ys, name in ((m.sol_y1, Y[0], "y1"), (m.sol_y2, Y[1], "y2")):
        check_close(sol(f), ys[0], atol=1e-12*np.abs(ys[0]).max(),
                    what="default derivative of " + name)
        grid = np.linspace(0, math.pi, 7)
        s = max(np.abs(ys[0]).max(), np.abs(f(grid)).max())
        s = max(s, np.abs(ys[1]).max(), np.abs(f(grid, 1)).max())
        Z.append(s)
        # derivative orders
        h = 1e-3
        for d in range(9):
            fd = (-f(t + 2*h, d) + 8*f(t + h, d) - 8*f(t - h, d)
                  + f(t - 2*h, d))/(12*h)
            check_close(ys[d + 1], fd, atol=1e-8*s*(6 + math.sqrt(a))**(d + 1),
                        what="derivative %d of %s" % (d + 1, name))
        res = ys[2] + P*ys[0]
        check_close(res, 0*res, atol=eps*s,
                    what="%s does not solve the equation: residual" % name)
    # Wronskian
    W = Y[0][0]*Y[1][1] - Y[0][1]*Y[1][0]
    check_close(W, 1 + 0*W, atol=2*eps*Z[0]*Z[1], what="Wronskian")
    # Floquet shift
    pi = math.pi
    G = np.array([[m.sol_y1(pi), m.sol_y2(pi)],
                  [m.sol_y1(pi, 1), m.sol_y2(pi, 1)]])
    check_close(G, mono, atol=2*eps*Z[0]*Z[1], what="solutions at t=pi")
    check_close(G[0, 0], math.cos(pi*nu), atol=1e-9*Z[0], what="cos(pi nu)")
    for k, (f, s) in enumerate(zip((m.sol_y1, m.sol_y2), Z)):
        for d in (0, 1):
            got = f(t + pi, d)
            want = G[0, k]*Y[0][d] + G[1, k]*Y[1][d]
            check_close(got, want, atol=4*eps*Z[0]*Z[1]*max(Z),
                        what="Floquet shift of y%d, derivative %d" % (
                            k + 1, d))
    # initial values at any time
    y0, t0 = c["y0"], c["t0"]
    arg = [tuple(y0), list(y0), np.array(y0)][c["form"]]
    if t0 == 0 and c["form"] == 0:
        AB = m.init_value(arg)
    else:
        AB = m.init_value(arg, t0)
    AB = np.asarray(AB, float)
    require(AB.shape == (2,), "coefficients %s" % (AB,))
    for d in (0, 1):
        v = AB[0]*m.sol_y1(t0, d) + AB[1]*m.sol_y2(t0, d)
        check_close(v, y0[d], atol=1e-8*(1 + np.abs(AB).max())*max(Z),
                    what="value %d at the start time" % d)
    check_equal(list(arg), list(y0), "initial values modified")
    # by default starts at zero with unit speed
    u = [np.asarray(m.init_value(), float)]
    if t0:
        u.append(np.asarray(m.init_value(t0=t0), float))
    for AB, start in zip(u, (0., t0)):
        for d in (0, 1):
            v = AB[0]*m.sol_y1(start, d) + AB[1]*m.sol_y2(start, d)
            check_close(v, d, atol=1e-8*(1 + np.abs(AB).max())*max(Z),
                        what="value %d at the start, default" % d)
    ctx.label(c["mode"], "nc" if c["nc"] else "default nc",
              "t0" if t0 else "t0=0")
    ctx.nontrivial(len(set(c["t"])) > 1)


@st.composite
def _uninit(draw):
    return dict(t=draw(g.num(-5, 5, 2)), d=draw(st.integers(0, 4)),
                which=draw(st.integers(0, 2)), y0=draw(g.vec(-3, 3, 2, 2)),
                mode=draw(st.sampled_from(["", "foo", "DET", "bla"])))


def check_uninit(c, ctx):
    from electrode.mathieu import Mathieu
    m = Mathieu()
    if c["which"] == 0:
        raises(lambda: m.sol_y1(c["t"], c["d"]), Exception)
    elif c["which"] == 1:
        raises(lambda: m.sol_y2(c["t"], c["d"]), Exception)
    else:
        raises(lambda: m.init_value(c["y0"], c["t"] or 1.), Exception)
    raises(lambda: m.init_sol(.1, .3, mode=c["mode"]), Exception)
    ctx.nontrivial()


SUBS = [
    Sub("solutions", _case, check_case, 900, 30000,
        "stable, compared at different times", shards=6),
    Sub("uninitialised", _uninit, check_uninit, 60, 500, "every case"),
]
