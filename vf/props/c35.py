"""C35 ion trajectories"""
import itertools
import math
import types

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import harm
from .. import traps
from ..core import Sub, check_close, check_equal, require

AXES = [[0, 1, 2], [0, 1, 2], [0, 1], [1, 2], [0, 2], [2, 0], [2, 1, 0],
        [1, 0, 2], [2, 0, 1], [0], [1], [2]]
POS = st.tuples(g.num(-3, 3, 2), g.num(-3, 3, 2), g.num(.3, 3, 2)).map(list)


def start(v, how):
    if how == "list":
        return list(v)
    if how == "tuple":
        return tuple(v)
    if how == "int":
        return [int(round(x)) or 1 for x in v]
    return np.array(v)


# ----------------------------------------------------------- given forces

@st.composite
def _force(draw):
    kinds = draw(st.sampled_from([("poly", "point", "harm", "cover"),
                                  ("harm",), ("poly",)]))
    n = draw(st.integers(1, 6))
    return dict(spec=draw(g.system_spec(1, 3, kinds)),
                axis=draw(st.sampled_from(AXES)), x0=draw(POS),
                v0=draw(g.vec(-2, 2, 3, 2)), form=draw(st.sampled_from(
                    ["list", "tuple", "array", "int"])),
                t0=draw(st.sampled_from([None, 0., 0., 1., 2.5, -3.])),
                dt=draw(st.sampled_from([None, .25, .5, .125, .1, 1.])),
                n=n, off=draw(st.sampled_from([0., -.5, -.99])),
                nsteps=draw(st.sampled_from([None, 1, 3, 7])),
                extra=draw(st.booleans()),
                named=draw(st.sampled_from([None, None, None, "", "gni_irk2",
                                            "gni_lmm2"])),
                methc=draw(st.sampled_from([None, None, 2, 4, 6, "x"])),
                tup=draw(st.booleans()),
                visits=draw(st.lists(st.tuples(g.num(-9, 9, 2), POS), min_size=1,
                                     max_size=3)),
                moves=draw(st.lists(g.vec(-1, 1, 6, 2), min_size=n + 1,
                                    max_size=n + 1)),
                volts=draw(st.booleans()), close=draw(st.booleans()))


def reference_force(spec, x, t, scale=None):
    """-gradient of the potential at time t, tolerance"""
    f, tol = np.zeros(3), 0.
    x = np.array([x], float)
    for e in spec:
        w, a = g.reference_tolerance(e, x, 1)
        u = e["dc"] + math.cos(t)*e["rf"]
        f -= w[0].astype(float)*u
        tol += np.max(a)*(abs(e["dc"]) + abs(e["rf"]))
    return f, tol + 1e-13*np.abs(f).max()


def check_force(c, ctx):
    spec = [dict(e) for e in c["spec"]]
    s = g.build_system(spec)
    axis = c["axis"]
    x0, v0 = start(c["x0"], c["form"]), start(c["v0"], c["form"])
    X, V = np.array(x0, float), np.array(v0, float)
    if X[2] <= 0:
        ctx.skip("in the electrode plane")
    cp = np.array(x0), np.array(v0)
    t0 = 0. if c["t0"] is None else c["t0"]
    dt = .0063*2*np.pi if c["dt"] is None else c["dt"]
    # the final time is reached after n steps
    t1 = t0 + (c["n"] + c["off"])*dt
    nsteps = 1 if c["nsteps"] is None else c["nsteps"]
    nt = math.ceil((t1 - t0)/dt - 1e-9)
    kw = dict(t1=t1)
    if c["t0"] is not None:
        kw["t0"] = c["t0"]
    if c["dt"] is not None:
        kw["dt"] = c["dt"]
    if c["nsteps"] is not None:
        kw["nsteps"] = c["nsteps"]
    if axis != [0, 1, 2] or c["tup"]:
        kw["axis"] = tuple(axis) if c["tup"] else list(axis)
    ax0 = list(axis)
    if c["extra"]:
        kw["tolerance"] = "given"
    calls, state = [], dict(q=X[axis].copy(), p=V[axis].copy())
    checked = [0]

    def integ(ddx, ns, t, p, q, t2, *args, **kwargs):
        if c["named"] is not None:
            require(args == (2 if c["methc"] is None else c["methc"],),
                    "method %s" % (args,))
            args = ()
        require(ns == nsteps, "nsteps %s" % ns)
        require(kwargs == (dict(tolerance="given") if c["extra"] else {})
                and not args, "extra arguments %s %s" % (args, kwargs))
        check_close(t2 - t, dt, rtol=1e-9, atol=1e-12, what="time step")
        i = len(calls)
        check_close(t, t0 + i*dt, rtol=1e-12, atol=1e-11, what="time")
        check_equal(np.array(q), state["q"], "position passed on")
        check_equal(np.array(p), state["p"], "velocity passed on")
        require(q.dtype == float and p.dtype == float and
                q.shape == p.shape == (len(axis),), "state arrays")
        for ph, pos in c["visits"] + [[t, X + .25*i]]:
            y = np.array(X)
            y[axis] = np.array(pos)[axis]
            b = np.full(2*len(axis), np.nan)
            f = b[::2] if i % 2 else b[:len(axis)]
            z = y[axis].copy()
            ddx(t + ph, z, f)
            check_equal(z, y[axis], "position modified by the force")
            w, tol = reference_force(spec, y, t + ph)
            if tol > 1e-3*(np.abs(w).max() + 1e-3):
                ctx.label("inaccurate reference")
                continue
            check_close(f, w[axis], atol=tol, what="force at %s" % y)
            checked[0] += 1
        m = np.array(c["moves"][min(i, len(c["moves"]) - 1)])
        q += m[:3][axis]
        p += m[3:][axis]
        state["q"], state["p"] = np.array(q), np.array(p)
        calls.append(t)

    def drive(gen):
        out = []
        for i, (t, x, v) in enumerate(gen):
            require(i < 100, "does not stop")
            require(len(calls) == i + 1, "one integration per step")
            check_close(t, t0 + (i + 1)*dt, rtol=1e-12, atol=1e-11,
                        what="reported time")
            check_equal(x, state["q"], "reported position")
            check_equal(v, state["p"], "reported velocity")
            out.append((x, x.copy(), v, v.copy()))
            if i % 2:
                # the caller may do what it wants with them
                x += 100.
                v -= 100.
                out[-1] = (x, x.copy(), v, v.copy())
            if c["volts"] and i == 0:
                # voltages are those of the moment
                s[0].dc = spec[0]["dc"] = spec[0]["dc"] + 1.5
            if c["close"] and i == 2:
                gen.close()
        if not c["close"]:
            # steps that are no binary fractions accumulate rounding errors
            exact = c["off"] < 0 or c["dt"] in (.25, .5, .125, 1.)
            require(len(out) == nt or not exact and len(out) == nt + 1,
                    "%i steps until %s, not %i" % (len(out), t1, nt))
        for x, xc, v, vc in out:
            check_equal(x, xc, "reported position changed later")
            check_equal(v, vc, "reported velocity changed later")
        for a, b in itertools.combinations(out, 2):
            require(not np.shares_memory(a[0], b[0])
                    and not np.shares_memory(a[2], b[2]), "shared arrays")
        check_equal(np.array(x0), cp[0], "start position modified")
        check_equal(np.array(v0), cp[1], "start velocity modified")
        require(list(axis) == ax0, "axes modified")
        ctx.label("%i axes" % len(axis), "%i steps" % min(3, len(out)))
        ctx.nontrivial(checked[0] > 1)

    if c["named"] is None:
        return drive(s.trajectory(x0, v0, integ=integ, **kw))
    # integrators of the (missing) package, by name
    import electrode.system as es
    if not hasattr(es, "gni"):
        ctx.skip("no named integrators")

    def other(*args, **kwargs):
        require(False, "another integrator")
    use = c["named"] or "gni_irk2"
    names = dict((k, other) for k in ("gni_irk2", "gni_lmm2"))
    names[use] = integ
    if c["named"]:
        kw["integ"] = c["named"]
    if c["methc"] is not None:
        kw["methc"] = c["methc"]
    old, es.gni = es.gni, types.SimpleNamespace(**names)
    ctx.label("named integrator")
    try:
        drive(s.trajectory(x0, v0, **kw))
    finally:
        es.gni = old


# ----------------------------------------------------------------- motion

@st.composite
def _motion(draw):
    return dict(axis=draw(st.sampled_from(AXES)),
                terms=[draw(st.lists(st.tuples(
                    st.integers(1, 3), st.integers(-3, 3),
                    g.num(-1, 1, 2)), min_size=1, max_size=4))
                    for _ in range(2)],
                x0=draw(g.vec(-.5, .5, 3, 2)), v0=draw(g.vec(-.5, .5, 3, 2)),
                rf=draw(st.sampled_from([0., 0., .5, 1.])),
                dc=draw(g.num(-1, 1, 2)), t0=draw(g.num(0, 6, 2)),
                k=draw(g.num(.2, 1, 2)))


def rk4(ddx, nsteps, t, p, q, t1):
    h = (t1 - t)/nsteps
    f = np.empty_like(q)

    def acc(t, q):
        ddx(t, q, f)
        return f.copy()
    for _ in range(nsteps):
        a1 = acc(t, q)
        q2, p2 = q + h/2*p, p + h/2*a1
        a2 = acc(t + h/2, q2)
        q3, p3 = q + h/2*p2, p + h/2*a2
        a3 = acc(t + h/2, q3)
        q4, p4 = q + h*p3, p + h*a3
        a4 = acc(t + h, q4)
        q += h/6*(p + 2*p2 + 2*p3 + p4)
        p += h/6*(a1 + 2*a2 + 2*a3 + a4)
        t += h


def check_motion(c, ctx):
    import electrode
    from scipy.integrate import solve_ivp
    terms = [[[l, max(-l, min(l, m)), x] for l, m, x in t]
             for t in c["terms"]]
    k = c["k"]
    # confinement by charges is impossible: short times only
    H = harm.Harmonic
    s = electrode.System([H(terms[0], None, name="a", dc=c["dc"]),
                          H(terms[1], None, name="b", dc=k, rf=c["rf"])])
    axis = c["axis"]
    X, V = np.array(c["x0"]), np.array(c["v0"])

    def potential(y, t, d):
        a = harm.evaluate(terms[0], None, [y], d)[0][0]
        b = harm.evaluate(terms[1], None, [y], d)[0][0]
        return np.asarray(a*c["dc"] + b*(k + math.cos(t)*c["rf"]), float)

    def rhs(t, u):
        y = X.copy()
        y[axis] = u[:len(axis)]
        return np.r_[u[len(axis):], -potential(y, t, 1)[axis]]
    T, n = .6, 6
    dt = T/n
    ref = solve_ivp(rhs, (c["t0"], c["t0"] + T + 1e-9), np.r_[
        X[axis], V[axis]], rtol=1e-10, atol=1e-12,
        t_eval=c["t0"] + dt*np.arange(1, n + 1))
    if ref.status != 0 or np.abs(ref.y).max() > 20:
        ctx.skip("escapes")

    def energy(x, v, t):
        y = X.copy()
        y[axis] = x
        return (v*v).sum()/2 + float(np.ravel(potential(y, t, 0))[0])
    got = list(s.trajectory(c["x0"], c["v0"], axis=axis, t0=c["t0"], dt=dt,
                            t1=c["t0"] + T - dt/2, nsteps=6, integ=rk4))
    require(len(got) == n, "%i steps" % len(got))
    size = np.abs(ref.y).max() + 1
    for i, (t, x, v) in enumerate(got):
        check_close(x, ref.y[:len(axis), i], atol=2e-4*size**2,
                    what="position")
        check_close(v, ref.y[len(axis):, i], atol=5e-4*size**2,
                    what="velocity")
    if c["rf"] == 0:
        e0 = energy(X[axis], V[axis], 0.)
        for t, x, v in got:
            check_close(energy(x, v, 0.), e0, atol=1e-3*size**3,
                        what="energy")
        ctx.label("static")
    ctx.nontrivial(np.abs(ref.y[:len(axis), -1] - X[axis]).max() > .05)


SUBS = [
    Sub("force", _force, check_force, 500, 12000,
        "two or more forces compared", shards=3),
    Sub("motion", _motion, check_motion, 150, 4000, "moves by .05"),
]
