"""C07 pseudopotential"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require, finite, raises


def pseudo_reference(full, order):
    """full[k]: (n, 3, ..., 3) derivative tensors of the rf potential, k up
    to order + 1.  Derivatives of sum_i (d_i phi)^2 by the Leibniz rule.
    Returns (tensor, magnitude)"""
    n = full[1].shape[0]
    out = np.zeros((n,) + (3,)*order)
    mag = np.zeros_like(out)
    for idx in itertools.product(range(3), repeat=order):
        for r in range(order + 1):
            for sub in itertools.combinations(range(order), r):
                a = tuple(idx[k] for k in sub)
                b = tuple(idx[k] for k in range(order) if k not in sub)
                for i in range(3):
                    t = (full[len(a) + 1][(slice(None), i) + a]
                         * full[len(b) + 1][(slice(None), i) + b])
                    out[(slice(None),) + idx] += t
                    mag[(slice(None),) + idx] += np.abs(t)
    return out, mag


@st.composite
def _case(draw):
    kinds = draw(st.sampled_from([("poly", "point", "harm", "cover"),
                                  ("harm",), ("poly",)]))
    spec = draw(g.system_spec(1, 3, kinds))
    x = draw(g.points3(1, 4))
    u = draw(g.unit())
    spec, x = [g.rescale(e, u) for e in spec], (np.array(x)*u).tolist()
    return dict(spec=spec, x=x,
                d=draw(st.integers(0, 4)),
                m=draw(g.num(1, 250, 1)), q=draw(st.integers(1, 3)),
                l=draw(g.num(.5, 300, 1)), o=draw(g.num(.1, 200, 1)),
                si=draw(st.integers(0, 3)),
                f=draw(g.nonzero(.1, 3, 2)), dc=draw(g.volt()),
                form=draw(st.integers(0, 2)), twice=draw(st.booleans()))


def check_case(c, ctx):
    spec, d = c["spec"], c["d"]
    s = g.build_system(spec)
    if c["si"] == 0:
        par = dict(m=c["m"]*1.66053906660e-27, q=c["q"]*1.602176634e-19,
                   l=c["l"]*1e-6, o=2*np.pi*c["o"]*1e6)
    else:
        par = dict(m=c["m"], q=float(c["q"]), l=c["l"], o=c["o"])
    if c["twice"]:
        s.rf_scale(3., 1., 2., 7.)
    k = s.rf_scale(**par)
    want = np.sqrt(par["q"]/par["m"])/(2*par["l"]*par["o"])
    check_close(k, want, rtol=1e-13, what="rf_scale")
    check_close(s.rf_coeff, want, rtol=1e-13, what="rf_coeff")
    x0 = np.array(c["x"], float)
    x = [x0, x0.tolist(), np.asfortranarray(x0)][c["form"]]
    # total rf potential derivatives
    red = [s.electrical_potential(x0, j, "rf") for j in range(d + 2)]
    full = [o.expand_reference(r, j) for j, r in enumerate(red)]
    ref, mag = pseudo_reference(full, d)
    ref, mag = ref*want**2, mag*want**2
    got = s.pseudo_potential(x, d)
    finite(got, "pseudopotential")
    tol = 1e-12*mag.reshape(len(x0), -1).max(1).reshape((-1,) + (1,)*d) \
        + 1e-300
    check_close(got, ref, atol=tol, what="pseudopotential order %d" % d)
    # totally symmetric
    for p in itertools.permutations(range(d)):
        check_close(got.transpose((0,) + tuple(1 + i for i in p)), got,
                    atol=tol, what="symmetry")
    if d == 0:
        require(np.all(got >= 0), "negative pseudopotential")
    # combination with the dc potential
    dc = o.expand_reference(s.electrical_potential(x0, d, "dc"), d)
    tt = tol + 1e-13*np.abs(dc).max()
    check_close(s.potential(x, d), dc + ref, atol=tt, what="total")
    check_close(s.potential(x, d, "tot"), dc + ref, atol=tt, what="total")
    check_close(s.potential(x, d, typ="rf"), ref, atol=tol, what="rf part")
    check_close(s.potential(x, d, typ="dc"), dc,
                atol=1e-13*np.abs(dc).max() + 1e-300, what="dc part")
    # dc voltages do not matter, rf voltages quadratically
    with s.with_voltages(dcs=c["dc"] + np.arange(len(s))):
        check_close(s.pseudo_potential(x, d), got, atol=tol*1e-3,
                    what="with other dc voltages")
    with s.with_voltages(rfs=c["f"]*s.rfs):
        check_close(s.pseudo_potential(x, d), got*c["f"]**2,
                    atol=tol*10*c["f"]**2, what="quadratic in rf")
    ctx.label("order%d" % d)
    ctx.nontrivial(bool(np.abs(ref).max() > 0))


@st.composite
def _fd(draw):
    return dict(spec=draw(g.system_spec(1, 3, ("harm",))),
                x=draw(g.vec(-1, 1)), d=draw(st.integers(1, 4)),
                k=draw(g.num(.2, 3, 2)))


def check_fd(c, ctx):
    """polynomial rf potential: derivatives of the pseudopotential along any
    line by differentiating a polynomial through samples of order 0"""
    s = g.build_system(c["spec"])
    s.rf_coeff = c["k"]
    x = np.array(c["x"])
    d = c["d"]
    got = s.pseudo_potential(x, d)[0]
    # phi degree <= 4 -> |grad|^2 degree <= 6 along a line
    t = np.cos(np.pi*np.arange(9)/8)
    worst = np.abs(s.pseudo_potential(np.zeros((1, 3)) + x + np.array(
        list(itertools.product([-1, 0, 1], repeat=3))), 0)).max()
    for u in np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1.], [.6, .8, 0],
                       [.48, -.6, .64], [-.2, .3, .9], [1, 1, 1],
                       [1, -1, 0], [0, .5, 1]]):
        y = s.pseudo_potential(x + t[:, None]*u, 0)
        p = np.polynomial.Polynomial.fit(t, y, 8, domain=[-1, 1])
        a = p.deriv(d)(0.)
        b = got
        for _ in range(d):
            b = b @ u
        check_close(b, a, atol=1e-9*max(worst, np.abs(y).max())*10**d
                    + 1e-300, what="order %d along %s" % (d, u))
    ctx.label("order%d" % d)
    ctx.nontrivial(worst > 0)


@st.composite
def _errors(draw):
    return dict(spec=draw(g.system_spec(0, 3)), x=draw(g.points3(1, 3)),
                d=draw(st.integers(0, 4)), bad=draw(st.integers(5, 8)),
                typ=draw(st.sampled_from(["total", "DC", "", "pseudo", "x",
                                          "ac", None, "rfdc"])))


def check_errors(c, ctx):
    s = g.build_system(c["spec"])
    x = np.array(c["x"])
    raises(lambda: s.pseudo_potential(x, c["d"]), AttributeError)
    raises(lambda: s.potential(x, c["d"]), AttributeError)
    s.rf_scale(2., 1., 1., 3.)
    raises(lambda: s.potential(x, c["d"], c["typ"]), ValueError)
    # order + 1 of the electrode kernels is at most 5: orders above 4 fail
    raises(lambda: s.pseudo_potential(x, c["bad"]), Exception)
    raises(lambda: s.potential(x, c["bad"]), Exception)
    ctx.nontrivial(len(s) > 0)


SUBS = [
    Sub("leibniz", _case, check_case, 900, 40000,
        "a non-zero pseudopotential", shards=6),
    Sub("lines", _fd, check_fd, 200, 8000,
        "a non-zero pseudopotential", shards=1),
    Sub("errors", _errors, check_errors, 200, 4000,
        "a system with electrodes", shards=1),
]
