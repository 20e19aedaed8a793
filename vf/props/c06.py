"""C06 superposition"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require, finite


@st.composite
def _case(draw):
    spec = draw(g.system_spec(1, 5))
    n = len(spec)
    x = draw(g.points3(1, 5))
    u = draw(g.unit())
    spec, x = [g.rescale(e, u) for e in spec], (np.array(x)*u).tolist()
    c = dict(spec=spec, x=x, d=draw(st.integers(0, 5)),
             typ=draw(st.sampled_from(["dc", "rf"])),
             v2=draw(st.lists(g.volt(), min_size=n, max_size=n)),
             a=draw(g.num(-3, 3, 2)), b=draw(g.num(-3, 3, 2)),
             perm=draw(st.permutations(list(range(n)))),
             t=draw(st.one_of(g.num(-7, 7, 2), g.num(-7, 7, 2),
                                  g.num(-1e5, 1e5, 1))), form=draw(st.integers(0, 5)),
             cut=draw(st.integers(0, 4)), dup=draw(st.integers(0, 4)))
    if draw(st.integers(0, 3)) == 0:
        # only one kind of voltage
        for e in spec:
            e[draw(st.sampled_from(["dc", "rf"]))] = 0.
    return c


def check_case(c, ctx):
    import electrode
    spec, d, typ = c["spec"], c["d"], c["typ"]
    s = g.build_system(spec)
    if c["dup"] == 0:
        # one electrode object listed twice
        s.append(s[0])
        spec = spec + spec[:1]
        c["v2"] = c["v2"] + c["v2"][:1]
        c["perm"] = c["perm"] + [len(spec) - 1]
    x0 = np.array(c["x"], float)
    n = len(x0)
    # any array_like
    x = [x0, x0.tolist(), x0[0] if n == 1 else np.asfortranarray(x0),
         x0.reshape(-1), tuple(map(tuple, c["x"])),
         np.concatenate([x0, x0])[::-1][:n][::-1]][c["form"]]
    if c["form"] == 5:
        x = np.concatenate([x0, x0])[:n]
    unit, tol = [], []
    for e in spec:
        w, t = g.reference_tolerance(e, x0, d)
        unit.append(w)
        tol.append(t)
    finite(unit, "reference")
    keep = np.array(x, copy=True)
    # unit contributions, whatever the voltages are
    ind = s.individual_potential(x, d)
    require(ind.shape == (len(s), n, 2*d + 1), "shape %s" % (ind.shape,))
    for i in range(len(s)):
        check_close(ind[i], unit[i], atol=tol[i],
                    what="contribution of electrode %d, order %d" % (i, d))
    V = [dict(dc=[e["dc"] for e in spec], rf=[e["rf"] for e in spec])]
    want, at = {}, {}
    for k in ("dc", "rf"):
        want[k] = sum(e[k]*u for e, u in zip(spec, unit))
        at[k] = sum(abs(e[k])*t for e, t in zip(spec, tol)) + 1e-300
        got = s.electrical_potential(x, d, k)
        check_close(got, want[k], atol=at[k], what="%s order %d" % (k, d))
    check_close(s.electrical_potential(x, d), want["dc"], atol=at["dc"],
                what="default kind")
    got = s.electrical_potential(x, d, typ)
    # expanded
    ex = s.electrical_potential(x, d, typ, expand=True)
    check_close(ex, o.expand_reference(got, d), rtol=1e-13, atol=1e-300,
                what="expanded")
    # instantaneous
    ct = np.cos(c["t"])
    tt = at["dc"] + at["rf"]
    check_close(s.time_potential(x, d, c["t"]), want["dc"] + ct*want["rf"],
                atol=tt, what="time potential")
    check_close(s.time_potential(x, d), want["dc"] + want["rf"], atol=tt,
                what="time potential at t=0")
    check_close(s.time_potential(x, d, t=c["t"], expand=True),
                o.expand_reference(np.asarray(
                    want["dc"] + ct*want["rf"], float), d),
                atol=3*tt.max(), what="expanded time potential")
    # batches
    k = c["cut"] % (n + 1)
    parts = [s.electrical_potential(p, d, typ)
             for p in (x0[:k], x0[k:]) if len(p)]
    check_close(np.concatenate(parts), got, atol=at[typ]*1e-2, what="batches")
    # order
    p = s.__class__([s[i] for i in c["perm"]])
    check_close(p.electrical_potential(x, d, typ), got, atol=at[typ],
                what="order of electrodes")
    # linear in voltages
    if c["dup"] != 0:
        v1 = np.array([e[typ] for e in spec])
        v2 = np.array(c["v2"])
        v = c["a"]*v1 + c["b"]*v2
        if typ == "dc":
            s.dcs = v
        else:
            s.rfs = v
        w = sum(vi*u for vi, u in zip(v, unit))
        t = sum((abs(c["a"]*i) + abs(c["b"]*j))*q for i, j, q in zip(
            v1, v2, tol)) + 1e-300
        check_close(s.electrical_potential(x, d, typ), w, atol=t,
                    what="linearity")
    require(np.array_equal(np.asarray(x), keep), "x modified")
    ctx.label("order%d" % d, *set(e["kind"] for e in spec))
    if np.abs(x0).max() < 1e-2 or np.abs(x0).max() > 1e2:
        ctx.label("other unit")
    ctx.nontrivial(len(spec) > 1 and bool(
        np.abs(got).max() > np.max(at[typ])))


@st.composite
def _empty(draw):
    return dict(x=draw(g.points3(0, 4)), d=draw(st.integers(0, 5)),
                spec=draw(g.system_spec(0, 2)), t=draw(g.num(-4, 4)))


def check_empty(c, ctx):
    """no electrodes, no voltages, no points: zero potential of the right
    shape"""
    s = g.build_system(c["spec"])
    d = c["d"]
    x = np.array(c["x"], float).reshape(-1, 3)
    s.dcs = s.rfs = np.zeros(len(s))
    for typ in "dc", "rf":
        check_equal(s.electrical_potential(x, d, typ),
                    np.zeros((len(x), 2*d + 1)), "grounded system")
        r = s.electrical_potential(x, d, typ, expand=True)
        check_equal(r, np.zeros((len(x),) + (3,)*d), "grounded, expanded")
    check_equal(s.time_potential(x, d, c["t"]),
                np.zeros((len(x), 2*d + 1)), "grounded, time")
    require(s.individual_potential(x, d).shape == (len(s), len(x), 2*d + 1),
            "shape")
    ctx.nontrivial(len(s) > 0)


@st.composite
def _many(draw):
    spec = draw(g.system_spec(1, 2))
    for e in spec:
        if "cover" in e:
            e["cover"][1] = min(1, e["cover"][1])
    return dict(spec=spec, d=draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5])),
                n=draw(st.sampled_from([100, 256, 257, 512, 1000, 1024, 1025,
                                        2048, 4096, 5000, 7, 64, 65, 128])),
                seed=draw(st.integers(0, 10**6)), t=draw(g.num(-4, 4)),
                cut=draw(st.floats(0, 1)))


def check_many(c, ctx):
    """many points at once or one after the other"""
    s = g.build_system(c["spec"])
    n, d = c["n"], c["d"]
    if d > 1:
        n = min(n, 1025)
    rs = np.random.RandomState(c["seed"])
    x = np.c_[rs.uniform(-4, 4, (n, 2)), rs.uniform(.2, 4, n)]
    k = sorted(set([0, 1, n - 1, n//2, int(c["cut"]*(n - 1))]
                   + rs.randint(0, n, 12).tolist()
                   + [i - 1 for i in (64, 128, 256, 512, 1024, 2048, 4096)
                      if i <= n]))
    for typ in ("dc", "rf"):
        one = np.array([s.electrical_potential(x[i], d, typ)[0] for i in k])
        tol = 1e-9*np.abs(one).max(0) + 1e-300
        got = s.electrical_potential(x, d, typ)
        require(got.shape == (n, 2*d + 1), "shape")
        check_close(got[k], one, atol=tol, what="%s potential of one of %d "
                    "points" % (typ, n))
        j = int(c["cut"]*n)
        if 0 < j < n:
            check_close(np.concatenate([s.electrical_potential(
                y, d, typ) for y in (x[:j], x[j:])]), got,
                atol=1e-9*np.abs(got).max(0) + 1e-300, what="batches")
    ind = s.individual_potential(x, d)
    for i in k:
        w = s.individual_potential(x[i], d)[:, 0]
        check_close(ind[:, i], w, atol=1e-9*np.abs(ind).max() + 1e-300,
                    what="contributions at one of %d points" % n)
    w = np.array([s.time_potential(x[i], d, c["t"])[0] for i in k])
    check_close(s.time_potential(x, d, c["t"])[k], w,
                atol=1e-9*(np.abs(w).max() + np.abs(got).max()) + 1e-300,
                what="instantaneous potential at one of %d points" % n)
    ctx.label("%d points" % n)
    ctx.nontrivial(n > 200)


SUBS = [
    Sub("many", _many, check_many, 42, 1500, "more than 200 points",
        shards=3),
    Sub("superposition", _case, check_case, 640, 25000,
        "at least two electrodes and a potential above the tolerance", shards=7),
    Sub("grounded", _empty, check_empty, 200, 4000,
        "a system with electrodes", shards=1),
]
