"""C19 potential objectives"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import patterns as p
from ..core import Sub, check_close, check_equal, require


@st.composite
def _quantity(draw):
    r = draw(st.one_of(st.none(), g.orthonormal()))
    x = draw(g.points3(1, 1))[0]
    return dict(x=x, d=draw(p.derivative(0, 5)), rot=r)


@st.composite
def _part(draw, depth=0):
    w = draw(st.one_of(st.none(), st.just(0), g.nonzero(.1, 3, 1),
                       g.nonzero(.1, 3, 1)))
    if depth < 2 and draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(0, 3))
        return [w, dict(parts=[draw(_part(depth + 1)) for _ in range(n)])]
    return [w, draw(_quantity())]


def limit():
    return st.one_of(st.none(), st.none(), st.sampled_from([0, 0., -1, 2]),
                     g.num(-3, 3, 1))


@st.composite
def _case(draw):
    multi = draw(st.integers(0, 2)) == 0
    if multi:
        n = draw(st.integers(1, 4))
        q = dict(parts=[draw(_part()) for _ in range(n)])
    else:
        q = draw(_quantity())
    return dict(spec=draw(g.system_spec(1, 4)), q=q,
                kw=dict((k, draw(limit())) for k in
                        ("value", "offset", "min", "max")),
                omit=draw(st.booleans()), form=draw(st.integers(0, 1)),
                p=draw(st.lists(g.num(-2, 2, 1), min_size=4, max_size=4)))


def build(q, form, **kw):
    import electrode.pattern_constraints as pc
    if "parts" in q:
        return pc.MultiPotentialObjective(
            [build(k, form, value=w) for w, k in q["parts"]], **kw)
    rot = q["rot"]
    if form and rot is not None:
        rot = np.array(rot)
    x = np.array(q["x"]) if form else q["x"]
    return pc.PotentialObjective(x, q["d"], rotation=rot, **kw)


def reference(q, spec):
    if "parts" in q:
        r, t = np.zeros(len(spec)), np.zeros(len(spec))
        for w, k in q["parts"]:
            if w:
                a, b = reference(k, spec)
                r, t = r + w*a, t + abs(w)*b
        return r, t
    return p.row(spec, q["x"], q["d"], q["rot"])


def walk(q):
    if "parts" in q:
        return [j for w, k in q["parts"] if w for j in walk(k)]
    return [q]


def check_case(c, ctx):
    import cvxopt.modeling as cm
    s = g.build_system(c["spec"])
    dcs, rfs = np.array(s.dcs), np.array(s.rfs)
    q = c["q"]
    kw = c["kw"]
    if c["omit"]:
        kw = dict((k, v) for k, v in kw.items() if v is not None)
    ob = build(q, c["form"], **kw)
    want, tol = reference(q, c["spec"])
    v = cm.variable(len(s))
    if "parts" in q and not any(w is not None for w, _ in q["parts"]):
        ctx.skip("combination of nothing")
    got = np.asarray(ob.get(s, v))
    if got.ndim == 0:
        got = got*np.ones(len(s))
    check_close(got, want, atol=tol, what="coefficients")
    # objective
    tgt = list(ob.objective(s, v))
    if kw.get("value") is None:
        require(not tgt, "objective without a value: %s" % (tgt,))
    else:
        require(len(tgt) == 1, "%d objectives" % len(tgt))
        co, val = tgt[0]
        check_close(np.asarray(co)*np.ones(len(s)), want, atol=tol,
                    what="objective coefficients")
        require(float(val) == float(kw["value"]), "objective value %r" % val)
    check_equal([np.array(s.dcs).tolist(), np.array(s.rfs).tolist()],
                [dcs.tolist(), rfs.tolist()], "voltages changed")
    # constraints: satisfied exactly where they should be
    # (from here on in terms of the coefficients found, which agree to within
    # the accuracy of the reference)
    want = np.asarray(got, float)*np.ones(len(s))
    n2 = want @ want
    if n2 < 1e-8 or n2 > 1e10:
        ctx.label("too small to constrain")
        return
    if any(kw.get(k) is not None for k in ("offset", "min", "max")):
        ctx.label("constrained")
    cons = list(ob.constraints(s, v))
    eps = 1e-4
    levels = [0., 7.77, -7.77]
    for k in ("offset", "min", "max"):
        if kw.get(k) is not None:
            levels += [kw[k], kw[k] + eps, kw[k] - eps]
    p0 = np.array(c["p"][:len(s)])
    p0 = p0 - want*(want @ p0)/n2
    lim = dict((k, kw.get(k)) for k in ("offset", "min", "max"))
    import cvxopt
    for lev in levels:
        v.value = cvxopt.matrix(p0 + want*lev/n2)
        ok = True
        for k in cons:
            f = np.array(cvxopt.matrix(k._f.value())).ravel() \
                if not hasattr(k, "value") or k.value() is None else \
                np.array(k.value()).ravel()
            if k.type() == "=":
                ok = ok and np.abs(f).max() < eps/4
            else:
                ok = ok and f.max() < eps/4
        w = ((lim["offset"] is None or abs(lev - lim["offset"]) < eps/2)
             and (lim["min"] is None or lev >= lim["min"] - eps/2)
             and (lim["max"] is None or lev <= lim["max"] + eps/2))
        require(ok == w, "value %r with limits %s: %s" % (
            lev, lim, "admitted" if ok else "rejected"))
    qs = walk(q)
    for k in qs:
        ctx.label("order %d" % len(k["d"]))
    ctx.label("combined" if "parts" in q else "single")
    ctx.nontrivial(any(len(k["d"]) > 0 and k["rot"] is not None for k in qs))


SUBS = [Sub("objectives", _case, check_case, 900, 30000,
            "a derivative in a rotated frame", shards=8)]
