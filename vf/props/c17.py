"""C17 shim vectors"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import patterns as P
from ..core import Sub, check_close, check_equal, require, raises


@st.composite
def _case(draw):
    spec = draw(P.pixels(5, 12))
    n = len(spec)
    k = draw(st.integers(0, min(5, n - 2)))
    m = draw(st.integers(0 if k else 1, min(2, n - 1 - k)))
    qs = [draw(P.quantity()) for _ in range(k)]
    if k > 1 and draw(st.booleans()):
        # several derivatives at one point and frame
        for q in qs:
            q["x"] = qs[0]["x"]
            q["rot"] = qs[0]["rot"]
    return dict(spec=spec, qs=qs,
                extra=[draw(P.quantity_or_combination()) for _ in range(m)],
                values=draw(st.lists(st.one_of(
                    st.sampled_from([None, 0, 0., 1]), g.num(-3, 3, 1)),
                    min_size=m, max_size=m)),
                range=draw(st.sampled_from([None, None, [-1, 1], [-2, 2],
                                            [-1, 3], [-3., 1.]])),
                limits=draw(st.sampled_from(["all", "all", "each", "none",
                                             "split"])),
                form=draw(st.integers(0, 2)))


def check_case(c, ctx):
    import electrode.pattern_constraints as pc
    s = g.build_system(c["spec"])
    n = len(s)
    B = P.combined(c["spec"], c["qs"] + c["extra"])
    if not P.independent(B):
        ctx.skip("quantities not independent")
    f = [list, tuple, np.array][c["form"]]
    xcd = [(f(q["x"]), None if q["rot"] is None else np.array(q["rot"])
            if c["form"] else q["rot"], q["d"]) for q in c["qs"]]
    obs = [P.build(q, value=v) for q, v in zip(c["extra"], c["values"])]
    obl = list(obs)
    kw = {}
    if obs or c["form"] == 1:
        kw["objectives"] = obl
    rg = [-1., 1.]
    if c["range"]:
        rg = c["range"]
        cons = [pc.PatternRangeConstraint(min=rg[0], max=rg[1])]
        if c["limits"] == "each":
            cons = [pc.PatternRangeConstraint(index=i, min=rg[0], max=rg[1])
                    for i in range(n)]
        elif c["limits"] == "split":
            cons = [pc.PatternRangeConstraint(max=rg[1]),
                    pc.PatternRangeConstraint(min=rg[0])]
        elif c["limits"] == "none":
            # nothing bounds the patterns
            cons = []
        ncons = list(cons)
        kw["constraints"] = cons
        if not cons:
            ctx.label("no constraints")
            # an unbounded problem has no solution, however it fails
            raises(lambda: s.shims(list(xcd), **kw), Exception)
            require(not cons, "list of constraints changed")
            for o, w in zip(obs, c["values"]):
                require(o.value == w and (o.value is None) == (w is None),
                        "value of an objective changed from %r to %r" % (
                            w, o.value))
            ctx.nontrivial(len(B) > 1)
            return
    try:
        v = s.shims(list(xcd), **kw)
    except ValueError as err:
        if "unknown" in str(err):
            ctx.skip("solver did not converge")
        raise
    v = np.asarray(v)
    require(v.shape == (len(B), n), "shape %s" % (v.shape,))
    # unit response
    nb = np.sqrt((B*B).sum(1))
    vm = np.abs(v).max(1)
    got = B @ v.T
    check_close(got, np.eye(len(B)), atol=2e-7 + 1e-6*nb[:, None]*vm[None],
                what="response of the quantities (rows) to the vectors")
    # given objectives
    require(len(obl) == len(obs) and all(a is b for a, b in zip(obl, obs)),
            "list of objectives changed")
    if c["range"]:
        require(len(cons) == len(ncons), "list of constraints changed")
    for o, w in zip(obs, c["values"]):
        require(o.value == w and (o.value is None) == (w is None),
                "value of an objective changed from %r to %r" % (w, o.value))
    # largest effect for the range
    from .c16 import lp
    w = 1/nb
    best = []
    for i in range(len(B)):
        e = np.zeros(len(B))
        e[i] = w[i]
        r = lp(B*w[:, None], e, [rg[0]]*n, [rg[1]]*n, np.zeros((0, n)), [],
               np.zeros((0, n)), [])
        if r.status != 0:
            ctx.skip("reference solver: status %d" % r.status)
        best.append(r.x[-1])
    for i, k in enumerate(best):
        # pattern p = c v is within the range for c up to
        with np.errstate(divide="ignore"):
            lim = np.where(v[i] > 0, rg[1]/v[i], rg[0]/v[i])
        k1 = lim[v[i] != 0].min()
        require(k1 >= k*(1 - 3e-5), "vector %d: within the range its largest "
                "effect is %r, %r is possible" % (i, k1, k))
    ctx.label("%d shims" % len(B), "%d objectives" % len(obs))
    ctx.nontrivial(len(B) > 1)


SUBS = [Sub("shims", _case, check_case, 320, 8000,
            "at least two quantities", shards=8)]
