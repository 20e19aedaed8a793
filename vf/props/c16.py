"""C16 pattern optimization"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import patterns as P
from ..core import Sub, check_close, check_equal, require, raises


@st.composite
def _case(draw):
    spec = draw(P.pixels(4, 10))
    n = len(spec)
    k = draw(st.integers(1, min(5, n - 1)))
    qs = [draw(P.quantity_or_combination()) for _ in range(k)]
    b = [draw(st.one_of(st.just(0), g.nonzero(.1, 3, 1))) for _ in range(k)]
    ne = draw(st.integers(0, max(0, min(2, n - k - 1))))
    extra = []
    for _ in range(ne):
        extra.append(dict(q=draw(P.quantity()), kind=draw(st.sampled_from(
            ["offset", "min", "max", "both", "equal"])), d=draw(g.num(.0, .3, 2)),
            zero=draw(st.integers(0, 3)) == 0))
    lo, hi = draw(st.sampled_from([[-1, 1], [-1, 1], [-2, .5], [-1., 3.],
                                   [0, 1], [0., 2], [-30, 50.]]))
    idx = draw(st.lists(st.tuples(
        st.integers(-n, n - 1), st.sampled_from(["fix", "min", "max", "both",
                                                 "none", "sign", "side"]),
        g.num(0, .5, 2)).map(list), max_size=3))
    return dict(spec=spec, qs=qs, b=b, extra=extra, range=[lo, hi], idx=idx,
                perm=draw(st.permutations(list(range(k + ne + 1 + len(idx))))),
                null=draw(st.lists(g.num(-1, 1, 2), min_size=n, max_size=n)),
                t=draw(g.num(.1, .9, 2)), scale=draw(g.num(.2, 5, 1)),
                split=draw(st.booleans()),
                own=draw(st.lists(st.sampled_from(
                    [None, None, None, "offset", "min", "max", "both"]),
                    min_size=k, max_size=k)),
                again=draw(st.integers(0, 2)))


def lp(B, b, lo, hi, Aeq, beq, Aub, bub):
    """max c with B p = c b"""
    from scipy.optimize import linprog
    n = B.shape[1]
    f = np.zeros(n + 1)
    f[-1] = -1
    eq = np.vstack((np.c_[B, -b], np.c_[Aeq, np.zeros(len(Aeq))]))
    r = linprog(f, A_ub=np.c_[Aub, np.zeros(len(Aub))] if len(Aub) else None,
                b_ub=bub if len(Aub) else None, A_eq=eq,
                b_eq=np.concatenate((np.zeros(len(B)), beq)),
                bounds=list(zip(lo, hi)) + [(None, None)], method="highs")
    return r


def problem(c, ctx):
    """rows, targets and a feasible pattern; None if badly posed"""
    spec, n = c["spec"], len(c["spec"])
    B = P.combined(spec, c["qs"])
    b = np.array(c["b"], float)
    if not np.any(b):
        b[0] = 1.
    E = P.combined(spec, [e["q"] for e in c["extra"]])
    F = np.eye(n)[[i for i, kind, _ in c["idx"] if kind == "fix"]]
    if not P.independent(np.vstack((B, E, F))):
        ctx.skip("quantities not independent")
    # a feasible pattern with B p0 = c0 b
    lo, hi = c["range"]
    # some of the constrained quantities vanish
    Z = E[[k for k, e in enumerate(c["extra"]) if e["zero"]]]
    if len(Z):
        ctx.label("vanishing constrained quantities")
    Z = Z/np.linalg.norm(Z, axis=1)[:, None]
    BZ = np.vstack((B, Z))
    N = np.linalg.svd(BZ)[2][len(BZ):]
    p0 = np.linalg.pinv(BZ) @ np.concatenate((b, np.zeros(len(Z))))
    p0 = p0/np.abs(p0).max()
    p0 = p0 + N.T @ (N @ np.array(c["null"]))*.3
    if lo >= 0:
        # a positive pattern may not exist: find one
        r = lp(B, b, [lo + .02]*n, [hi*c["t"]]*n, Z, np.zeros(len(Z)),
               np.zeros((0, n)), [])
        if r.status != 0:
            ctx.skip("no positive pattern")
        p0 = r.x[:n]
    else:
        f = max(p0.max()/hi, (p0/lo).max())
        p0 = p0*c["t"]/f
    return B, b, E, p0


def check_case(c, ctx):
    import electrode.pattern_constraints as pc
    s = g.build_system(c["spec"])
    n = len(s)
    B, b, E, p0 = problem(c, ctx)
    lo, hi = c["range"]
    L, H = np.full(n, float(lo)), np.full(n, float(hi))
    cons = []
    Aeq, beq, Aub, bub = [], [], [], []
    for q, v, own, r in zip(c["qs"], b, c["own"], B):
        # objectives may be limited themselves
        kw, u, d = {}, float(r @ p0), .1*np.linalg.norm(r)
        if own and v:
            ctx.label("limited objective")
            kw = dict(offset=dict(offset=u), min=dict(min=u - d),
                      max=dict(max=u + d), both=dict(min=u - d, max=u + d)
                      )[own]
            if own == "offset" and Aeq:
                kw = {}
        if "offset" in kw:
            Aeq.append(r)
            beq.append(u)
        if "min" in kw:
            Aub.append(-r)
            bub.append(-kw["min"])
        if "max" in kw:
            Aub.append(r)
            bub.append(kw["max"])
        cons.append(lambda q=q, v=v, kw=kw: P.build(q, value=float(v), **kw))
    for e, r in zip(c["extra"], E):
        v = 0. if e["zero"] else float(r @ p0)
        d = e["d"]*np.linalg.norm(r)
        kw = dict(offset=dict(offset=v), min=dict(min=v - d),
                  max=dict(max=v + d),
                  both=dict(min=v - d, max=v + d + .01*np.linalg.norm(r)),
                  equal=dict(min=v, max=v))[e["kind"]]
        cons.append(lambda e=e, kw=kw: P.build(e["q"], **kw))
        if "offset" in kw:
            Aeq.append(r)
            beq.append(v)
        if "min" in kw:
            Aub.append(-r)
            bub.append(-kw["min"])
        if "max" in kw:
            Aub.append(r)
            bub.append(kw["max"])
    for i, kind, d in c["idx"]:
        v = float(p0[i])
        kw = dict(fix=dict(min=v, max=v), min=dict(min=v - d),
                  max=dict(max=v + d), both=dict(min=v - d, max=v + d + .05),
                  sign=dict(max=0) if v < 0 else dict(min=0.),
                  side=dict(min=lo, max=0.) if v < 0 else dict(
                      min=0, max=hi),
                  none={})[kind]
        cons.append(lambda i=i, kw=kw: pc.PatternRangeConstraint(
            index=i, **kw))
        if "min" in kw:
            L[i] = max(L[i], kw["min"])
        if "max" in kw:
            H[i] = min(H[i], kw["max"])
    Aeq = np.array(Aeq).reshape(-1, n)
    Aub = np.array(Aub).reshape(-1, n)
    if c["split"]:
        cons.append(lambda: pc.PatternRangeConstraint(min=lo))
        cons.append(lambda: pc.PatternRangeConstraint(max=hi))
    else:
        cons.append(lambda: pc.PatternRangeConstraint(min=lo, max=hi))
    if np.any(L > H + 1e-12):
        ctx.skip("contradicting ranges")
    # rows scaled for the reference solver
    w = 1/np.sqrt((B*B).sum(1))
    r = lp(B*w[:, None], b*w, L, H, Aeq, np.array(beq), Aub, np.array(bub))
    if r.status != 0:
        ctx.skip("reference solver: status %d" % r.status)
    best = r.x[-1]

    def run(cons, f=1.):
        try:
            return s.optimize([k() for k in cons], verbose=False)
        except ValueError as err:
            if "unknown" in str(err):
                return None
            raise
    res = run(cons)
    if res is None:
        ctx.skip("solver did not converge")
    if c["split"]:
        # the options of one call do not affect the next
        for opt in (dict(maxiters=1), dict(abstol=10., reltol=10.,
                                           feastol=10.)):
            try:
                s.optimize([k() for k in cons], verbose=False, **opt)
            except ValueError:
                ctx.label("failed with options")
        again = run(cons)
        require(again is not None,
                "fails after other calls with loose or tight options")
        check_close(np.asarray(again[0], float).ravel(),
                    np.asarray(res[0], float).ravel(), atol=1e-7*(
                        1 + np.abs(res[0]).max()),
                    what="after calls with other options")
    p, k = np.asarray(res[0], float), float(np.asarray(res[1]).reshape(()))
    require(p.shape == (n,), "pattern shape %s" % (p.shape,))
    sp = max(abs(lo), abs(hi))
    tol = 2e-6*sp
    require(np.all(p >= L - tol) and np.all(p <= H + tol),
            "pattern %s out of range %s %s" % (p, L, H))
    nB = np.sqrt((B*B).sum(1))
    check_close(B @ p, k*b, atol=1e-6*sp*nB + 1e-6*np.abs(k*b),
                what="objective values")
    if len(Aeq):
        check_close(Aeq @ p, np.array(beq),
                    atol=1e-5*sp*np.sqrt((Aeq**2).sum(1)), what="equalities")
    if len(Aub):
        v = Aub @ p - np.array(bub)
        require(np.all(v <= 1e-5*sp*np.sqrt((Aub**2).sum(1))),
                "inequalities violated by %s" % v)
    # strength of one unit pattern along the objective: scale of c
    sc = abs(best) + 1e-3*sp/np.linalg.norm(np.linalg.pinv(B) @ b)
    require(k <= best + 2e-5*sc, "strength %r above the optimum %r: "
            "constraints violated" % (k, best))
    require(k >= best - 2e-5*sc, "strength %r, %r is possible" % (k, best))
    ctx.label("%d objectives" % len(b), "%d extra" % len(c["extra"]),
              "%d ranges" % len(c["idx"]))
    if c["again"] == 0:
        order = [i for i in c["perm"] if i < len(cons)]
        order += [i for i in range(len(cons)) if i not in order]
        res = run([cons[i] for i in order])
        if res is not None:
            check_close(float(np.asarray(res[1]).reshape(())), k,
                        atol=5e-5*sc, what="strength in other order")
            ctx.label("reordered")
    elif c["again"] == 1:
        f = c["scale"]
        old = list(cons[:len(b)])

        def scaled(make):
            def k():
                ob = make()
                ob.value = float(ob.value*f)
                return ob
            return k
        cons[:len(b)] = [scaled(k) for k in old]
        res = run(cons)
        if res is not None:
            check_close(float(np.asarray(res[1]).reshape(()))*f, k,
                        atol=5e-5*sc, what="strength for scaled values")
            ctx.label("scaled")
    ctx.nontrivial(len(b) > 1 and best > 1e-3*sc)


@st.composite
def _infeasible(draw):
    c = draw(_case())
    c["range"] = [-1, 1]
    c["kind"] = draw(st.sampled_from(["offset", "min", "max", "range",
                                      "contradiction"]))
    c["q"] = draw(P.quantity(0, 2))
    c["f"] = draw(st.sampled_from([1.2, 2., 5.]))
    c["sign"] = draw(st.sampled_from([-1, 1]))
    return c


def check_infeasible(c, ctx):
    import electrode.pattern_constraints as pc
    s = g.build_system(c["spec"])
    B, b, E, p0 = problem(c, ctx)
    cons = [P.build(q, value=float(v)) for q, v in zip(c["qs"], b)]
    cons.append(pc.PatternRangeConstraint(min=-1, max=1))
    r = P.rows(c["spec"], [c["q"]])[0]
    m = np.abs(r).sum()
    if m < 1e-2 or m > 1e3:
        ctx.skip("quantity too small or large")
    v = c["f"]*m
    if c["kind"] == "offset":
        cons.append(P.objective(c["q"], offset=v*c["sign"]))
    elif c["kind"] == "min":
        cons.append(P.objective(c["q"], min=v))
    elif c["kind"] == "max":
        cons.append(P.objective(c["q"], max=-v))
    elif c["kind"] == "range":
        cons.append(pc.PatternRangeConstraint(min=c["f"], index=0))
    else:
        cons.append(P.objective(c["q"], min=.3*m))
        cons.append(P.objective(c["q"], max=.1*m))
    raises(lambda: s.optimize(cons, verbose=False), ValueError)
    ctx.label(c["kind"])
    ctx.nontrivial()


SUBS = [
    Sub("optimize", _case, check_case, 640, 20000,
        "several objectives with a positive optimum", shards=6),
    Sub("infeasible", _infeasible, check_infeasible, 160, 4000,
        "an infeasible problem was posed", shards=2),
]
