"""C18 voltage sets: a linear program"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import patterns as P
from ..core import Sub, check_close, require, raises


@st.composite
def vdc(draw, local, nsets, n):
    """a voltage difference constraint; kind: what is given"""
    smooth = (not local) and draw(st.integers(0, 2)) == 0
    length = n if local else nsets
    top = min(3, length - 1)
    order = draw(st.integers(0, max(top, 0)))
    delta = 1
    if order and length > order:
        delta = draw(st.integers(1, max(1, min(3, (length - 1)//order))))
    if smooth and length < delta + 1:
        smooth = False
    c = dict(order=order, delta=delta, smooth=smooth,
             norm=draw(st.sampled_from(["one", "inf"])),
             abs=draw(st.sampled_from([True, True, True, False])),
             weight=draw(st.sampled_from([0, 0, .5, 1, 2.])),
             max=draw(st.one_of(st.none(), g.num(0, .5, 2))),
             min=draw(st.one_of(st.none(), g.num(0, .5, 2))),
             pad=draw(st.booleans()))
    if c["abs"] or c["norm"] == "inf":
        c["min"] = None           # not convex
    return c


@st.composite
def _case(draw):
    spec = draw(P.pixels(3, 7))
    n = len(spec)
    N = draw(st.integers(1, 5))
    sets = []
    k = draw(st.integers(0, min(2, n - 1)))
    qs = [draw(P.quantity()) for _ in range(k)]
    for i in range(N):
        cons = []
        for q in qs:
            cons.append(dict(t="pot", q=q, kind=draw(st.sampled_from(
                ["offset", "offset", "min", "max", "both"])),
                d=draw(g.num(0, .3, 2))))
        if draw(st.integers(0, 3)) == 0:
            cons.append(dict(t="vdc", **draw(vdc(True, N, n))))
        if draw(st.integers(0, 3)) == 0:
            cons.append(dict(t="idx", i=draw(st.integers(-n, n - 1)),
                             kind=draw(st.sampled_from(["fix", "min", "max",
                                                       "narrow"])),
                             d=draw(g.num(0, .5, 2))))
        cons.append(dict(t="range", d=draw(g.num(0, .5, 2)),
                         one=draw(st.integers(0, 2))))
        cons = list(draw(st.permutations(cons)))
        sets.append(cons)
    glob = [draw(vdc(False, N, n)) for _ in range(draw(st.integers(0, 2)))]
    return dict(opts=draw(st.integers(0, 3)) == 0, spec=spec, sets=sets, glob=glob,
                u0=draw(st.lists(g.vec(-1, 1, n, 2), min_size=N, max_size=N)),
                zero=draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2]),
                                   min_size=N, max_size=N)),
                obj=draw(st.integers(0, 2)), bad=None)


def diffs(u, c):
    """differences along axis 0 as documented by the names: order-th finite
    difference with spacing delta, mirrored at the ends if smooth"""
    v = list(u)
    for i in range(c["order"]):
        if c["smooth"] and i % 2 == 0:
            d = c["delta"]
            v = [v[j] for j in range(d, 0, -1)] + v + [
                v[len(v) - 1 - j] for j in range(1, d + 1)]
        v = [v[j + c["delta"]] - v[j] for j in range(len(v) - c["delta"])]
    return [x/float(c["delta"])**c["order"] for x in v]


def norms(u, c):
    """list of norms, one per difference"""
    out = []
    for v in diffs(u, c):
        v = np.atleast_1d(v)
        if c["abs"]:
            v = np.abs(v)
        out.append(v.sum() if c["norm"] == "one" else v.max())
    return out


def kwargs(c, u0):
    """complete a constraint such that u0 fulfills it"""
    nn = norms(u0, c)
    kw = dict(weight=c["weight"], norm=c["norm"], abs=c["abs"],
              smooth=c["smooth"], delta=c["delta"])
    if c["max"] is not None and nn:
        kw["max"] = float(max(nn) + c["max"])
        if kw["max"] == 0 and c["abs"]:
            kw["max"] = .01       # no interior otherwise
    if c["min"] is not None and nn:
        kw["min"] = float(min(nn) - c["min"])
    if not c["pad"]:
        # defaults need not be given
        for k, v in (("weight", 0), ("norm", "one"), ("abs", True),
                     ("smooth", False), ("delta", 1)):
            if kw[k] == v:
                del kw[k]
    return kw


class LP(object):
    """min f z + const s.t. linear constraints, z = (u, auxiliaries)"""
    def __init__(self, N, n):
        self.N, self.n = N, n
        self.nv = N*n
        self.f = {}
        self.ub = []
        self.eq = []

    def aux(self):
        self.nv += 1
        return self.nv - 1

    def add(self, c, kw, rows):
        """rows: list of (m, N n) matrices, one per difference"""
        w, mx, mn = kw.get("weight", 0), kw.get("max"), kw.get("min")
        for D in rows:
            if not w and mx is None and mn is None:
                continue
            t = self.aux()          # >= the norm
            self.f[t] = self.f.get(t, 0) + w
            parts = []
            for r in D:
                r = dict((j, v) for j, v in enumerate(r) if v)
                if c["abs"]:
                    a = self.aux()
                    for s in (1, -1):
                        e = dict((j, s*v) for j, v in r.items())
                        e[a] = -1.
                        self.ub.append((e, 0.))
                    parts.append({a: 1.})
                else:
                    parts.append(r)
            if c["norm"] == "one":
                e = {}
                for q in parts:
                    for j, v in q.items():
                        e[j] = e.get(j, 0.) + v
                if mn is not None:
                    self.ub.append((dict((j, -v) for j, v in e.items()),
                                    -mn))
                e = dict(e)
                e[t] = e.get(t, 0) - 1.
                self.ub.append((e, 0.))
            else:
                for q in parts:
                    e = dict(q)
                    e[t] = e.get(t, 0) - 1.
                    self.ub.append((e, 0.))
            if mx is not None:
                self.ub.append(({t: 1.}, mx))

    def solve(self):
        from scipy.optimize import linprog

        def dense(l):
            A = np.zeros((len(l), self.nv))
            for i, (e, _) in enumerate(l):
                for j, v in e.items():
                    A[i, j] = v
            return A, np.array([b for _, b in l])
        f = np.zeros(self.nv)
        for j, v in self.f.items():
            f[j] = v
        kw = {}
        if self.ub:
            kw["A_ub"], kw["b_ub"] = dense(self.ub)
        if self.eq:
            kw["A_eq"], kw["b_eq"] = dense(self.eq)
        return linprog(f, bounds=[(None, None)]*self.nv, method="highs", **kw)


def check_case(c, ctx):
    import electrode.pattern_constraints as pc
    s = g.build_system(c["spec"])
    n, N = len(s), len(c["sets"])
    u0 = np.array(c["u0"], float)
    L = LP(N, n)
    eye = np.eye(N*n).reshape(N, n, N*n)
    local, tests = [], []
    objective = []
    nvdc = 0
    for i, cons in enumerate(c["sets"]):
        out = []
        fixed = []
        if c["zero"][i] == 2:
            ctx.label("zero voltages")
            u0[i] = 0.
        elif c["zero"][i]:
            # voltages at which the quantities vanish
            ctx.label("zero quantities")
            r = P.combined(c["spec"], [k["q"] for k in cons if k["t"] == "pot"])
            if len(r):
                r = r/np.maximum(np.abs(r).max(1), 1e-300)[:, None]
                u0[i] -= np.linalg.pinv(r, rcond=1e-6) @ (r @ u0[i])
                u0[i] /= max(1., np.abs(u0[i]).max())
        for k in cons:
            if k["t"] == "pot":
                r = P.rows(c["spec"], [k["q"]])[0]
                nr = np.linalg.norm(r)
                if not 2e-3 < nr < 1e3:
                    ctx.skip("quantity too small or large")
                v = float(r @ u0[i])
                if abs(v) < 1e-12*nr:
                    v = 0.
                d = (k["d"] + .02)*nr
                kw = dict(offset=dict(offset=v), min=dict(min=v - d),
                          max=dict(max=v + d),
                          both=dict(min=v - d, max=v + d))[k["kind"]]
                out.append(P.objective(k["q"], **kw))
                e = dict((i*n + j, w) for j, w in enumerate(r/nr))
                neg = dict((j, -w) for j, w in e.items())
                if "offset" in kw:
                    L.eq.append((e, v/nr))
                    tests.append(("eq", i, r/nr, v/nr))
                    fixed.append(r/nr)
                if "min" in kw:
                    L.ub.append((neg, -kw["min"]/nr))
                    tests.append(("min", i, r/nr, kw["min"]/nr))
                if "max" in kw:
                    L.ub.append((e, kw["max"]/nr))
                    tests.append(("max", i, r/nr, kw["max"]/nr))
            elif k["t"] in ("range", "idx"):
                if k["t"] == "idx":
                    j = k["i"]
                    v = float(u0[i, j])
                    kw = dict(fix=dict(min=v, max=v),
                              min=dict(min=v - k["d"]),
                              max=dict(max=v + k["d"]),
                              narrow=dict(min=v - k["d"]/300,
                                          max=v + 4e-4))[k["kind"]]
                    out.append(pc.PatternRangeConstraint(index=j, **kw))
                    sel = [j % n]
                else:
                    kw = dict(min=-1.2 - k["d"], max=1.2 + k["d"])
                    sel = range(n)
                    if k["one"] == 0:
                        out.append(pc.PatternRangeConstraint(min=kw["min"]))
                        out.append(pc.PatternRangeConstraint(max=kw["max"]))
                    else:
                        out.append(pc.PatternRangeConstraint(**kw))
                for j in sel:
                    e = np.zeros(n)
                    e[j] = 1.
                    if kw.get("min") is not None and \
                            kw.get("min") == kw.get("max"):
                        L.eq.append(({i*n + j: 1.}, kw["min"]))
                        tests.append(("eq", i, e, kw["min"]))
                        fixed.append(e)
                        continue
                    if "min" in kw:
                        L.ub.append(({i*n + j: -1.}, -kw["min"]))
                        tests.append(("min", i, e, kw["min"]))
                    if "max" in kw:
                        L.ub.append(({i*n + j: 1.}, kw["max"]))
                        tests.append(("max", i, e, kw["max"]))
            else:
                kw = kwargs(k, u0[i])
                out.append(pc.VoltageDerivativeConstraint(k["order"], **kw))
                L.add(k, kw, [d[None] for d in diffs(eye[i], k)])
                objective.append((k, kw, i))
                nvdc += 1
        if fixed and not P.independent(np.array(fixed)):
            ctx.skip("equalities not independent")
        local.append(out)
    glob = []
    for k in c["glob"]:
        kw = kwargs(k, u0)
        glob.append(pc.VoltageDerivativeConstraint(k["order"], **kw))
        L.add(k, kw, diffs(eye, k))
        objective.append((k, kw, None))
        nvdc += 1
    r = L.solve()
    if r.status != 0:
        ctx.skip("reference solver: status %d" % r.status)
    try:
        u, val = s.solve(local, glob, verbose=False)
        if c.get("opts"):
            # the options of one call do not affect the next
            u0 = np.array(u)
            for opt in (dict(maxiters=1), dict(
                    abstol=10., reltol=10., feastol=10.)):
                try:
                    s.solve(local, glob, verbose=False, **opt)
                except ValueError:
                    ctx.label("failed with options")
            try:
                u, val = s.solve(local, glob, verbose=False)
            except ValueError as err:
                require(False, "fails after calls with other options: %s"
                        % err)
            check_close(np.asarray(u, float), u0, atol=1e-7*(
                1 + np.abs(u0).max()), what="after calls with other options")
    except ValueError as err:
        if "unknown" in str(err):
            ctx.skip("solver did not converge")
        raise
    u = np.asarray(u, float)
    require(u.shape == (N, n), "voltages: shape %s" % (u.shape,))
    val = float(np.asarray(val).reshape(()))
    tol = 5e-6
    for kind, i, row, v in tests:
        w = row @ u[i]
        ok = (w >= v - tol if kind == "min" else w <= v + tol if kind == "max"
              else abs(w - v) <= tol)
        require(ok, "set %d: %s %r violated: %r" % (i, kind, v, w))
    tot = 0.
    scale = 1.
    for k, kw, i in objective:
        nn = norms(u if i is None else u[i], k)
        if kw.get("max") is not None:
            require(all(v <= kw["max"] + 2e-5 for v in nn),
                    "%s: above the maximum %r: %s" % (k, kw["max"], nn))
        if kw.get("min") is not None:
            require(all(v >= kw["min"] - 2e-5 for v in nn),
                    "%s: below the minimum %r: %s" % (k, kw["min"], nn))
        tot += kw.get("weight", 0)*sum(nn)
        scale += kw.get("weight", 0)*len(nn)
    check_close(val, tot, atol=1e-5*scale, what="returned objective")
    require(val >= r.fun - 2e-5*scale, "objective %r below the optimum %r" % (
        val, r.fun))
    require(val <= r.fun + 2e-5*scale, "objective %r, %r is possible" % (
        val, r.fun))
    for k, kw, i in objective:
        ctx.label("order %d" % k["order"])
        if k["smooth"]:
            ctx.label("smooth")
        if k["delta"] > 1:
            ctx.label("delta")
        ctx.label(k["norm"])
    ctx.label("%d sets" % N, "%d terms" % sum(
        1 for _, kw, _ in objective if kw.get("weight")))
    ctx.nontrivial(nvdc > 0)


@st.composite
def _infeasible(draw):
    spec = draw(P.pixels(3, 6))
    return dict(spec=spec, N=draw(st.integers(1, 4)),
                q=draw(P.quantity(0, 2)), f=draw(st.sampled_from([1.3, 4.])),
                bad=draw(st.integers(0, 3)),
                kind=draw(st.sampled_from(["offset", "min", "max", "range",
                                           "contradiction", "difference"])),
                w=draw(st.sampled_from([0, 1.])))


def check_infeasible(c, ctx):
    import electrode.pattern_constraints as pc
    s = g.build_system(c["spec"])
    r = P.rows(c["spec"], [c["q"]])[0]
    m = np.abs(r).sum()
    if not 1e-2 < m < 1e3:
        ctx.skip("quantity too small or large")
    loc = [[pc.PatternRangeConstraint(min=-1, max=1)] for _ in range(c["N"])]
    glob = [pc.VoltageDerivativeConstraint(0, weight=c["w"])]
    bad = loc[c["bad"] % c["N"]]
    k, v = c["kind"], c["f"]*m
    if k == "difference" and c["N"] == 1:
        k = "offset"
    if k == "offset":
        bad.append(P.objective(c["q"], offset=v))
    elif k == "min":
        bad.append(P.objective(c["q"], min=v))
    elif k == "max":
        bad.append(P.objective(c["q"], max=-v))
    elif k == "range":
        bad.append(pc.PatternRangeConstraint(max=-c["f"], index=-1))
    elif k == "contradiction":
        bad.append(P.objective(c["q"], min=.3*m))
        bad.append(P.objective(c["q"], max=.1*m))
    else:
        i = c["bad"] % (c["N"] - 1)
        loc[i].append(pc.PatternRangeConstraint(index=0, min=.5))
        loc[i + 1].append(pc.PatternRangeConstraint(index=0, max=-.5))
        glob.append(pc.VoltageDerivativeConstraint(1, max=.5, norm="inf"))
    raises(lambda: s.solve(loc, glob, verbose=False), ValueError)
    ctx.label(k)
    ctx.nontrivial()


SUBS = [
    Sub("solve", _case, check_case, 560, 16000,
        "with voltage difference constraints", shards=7),
    Sub("infeasible", _infeasible, check_infeasible, 120, 3000,
        "an infeasible problem was posed"),
]
