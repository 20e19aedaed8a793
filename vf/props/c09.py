"""C09 grouping"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require


@st.composite
def _case(draw):
    n = draw(st.integers(0, 6))
    levels = draw(st.lists(g.volt(), min_size=1, max_size=4))
    # voltages often on a threshold
    lev = st.one_of(st.sampled_from(levels), st.sampled_from(levels),
                    g.volt())
    cover = draw(st.sampled_from([[50., 0], [50., 0], [12., 1], [8., 2]]))
    els = []
    for i in range(n):
        e = draw(g.polygon_electrode(covers=False, maxpaths=2))
        if draw(st.integers(0, 9)) == 0:
            e["paths"] = []
        elif draw(st.integers(0, 24)) == 0:
            # very many patches
            m = draw(st.sampled_from([33, 65, 80, 130, 260]))
            e["paths"] = [(np.array(e["paths"][0]) + [3*i, 0]).tolist()
                          for i in range(m)]
        e.update(cover=cover, dc=draw(lev), rf=draw(lev), name=draw(
            st.sampled_from(["e%d" % i]*3 + ["", "a"])))
        els.append(e)
    mode = draw(st.sampled_from(["explicit", "explicit", "explicit", "none",
                                 "default", "empty"]))
    th = sorted(draw(st.lists(lev, min_size=0, max_size=5)))
    x = draw(g.points3(1, 3, zmin=.2))
    u = draw(g.unit())
    els, x = [g.rescale(e, u) for e in els], (np.array(x)*u).tolist()
    return dict(els=els, mode=mode, th=th,
                form=draw(st.integers(0, 2)),
                by=draw(st.sampled_from(["dc", "dc", "rf", "given",
                                         "given list"])),
                volts=draw(st.lists(lev, min_size=n, max_size=n)),
                same=draw(st.booleans()),
                x=x, d=draw(st.integers(0, 3)))


def check_case(c, ctx):
    import electrode
    els = c["els"]
    n = len(els)
    volts = dict(dc=[e["dc"] for e in els], rf=[e["rf"] for e in els]).get(
        c["by"], c["volts"])
    if c["mode"] == "none":
        if n == 0:
            ctx.skip("no voltages to take thresholds from")
        th = sorted(set(volts))
    elif c["mode"] == "default":
        th = [0]
    elif c["mode"] == "empty":
        th = []
    else:
        th = c["th"]
    edges = [-np.inf] + list(th) + [np.inf]
    bins = [[j for j in range(n) if a <= volts[j] < b]
            for a, b in zip(edges[:-1], edges[1:])]
    if c["same"]:
        # members of a bin share their voltages
        if c["by"].startswith("given") or c["by"] == "rf":
            for b in bins:
                for j in b:
                    els[j]["dc"] = els[b[0]]["dc"]
        if c["by"] != "rf":
            for b in bins:
                for j in b:
                    els[j]["rf"] = els[b[0]]["rf"]
        # those used for binning stay
    s = g.build_system(els)
    keep = [(e, e.name, e.dc, e.rf, e.cover_height, e.cover_nmax,
             [p.copy() for p in e.paths]) for e in s]
    kw = {}
    if c["mode"] == "none":
        kw["thresholds"] = None
    elif c["mode"] != "default":
        kw["thresholds"] = [list, tuple, np.array][c["form"]](th)
    if c["by"] == "rf":
        kw["voltages"] = s.rfs
    elif c["by"] == "given":
        kw["voltages"] = np.array(volts)
    elif c["by"] == "given list":
        kw["voltages"] = list(volts)
    r = s.group(**kw)
    require(isinstance(r, electrode.System) and r is not s, "type")
    require(len(r) == len(bins), "%d groups, expected %d" % (
        len(r), len(bins)))
    for e, b in zip(r, bins):
        want = [p for j in b for p in els[j]["paths"]]
        require(len(e.paths) == len(want), "patches %d, expected %d" % (
            len(e.paths), len(want)))
        for p, w in zip(e.paths, want):
            check_equal(np.asarray(p), np.array(w, float), "patch")
        for k in ("dc", "rf"):
            m = np.mean([els[j][k] for j in b]) if b else 0.
            sc = max([abs(els[j][k]) for j in b] + [0.])
            check_close(float(getattr(e, k)), float(m), atol=1e-13*sc,
                        what=k)
        if b:
            check_equal([e.cover_height, e.cover_nmax], els[b[0]]["cover"],
                        "cover plane")
    # original unchanged
    require(len(s) == n and all(a is k[0] for a, k in zip(s, keep)),
            "original list changed")
    for e, name, dc, rf, ch, cn, paths in keep:
        check_equal([e.name, e.dc, e.rf, e.cover_height, e.cover_nmax],
                    [name, dc, rf, ch, cn], "original electrode")
        require(len(e.paths) == len(paths), "original paths changed")
        for p, q in zip(e.paths, paths):
            check_equal(p, q, "original path")
    # potential
    x, d = np.array(c["x"]), c["d"]
    for k in ("dc", "rf"):
        if any(len(set(els[j][k] for j in b)) > 1 for b in bins):
            continue
        tol = 1e-300
        for e in els:
            if e["paths"]:
                _, t = g.reference_tolerance(e, x, d)
                tol = tol + 2*t*abs(e[k])
        check_close(r.electrical_potential(x, d, k),
                    s.electrical_potential(x, d, k), atol=tol,
                    what="%s potential of the groups" % k)
        ctx.label("potential compared")
    ctx.label(c["mode"], c["by"], "%d bins" % len(bins))
    ctx.nontrivial(sum(bool(b) for b in bins) > 1)


SUBS = [Sub("group", _case, check_case, 900, 30000,
            "at least two non-empty groups", shards=8)]
