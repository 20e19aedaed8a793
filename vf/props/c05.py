"""C05 mesh electrodes"""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    els = [draw(g.polygon_electrode(covers=False)) for _ in range(n)]
    if draw(st.integers(0, 5)) == 0:
        els.insert(draw(st.integers(0, n)), dict(
            kind="poly", paths=[], cover=[50., 0], dc=draw(g.volt()), rf=0.))
    cover = draw(st.sampled_from([None, None, None, [12., 1], [9.5, 3]]))
    for e in els:
        e["cover"] = cover or [draw(g.num(20, 60, 0)), 0]
    x = draw(g.points3(1, 5))
    u = draw(g.unit())
    if u != 1:
        els = [g.rescale(e, u) for e in els]
        x = (np.array(x)*u).tolist()
        if cover:
            cover = [cover[0]*u, cover[1]]
    return dict(els=els, x=x, d=draw(st.integers(0, 5)),
                v=draw(g.volt()), cover=cover,
                newp=draw(st.lists(g.volt(), min_size=len(els),
                                   max_size=len(els))),
                form=draw(st.sampled_from(g.FORMS)) if u == 1 else "array",
                ints=draw(st.integers(0, 4)),
                intv=draw(st.integers(0, 4)))


def check_case(c, ctx):
    import electrode
    from electrode.electrode import MeshPixelElectrode
    els = c["els"]
    if c["ints"] == 0 and max(
            [np.abs(p).max() for e in els for p in e["paths"]] + [0]) > .1:
        for e in els:
            e["paths"] = [np.round(np.array(p)*3).tolist()
                          for p in e["paths"]]
    if c["intv"] == 0:
        # whole volts, as integers
        for e in els:
            e["dc"] = int(round(e["dc"])) if abs(e["dc"]) < 1e6 else 7
    s = g.build_system(els)
    (xa, x), d, v = g.array_like(c["x"], c["form"]), c["d"], c["v"]
    m = MeshPixelElectrode.from_polygon_system(s)
    require(isinstance(m, MeshPixelElectrode), "type")
    if c["cover"]:
        m.cover_height, m.cover_nmax = c["cover"]
    tol = 0.
    tunit = []
    for e in els:
        t = 0.
        if e["paths"]:
            _, mag = g.reference_electrode(e, x, d)
            t = g.polygon_tolerance(x, e["paths"], mag, d, 1., e["cover"][1],
                                    e["cover"][0])
        tunit.append(t)
        tol = tol + t*abs(e["dc"])
    tol = 2*tol + 1e-300
    want = s.electrical_potential(x, d)
    check_close(m.potential(xa, d), want, atol=tol, what="order %d" % d)
    check_close(m.potential(x, d, v), want*v, atol=tol*abs(v) + 1e-300,
                what="scaled")
    ms = electrode.System([m])
    check_close(ms.electrical_potential(x, d), want, atol=tol,
                what="as part of a system")
    # bookkeeping
    verts = [tuple(q) for e in els for p in e["paths"] for q in p]
    require(len(m.points) == len(verts), "%d vertices listed, expected %d" % (
        len(m.points), len(verts)))
    check_equal(Counter(map(tuple, np.asarray(m.points).tolist())),
                Counter(verts), "vertices")
    have = Counter()
    for (i, j), k in zip(m.edges, m.polygons):
        have[(tuple(m.points[i]), tuple(m.points[j]), int(k))] += 1
    exp = Counter()
    for k, e in enumerate(els):
        for p in e["paths"]:
            for i in range(len(p)):
                exp[(tuple(p[i - 1]), tuple(p[i]), k)] += 1
    require(have == exp, "edges: unexpected %s, missing %s" % (
        dict(have - exp), dict(exp - have)))
    check_equal(np.asarray(m.potentials).tolist(), [e["dc"] for e in els],
                "potentials")
    # other potentials
    for i, p in enumerate(c["newp"]):
        m.potentials[i] = p
    with s.with_voltages(dcs=c["newp"]):
        want2 = s.electrical_potential(x, d)
    tol2 = 2*sum(t*abs(p) for t, p in zip(tunit, c["newp"])) + 1e-300
    check_close(m.potential(x, d), want2, atol=tol2, what="new potentials")
    check_close(m.potential(x, d, v), want2*v, atol=tol2*abs(v) + 1e-300,
                what="new potentials scaled")
    ctx.label("order%d" % d, "%d electrodes" % len(els))
    ctx.nontrivial(bool(np.abs(want).max() > 1e-9))


SUBS = [Sub("mesh", _case, check_case, 700, 25000,
            "a dc potential above 1e-9", shards=8)]
