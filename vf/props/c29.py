"""C29 XIC listings"""
import io

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check_close, check_equal, require

COORD = st.one_of(st.integers(-10**6, 10**6), st.integers(-10, 10),
                  st.integers(-2**31, 2**31))
VERTEX = st.tuples(COORD, COORD).map(list)

# records of a listing that are no polygons
OTHER = [
    "(CIF file of hierarchy rooted at cell trap);", "DS1 1 1;", "9 trap;",
    "L CAA;", "L GOLD;", "DF;", "E", "", "   ", "C 2 T 10 20;",
    "B 100 200 5 5;", "W 10 0 0 20 20;", "94 name 10 10;", "# P 1 2",
    "(P 0 0;);", "$ P", "LP;", "5 P 10 10;", "\t", "-- P 3 4 ;",
]


@st.composite
def _case(draw):
    recs = []
    for _ in range(draw(st.integers(0, 8))):
        if draw(st.integers(0, 2)) == 0:
            recs.append(["other", draw(st.sampled_from(OTHER))])
            continue
        n = draw(st.one_of(st.integers(2, 6), st.integers(2, 60)))
        v = draw(st.lists(VERTEX, min_size=n, max_size=n))
        if draw(st.integers(0, 7)) == 0:
            # a long record
            v = v*draw(st.integers(2, 200))
        recs.append(["poly", v, draw(st.integers(0, 3)),
                     draw(st.integers(1, 9)), draw(st.integers(0, 2))])
    return dict(recs=recs, eol=draw(st.sampled_from(["\n", "\r\n", ""])),
                how=draw(st.sampled_from(["list", "file", "iter", "tuple"])))


def check_case(c, ctx):
    from electrode.xic import xic_to_list
    lines, want = [], []
    rng = np.random.RandomState(len(c["recs"]))
    for r in c["recs"]:
        if r[0] == "other":
            lines.append(r[1])
            continue
        _, v, trail, indent, blank = r
        want.append(np.array(v, float)*1e-8)
        sp = " "*(1 + trail)
        for i, (x, y) in enumerate(v):
            num = "%d%s%d" % (x, sp, y)
            if i == 0:
                t = "P%s%s" % (sp, num)
            else:
                t = " "*indent + num
            if i == len(v) - 1:
                t += ";"
            t += " "*(trail if rng.rand() < .5 else 0)
            lines.append(t)
            if blank and rng.rand() < .3:
                # blank lines may come anywhere
                lines.append(["", "  "][rng.randint(2)])
    lines = [t + c["eol"] for t in lines]
    if c["how"] == "file":
        src = io.StringIO("".join(t.rstrip("\r\n") + "\n" for t in lines))
    elif c["how"] == "iter":
        src = iter(lines)
    else:
        src = {"list": list, "tuple": tuple}[c["how"]](lines)
    got = xic_to_list(src)
    check_equal(len(got), len(want), "number of polygons")
    for a, b in zip(got, want):
        check_equal(list(np.shape(a)), list(b.shape), "shape")
        check_close(a, b, rtol=1e-14, atol=1e-300, what="coordinates")
    require(len({id(a) for a in got}) == len(got), "shared polygons")
    ctx.label("%d polygons" % min(len(want), 4), c["how"])
    ctx.nontrivial(len(want) > 0)


SUBS = [Sub("listing", _case, check_case, 800, 20000,
            "at least one polygon record", shards=2)]
