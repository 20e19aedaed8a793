"""Electrode systems and quantities for pattern optimization."""
import itertools

import numpy as np
from hypothesis import strategies as st

from . import gens as g
from . import oracles as o


def names(order):
    return ["".join(i) for i in itertools.product("xyz", repeat=order)]


def derivative(lo=0, hi=5):
    return st.integers(lo, hi).flatmap(
        lambda n: st.sampled_from(names(n)))


def row(spec, x, deriv, rot=None):
    """unit contributions of the electrodes to a derivative, tolerance"""
    n = len(deriv)
    out, tol = [], []
    for s in spec:
        w, t = g.reference_tolerance(s, x, n)
        f = o.expand_reference(np.asarray(w, float), n)[0]
        if rot is not None:
            f = o.rotate_reference(f, np.asarray(rot), n)
        k = 1. if rot is None else 3.**n
        out.append(float(f[tuple("xyz".index(c) for c in deriv)]))
        tol.append(4*k*float(np.max(t)) + 1e-14*k*float(
            np.abs(np.asarray(w, float)).max()))
    return np.array(out), np.array(tol)


@st.composite
def pixels(draw, lo=4, hi=10):
    """distinct polygon or point electrodes around the origin"""
    n = draw(st.integers(lo, hi))
    nx = draw(st.integers(2, 4))
    out = []
    px = draw(g.num(.7, 1.6, 2))
    py = draw(g.num(.7, 1.6, 2))
    for i in range(n):
        cx = (i % nx - (nx - 1)/2)*px*1.6 + draw(g.num(-.2, .2, 2))
        cy = (i//nx - (n//nx)/2)*py*1.6 + draw(g.num(-.2, .2, 2))
        if draw(st.integers(0, 4)) == 0:
            e = dict(kind="point", points=[[cx, cy]],
                     areas=[draw(g.num(.5, 2, 2))])
        else:
            wx, wy = draw(g.num(.4, .8, 2))*px, draw(g.num(.4, .8, 2))*py
            e = dict(kind="poly", paths=[[
                [cx - wx, cy - wy], [cx + wx, cy - wy], [cx + wx, cy + wy],
                [cx - wx, cy + wy]]])
        e.update(cover=[50., 0], name="p%d" % i, dc=draw(g.volt()),
                 rf=draw(g.volt()))
        out.append(e)
    return out


@st.composite
def quantity(draw, lo=0, hi=3, rot=True):
    r = None
    if rot and draw(st.booleans()):
        r = draw(g.orthonormal())
    x = [draw(g.num(-1.5, 1.5, 2)), draw(g.num(-1.5, 1.5, 2)),
         draw(g.num(.5, 1.5, 2))]
    return dict(x=x, d=draw(derivative(lo, hi)), rot=r)


def objective(q, **kw):
    import electrode.pattern_constraints as pc
    return pc.PotentialObjective(x=q["x"], derivative=q["d"],
                                 rotation=q["rot"], **kw)


def rows(spec, qs):
    return np.array([row(spec, q["x"], q["d"], q["rot"])[0] for q in qs]
                    ).reshape(len(qs), len(spec))


def combined(spec, qs):
    """rows of quantities, some of which are combinations
    {"parts": [[weight, quantity], ...]}"""
    out = []
    for q in qs:
        if "parts" in q:
            out.append(sum(w*r for (w, _), r in zip(
                q["parts"], rows(spec, [p for _, p in q["parts"]]))))
        else:
            out.append(rows(spec, [q])[0])
    return np.array(out).reshape(len(qs), len(spec))


def build(q, **kw):
    import electrode.pattern_constraints as pc
    if "parts" in q:
        return pc.MultiPotentialObjective(
            components=[objective(p, value=w) for w, p in q["parts"]], **kw)
    return objective(q, **kw)


@st.composite
def quantity_or_combination(draw, lo=0, hi=3):
    if draw(st.integers(0, 3)):
        return draw(quantity(lo, hi))
    n = draw(st.integers(1, 3))
    return dict(parts=[[draw(g.nonzero(.2, 2, 1)), draw(quantity(lo, hi))]
                       for _ in range(n)])


def independent(B, limit=2e3):
    """the rows are (numerically) independent and of similar size"""
    if len(B) == 0:
        return True
    n = np.sqrt((B*B).sum(1))
    if n.min() < 2e-3 or n.max() > 1e3:
        return False
    s = np.linalg.svd(B/n[:, None], compute_uv=False)
    return len(s) == len(B) and s[-1] > 1/limit*s[0]
