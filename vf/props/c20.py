"""C20 derivative tensors"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require


def values(n):
    return st.lists(st.one_of(g.num(-9, 9, 2), g.wide()), min_size=n,
                    max_size=n)


@st.composite
def _tensor(draw):
    l = draw(st.integers(0, 5))
    lead = draw(st.lists(st.integers(1, 3), max_size=3))
    n = int(np.prod(lead))*(2*l + 1)
    return dict(l=l, lead=lead, v=draw(values(n)),
                kind=draw(st.sampled_from(["f", "f", "c", "i", "strided", "list"])))


def check_tensor(c, ctx):
    from electrode import utils as u
    l, lead = c["l"], tuple(c["lead"])
    a = np.array(c["v"], float).reshape(lead + (2*l + 1,))
    if c["kind"] == "c":
        a = a + 1j*a[..., ::-1]
    elif c["kind"] == "i":
        a = np.rint(a).astype(int)
    elif c["kind"] == "strided":
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    keep = a.copy()
    give = a.tolist() if c["kind"] == "list" else a
    sc = np.abs(a).max(initial=0) + 1e-300
    want = o.expand_reference(a, l)
    for kw in ({}, dict(order=l)):
        t = u.expand_tensor(give, **kw)
        check_close(t, want, atol=1e-14*sc, what="expanded tensor")
    check_equal(a, keep, "argument modified")
    t = np.array(t)
    for i, j in itertools.combinations(range(l), 2):
        nd = t.ndim - l
        check_equal(t.swapaxes(nd + i, nd + j), t, "symmetry")
        check_close(np.trace(t, axis1=nd + i, axis2=nd + j),
                    np.zeros(t.shape[:nd] + (3,)*(l - 2), t.dtype),
                    atol=1e-14*sc, what="trace")
    keep = t.copy()
    s = u.select_tensor(t.tolist() if c["kind"] == "list" else t, l)
    check_close(s, a, atol=0., what="selected from the expanded")
    if len(lead) == 1:
        check_close(u.select_tensor(t), a, atol=0,
                    what="selected from the expanded, default order")
        ctx.label("default order")
    check_equal(t, keep, "tensor modified")
    ctx.label("order %d" % l, c["kind"], "%d leading" % len(lead))
    ctx.nontrivial(l > 1 and a.size > 0 and np.any(a))


@st.composite
def _rotate(draw):
    l = draw(st.integers(0, 5))
    lead = draw(st.lists(st.integers(1, 2), max_size=2))
    sym = draw(st.booleans())
    n = int(np.prod(lead))*(2*l + 1 if sym else 3**l)
    small = st.lists(g.num(-9, 9, 1), min_size=n, max_size=n)
    return dict(l=l, lead=lead, sym=sym, v=draw(small), w=draw(small),
                lists=draw(st.integers(0, 5)) == 0,
                r=draw(g.orthonormal()), r2=draw(g.orthonormal()),
                general=draw(st.one_of(st.none(), st.none(), g.vec(
                    -2, 2, 9, 1))), f=draw(g.num(-3, 3, 1)))


def check_rotate(c, ctx):
    from electrode import utils as u
    l, lead = c["l"], tuple(c["lead"])

    def make(v):
        if c["sym"]:
            return o.expand_reference(np.array(v).reshape(
                lead + (2*l + 1,)), l)
        return np.array(v).reshape(lead + (3,)*l)
    t, w = make(c["v"]), make(c["w"])
    r, r2 = np.array(c["r"]), np.array(c["r2"])
    tol = 1e-13*3**l*(1 + np.abs(t).max() + np.abs(w).max())
    keep = t.copy(), r.copy()
    a = u.rotate_tensor(*([t.tolist(), r.tolist()] if c["lists"]
                          else [t, r]), l)
    check_close(a, o.rotate_reference(t, r, l), atol=tol,
                what="index contraction")
    if len(lead) == 1:
        check_close(u.rotate_tensor(t, r), a, atol=tol,
                    what="default order")
        ctx.label("default order")
    if c["general"]:
        m = np.array(c["general"]).reshape(3, 3)
        check_close(u.rotate_tensor(t, m, l), o.rotate_reference(t, m, l),
                    atol=tol*2.**l*3**l, what="general matrix")
    check_close(u.rotate_tensor(t*c["f"] + w, r, l),
                c["f"]*a + u.rotate_tensor(w, r, l), atol=10*tol,
                what="linearity")
    check_close(u.rotate_tensor(a, r2, l), u.rotate_tensor(t, r @ r2, l),
                atol=10*tol, what="composition")
    check_close(u.rotate_tensor(a, r.T, l), t, atol=10*tol, what="inverse")
    check_equal(t, keep[0], "tensor modified")
    check_equal(r, keep[1], "rotation modified")
    if c["sym"]:
        for i, j in itertools.combinations(range(l), 2):
            nd = a.ndim - l
            check_close(np.trace(a, axis1=nd + i, axis2=nd + j),
                        np.zeros(a.shape[:nd] + (3,)*(l - 2)),
                        atol=10*tol, what="trace after rotation")
        if l:
            check_close(u.expand_tensor(u.select_tensor(a, l), l), a,
                        atol=10*tol, what="reduced form after rotation")
    ctx.label("order %d" % l)
    ctx.nontrivial(l > 0 and np.any(t) and not np.allclose(r, np.eye(3)))


@st.composite
def _names(draw):
    return dict(idx=draw(st.lists(st.integers(0, 2), max_size=5)),
                c=draw(values(11)))


def check_names(c, ctx):
    from electrode import utils as u
    idx = tuple(c["idx"])
    l = len(idx)
    name = "".join("xyz"[i] for i in idx)
    srt = "".join(sorted(name))
    check_equal(tuple(u.name_to_idx(name)), idx, "name_to_idx")
    check_equal(u.idx_to_name(idx), srt, "idx_to_name")
    check_equal(u.idx_to_name(u.name_to_idx(srt)), srt, "idx/name inverse")
    n = u.idx_to_nidx(idx)
    check_equal(int(n), int(np.ravel_multi_index(idx, (3,)*l)) if l else 0,
                "index into the flattened tensor")
    red = np.array(c["c"][:2*l + 1])
    t = o.expand_reference(red, l)
    r = u.deriv_to_reduced_idx(name)
    got = -red[r[0]] - red[r[1]] if isinstance(r, tuple) else red[r]
    check_close(got, t[idx], atol=1e-14*np.abs(red).max(),
                what="reduced index of %s" % name)
    if srt in o.NAMES[l]:
        i = o.NAMES[l].index(srt)
        check_equal(tuple(u.name_to_deriv(srt)), (l, i), "name_to_deriv")
        require(not isinstance(r, tuple) and r == i, "reduced index %r" % (r,))
    # traceless triples
    tri = list(u.find_laplace(idx))
    check_equal(len(tri), sum(idx.count(i) > 1 for i in range(3)),
                "number of triples")
    seen = set()
    for a, b in tri:
        check_close(t[tuple(a)] + t[tuple(b)] + t[idx], 0.,
                    atol=1e-14*np.abs(red).max(),
                    what="trace of %s, %s, %s" % (a, b, idx))
        require(len(a) == l and len(b) == l, "length")
        seen.add(tuple(sorted([tuple(sorted(a)), tuple(sorted(b))])))
    check_equal(len(seen), len(tri), "different triples")
    # documented order
    for d in range(6):
        for i, nm in enumerate(o.NAMES[d]):
            check_equal(u.deriv_to_name(d, i), nm, "deriv_to_name")
            check_equal(tuple(u.name_to_deriv(nm)), (d, i), "name_to_deriv")
            if d:
                (dl, il), ax = u.construct_derivative(d, i)
                check_equal(dl, d - 1, "lower order")
                check_equal("".join(sorted(o.NAMES[dl][il] + "xyz"[ax])), nm,
                            "construction of " + nm)
    ctx.label("order %d" % l)
    ctx.nontrivial(l > 1)


SUBS = [
    Sub("tensor", _tensor, check_tensor, 900, 30000,
        "a non-zero tensor of order above 1", shards=3),
    Sub("rotate", _rotate, check_rotate, 900, 30000,
        "a proper tensor and rotation", shards=3),
    Sub("names", _names, check_names, 700, 8000, "order above 1", shards=2),
]
