"""C04 compiled and interpreted kernels"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require, finite

LAYOUTS = ["C", "F", "stride", "reverse", "view", "transposed"]


def layout(a, how):
    a = np.array(a, float)
    if how == "F":
        return np.asfortranarray(a)
    if how == "stride":
        b = np.full((2*a.shape[0],) + tuple(2*n for n in a.shape[1:]), np.nan)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reverse":
        return a[::-1].copy()[::-1]
    if how == "view":
        b = np.full((a.shape[0] + 3,) + tuple(n + 2 for n in a.shape[1:]),
                    np.nan)
        v = b[(slice(1, 1 + a.shape[0]),) + tuple(
            slice(1, 1 + n) for n in a.shape[1:])]
        v[...] = a
        return v
    if how == "transposed" and a.ndim == 2:
        return a.T.copy().T
    return np.ascontiguousarray(a)


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["point", "polygon", "mesh"]))
    lay = st.sampled_from(LAYOUTS)
    c = dict(kind=kind, d=draw(st.integers(0, 5)), v=draw(g.volt()),
             n=draw(st.sampled_from([0, 0, 0, 1, 2, 4])),
             h=draw(g.num(7, 30, 1)),
             x=draw(g.points3(0, 6)), lx=draw(lay), lp=draw(lay),
             out=draw(st.integers(0, 3)), fill=draw(g.num(-5, 5, 2)),
             rep=draw(st.sampled_from([1, 1, 1, 1, 6])))
    if kind == "point":
        k = draw(st.integers(0, 7))
        c["points"] = draw(st.lists(g.vec(-4, 4, 2), min_size=k, max_size=k))
        c["areas"] = draw(st.lists(g.nonzero(.05, 3, 2), min_size=k,
                                   max_size=k))
    else:
        c["paths"] = draw(st.lists(g.decorated_path(), min_size=0,
                                   max_size=4))
        if kind == "mesh":
            k = len(c["paths"])
            c["pot"] = draw(st.lists(g.volt(), min_size=k, max_size=k))
            c["perm"] = draw(st.integers(0, 99))
    return c


def check_case(c, ctx):
    import electrode.cexpressions as ce
    import electrode.expressions as pe
    d, v, n, h = c["d"], c["v"], c["n"], c["h"]
    xs = np.array(c["x"], float).reshape(-1, 3)
    # the interpreted kernel takes half a millisecond per point and edge
    work = (2*n + 1)*max(1, c["rep"])*max(1, sum(map(len, c.get("paths", []))))
    xs = xs[:max(2, 6000//work)]
    x0 = np.tile(xs, (c["rep"], 1))
    rep = lambda t: np.tile(t, (c["rep"], 1))
    x = layout(x0, c["lx"]) if len(x0) else x0
    paths = []
    if c["kind"] == "point":
        P = np.array(c["points"], float).reshape(-1, 2)
        A = np.array(c["areas"], float)
        args = [layout(P, c["lp"]) if len(P) else P,
                layout(A, c["lp"]) if len(A) else A, v]
        mag = o.point_reference(xs, P, A, v, d, n, h)[1]
        tol = rep(1e-11*np.max(mag, axis=1, initial=0.).astype(float)[:, None])
        name = "point_potential"
    else:
        paths = [np.array(p) for p in c["paths"]]
        tol = 0.
        pots = c.get("pot", [v]*len(paths))
        for p, u in zip(paths, pots):
            mag = o.polygon_reference(xs, [p], u, d, n, h)[1]
            if len(x0):
                tol = tol + rep(g.polygon_tolerance(xs, [p], mag, d, u,
                                                    n, h))
        if c["kind"] == "polygon":
            args = [[layout(p, c["lp"]) for p in paths], v]
            name = "polygon_potential"
        else:
            pts = np.concatenate(paths + [np.zeros((0, 2))])
            ed, po = [], []
            k0 = 0
            for k, p in enumerate(paths):
                i = k0 + np.arange(len(p))
                ed.extend(zip(np.roll(i, 1), i))
                po.extend([k]*len(p))
                k0 += len(p)
            ed = np.array(ed, np.intc).reshape(-1, 2)
            po = np.array(po, np.intc)
            r = np.random.RandomState(c["perm"]).permutation(len(po))
            args = [layout(pts, c["lp"]) if len(pts) else pts, ed[r], po[r],
                    np.array(pots, float)]
            name = "mesh_potential"
    import copy
    before = copy.deepcopy([x, args])
    res = []
    for mod in (ce, pe):
        f = getattr(mod, name)
        out = None
        fill = 0.
        if c["out"]:
            if c["out"] == 1:
                out = np.zeros((len(x0), 2*d + 1))
            elif c["out"] == 2:
                out = np.full((len(x0), 2*d + 1), c["fill"])
            else:
                out = (c["fill"] + np.arange(len(x0)*(2*d + 1), dtype=float)
                       ).reshape(len(x0), 2*d + 1)
            fill = out.copy()
        r = f(x, *(args + [d, n, h, out]))
        if out is not None:
            require(r is out, "%s did not return out" % name)
        require(r.shape == (len(x0), 2*d + 1), "shape %s" % (r.shape,))
        require(r.dtype == np.double, "dtype %s" % r.dtype)
        finite(r, name)
        res.append(r - fill)
        for a, b in zip(_flat([x, args]), _flat(before)):
            check_equal(a, b, "input of %s modified" % name)
        # a fresh array every time
        if out is None:
            r2 = f(x, *(args + [d, n, h, None]))
            require(r2 is not r and not np.shares_memory(r, r2),
                    "%s returned the same array twice" % name)
            check_equal(r2, r, "second call of %s" % name)
        else:
            keep = r.copy()
            f(x, *(args + [d, n, h, out]))
            check_close(out - keep, res[-1], atol=4*tol + 1e-13*(
                1 + np.abs(keep).max(initial=0)), what="accumulation")
    t = 2*tol + (1e-13*np.abs(np.asarray(fill)).max(initial=0.)
                 if c["out"] else 0.) + 1e-300
    check_close(res[0], res[1], atol=t, what="%s order %d" % (name, d))
    ctx.label(c["kind"], "order%d" % d, c["lx"])
    ctx.nontrivial(bool(np.abs(res[0]).max(initial=0) > 1e-9))


def _flat(a):
    if isinstance(a, (list, tuple)):
        return [j for i in a for j in _flat(i)]
    return [np.asarray(a)]


@st.composite
def _many(draw):
    return dict(kind=draw(st.sampled_from(["point", "polygon", "mesh"])),
                d=draw(st.integers(0, 5)), v=draw(g.volt()),
                base=draw(g.points3(1, 3)),
                n=draw(st.one_of(st.integers(20, 400),
                                 st.integers(400, 1500),
                                 st.sampled_from([128, 512, 1025, 2050]))),
                p=draw(g.vec(-2, 2, 1)), f=draw(g.num(.5, 2, 1)),
                out=draw(st.booleans()))


def check_many(c, ctx):
    """every one of many points gets its value"""
    import electrode.cexpressions as ce
    import electrode.expressions as pe
    base = np.array(c["base"], float).reshape(-1, 3)
    idx = np.arange(c["n"]) % len(base)
    x = base[idx]
    p = np.array(c["p"]) + c["f"]*np.array([[0, 0], [1, 0], [.5, 1.]])
    u, d = c["v"], c["d"]
    args = dict(point=(p[:1], np.array([c["f"]]), u),
                polygon=([p], u),
                mesh=(p, np.array([[2, 0], [0, 1], [1, 2]], np.intc),
                      np.zeros(3, np.intc), np.array([float(u)])))[c["kind"]]
    for mod in (ce, pe):
        f = getattr(mod, c["kind"] + "_potential")
        one = f(base, *(args + (d, 0, 50., None)))
        out = np.ones((len(x), 2*d + 1)) if c["out"] else None
        r = f(x, *(args + (d, 0, 50., out)))
        check_equal(np.shape(r), (len(x), 2*d + 1), "shape")
        t = 1e-12*(1 + np.abs(one).max())
        check_close(r - (1 if c["out"] else 0), one[idx], atol=t,
                    what="%s of many points" % c["kind"])
    ctx.label(c["kind"], "more than 1000" if c["n"] > 1000 else "up to 1000")
    ctx.nontrivial(bool(np.abs(one).max() > 1e-9))


SUBS = [
    Sub("many points", _many, check_many, 48, 1000,
        "a contribution above 1e-9", shards=8),
    Sub("kernels", _case, check_case, 1000, 40000,
        "a contribution above 1e-9", shards=8),
]
