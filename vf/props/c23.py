"""C23 rectangular grids"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_close, check_equal, require


@st.composite
def _grid(draw):
    d = draw(st.sampled_from([3, 3, 3, 1, 2, 4]))
    cubic = draw(st.integers(0, 3)) == 0
    if cubic:
        shape = [draw(st.integers(1, 5))]*d
    else:
        shape = draw(st.lists(st.integers(1, 7), min_size=d, max_size=d))
    step = st.one_of(g.nonzero(.01, 3, 2), g.num(.01, 3, 2), g.wide())
    n = draw(st.integers(1, 5))
    near = st.one_of(g.num(-9, 20, 2), st.tuples(
        st.integers(-9, 20), st.sampled_from([1e-3, -1e-5, 1e-7, -1e-9])).map(
        lambda t: t[0] + t[1]))
    return dict(center=draw(st.lists(st.one_of(g.num(-9, 9, 2), g.wide()),
                                     min_size=d, max_size=d)),
                step=draw(st.lists(step, min_size=d, max_size=d)),
                shape=shape,
                kind=draw(st.lists(st.sampled_from(["l", "t", "a"]),
                                   min_size=3, max_size=3)),
                ints=draw(st.booleans()),
                idx=draw(st.lists(st.lists(st.integers(-9, 20), min_size=d,
                                           max_size=d), min_size=n,
                                  max_size=n)),
                fidx=draw(st.lists(st.lists(near, min_size=d,
                                            max_size=d), min_size=n,
                                   max_size=n)),
                one=draw(st.booleans()))


def conv(v, kind):
    return {"l": list, "t": tuple, "a": np.array}[kind](v)


def check_grid(c, ctx):
    from electrode import Grid
    ce, sp, sh = c["center"], c["step"], c["shape"]
    if c["ints"]:
        ce = [int(v) for v in ce]
        sp = [int(v) or 1 for v in sp]
    k = c["kind"]
    args = conv(ce, k[0]), conv(sp, k[1]), conv(sh, k[2])
    gr = Grid(center=args[0], step=args[1], shape=args[2])
    d = len(sh)
    C, S, H = np.array(ce, float), np.array(sp, float), np.array(sh)
    tol = 1e-13*(np.abs(C) + np.abs(S)*(H + 20))
    ax = [C[i] + S[i]*(np.arange(H[i]) - (H[i] - 1)/2.) for i in range(d)]
    want = np.array(np.meshgrid(*ax, indexing="ij"))
    t4 = tol.reshape((d,) + (1,)*d)
    m = gr.to_mgrid()
    check_close(m, want, atol=t4, what="mesh")
    p = gr.to_points()
    check_equal(p.shape, (int(np.prod(sh)), d), "number of points")
    check_close(p, want.reshape(d, -1).T, atol=tol, what="points")
    check_close(p.mean(0), C, atol=2*tol, what="centre of the points")
    check_close(gr.get_origin(), want.reshape(d, -1)[:, 0], atol=tol,
                what="origin")
    xyz = gr.to_xyz()
    check_equal(len(xyz), d, "axes")
    for i in range(d):
        check_close(np.asarray(xyz[i], float), ax[i], atol=tol[i],
                    what="axis %d" % i)
    sl = gr.to_slices()
    check_equal(len(sl), d, "slices")
    check_close(np.mgrid[tuple(sl)], want, atol=t4, what="slices")
    for idx in (c["idx"], c["fidx"]):
        idx = np.array(idx[0] if c["one"] else idx)
        keep = idx.copy()
        x = gr.indices_to_coordinates(idx)
        check_close(x, C + S*(idx - (H - 1)/2.), atol=tol, what="coordinates")
        i = gr.coordinates_to_indices(x)
        it = 1e-12*(40 + np.abs(C/S))
        check_close(i, idx, atol=it, what="indices")
        check_equal(idx, keep, "argument modified")
        check_close(gr.coordinates_to_indices(list(map(float, C))),
                    (H - 1)/2., atol=it, what="index of the centre")
    # every node
    for flat in {0, p.shape[0] - 1, p.shape[0]//2, p.shape[0]//3}:
        idx = np.unravel_index(flat, tuple(sh))
        check_close(gr.indices_to_coordinates(idx), p[flat], atol=tol,
                    what="coordinates of a node")
        check_close(gr.coordinates_to_indices(p[flat]), np.array(idx),
                    atol=1e-12*(40 + np.abs(C/S)), what="index of a node")
    for a, b in zip((gr.center, gr.step, gr.shape), (ce, sp, sh)):
        check_equal(list(a), b, "parameters modified")
    ctx.label("%d dimensions" % d, "cubic" if len(set(sh)) == 1 else
              "not cubic")
    ctx.nontrivial(len(set(sh)) > 1)


@st.composite
def _un(draw):
    n = draw(st.integers(1, 6))
    return dict(p=draw(st.lists(g.vec(-9, 9, n), min_size=3, max_size=3)),
                list=draw(st.booleans()))


def check_un(c, ctx):
    from electrode import UnstructuredGrid
    p = c["p"] if c["list"] else np.array(c["p"])
    gr = UnstructuredGrid(p)
    check_equal(np.array(gr.to_points()), np.array(c["p"]).T, "points")
    check_equal(tuple(gr.shape), (len(c["p"][0]),), "shape")
    ctx.nontrivial(len(c["p"][0]) > 1)


SUBS = [
    Sub("grid", _grid, check_grid, 1600, 40000, "shape differs by axis",
        shards=4),
    Sub("unstructured", _un, check_un, 300, 4000, "several points"),
]
