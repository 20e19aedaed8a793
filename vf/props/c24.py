"""C24 grid electrodes"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require, finite


def spacing():
    """now and then in meters, now and then along a falling coordinate"""
    return st.tuples(
        st.lists(st.one_of(g.num(.05, 2, 2), g.num(.5, 1.5, 2), g.num(
            2, 90, 0)), min_size=3, max_size=3),
        st.sampled_from([1.]*8 + [1e-6]),
        st.sampled_from([None]*5 + [0, 1, 2])).map(
            lambda t: [float("%.3g" % (h*t[1]*(-1 if i == t[2] else 1)))
                       for i, h in enumerate(t[0])])


def origin():
    return st.one_of(g.vec(-5, 5, dec=2), g.vec(-5, 5, dec=2), st.just(
        [0., 0., 0.]), g.vec(-300, 300, dec=0))


def frac():
    """position on the grid in units of its extent"""
    return st.one_of(g.num(0, 1), g.num(0, 1), st.sampled_from([0., 1.]),
                     g.num(-2, 3, 2))


@st.composite
def _interp(draw):
    orders = draw(st.integers(0, 4))
    shape = draw(st.lists(st.integers(1, 5), min_size=3, max_size=3))
    n = draw(st.integers(1, 5))
    return dict(orders=orders, shape=shape, o=draw(origin()),
                h=draw(spacing()), seed=draw(st.integers(0, 2**31)),
                scale=draw(st.sampled_from([1., 1., 1e-6, 1e5])),
                x=draw(st.lists(st.lists(frac(), min_size=3, max_size=3),
                                min_size=n, max_size=n)),
                v=draw(g.volt()), dc=draw(g.volt()), rf=draw(g.volt()),
                out=draw(st.booleans()), listy=draw(st.booleans()),
                given=draw(st.sampled_from(["f", "f", "i", "list", "T"])))


def locate(x, og, h, shape):
    """clamped index position"""
    u = (x - og)/h
    return np.clip(u, 0, np.array(shape) - 1)


def trilinear(a, u):
    """a (n, m, k, l) at index positions u (p, 3)"""
    sh = a.shape[:3]
    r = np.zeros((len(u), a.shape[3]))
    for p, ui in enumerate(u):
        i0 = np.minimum(np.floor(ui).astype(int), np.maximum(
            np.array(sh) - 2, 0))
        f = ui - i0
        for c in itertools.product((0, 1), repeat=3):
            w = np.prod([fi if ci else 1 - fi for ci, fi in zip(c, f)])
            j = np.minimum(i0 + np.array(c), np.array(sh) - 1)
            r[p] += w*a[j[0], j[1], j[2]]
    return r


def check_interp(c, ctx):
    import electrode
    r = np.random.RandomState(c["seed"])
    sh = tuple(c["shape"])
    data = []
    for d in range(c["orders"] + 1):
        a = r.randint(-50, 50, size=sh + (2*d + 1,))/8.*c["scale"]
        data.append(a)
    if c["given"] == "i":
        data = [np.rint(a/c["scale"]).astype(int) for a in data]
        given = data
    elif c["given"] == "list":
        given = [a.tolist() for a in data]
    elif c["given"] == "T":
        given = [np.asfortranarray(a) for a in data]
    else:
        given = data
    data = [np.array(a, float) for a in data]
    og, h = np.array(c["o"]), np.array(c["h"])
    args = (c["o"], c["h"]) if c["listy"] else (og, h)
    e = electrode.GridElectrode(data=given, origin=args[0], spacing=args[1],
                                name="g", dc=c["dc"], rf=c["rf"])
    check_equal((e.name, e.dc, e.rf), ("g", c["dc"], c["rf"]), "attributes")
    check_equal(len(e.data), len(data), "orders")
    check_close(e.origin, og, what="origin")
    check_close(e.spacing, h, what="spacing")
    for a, b in zip(e.data, data):
        check_close(a, b, what="stored data")
    x = og + np.array(c["x"])*(np.maximum(np.array(sh) - 1, 1))*h
    u = locate(x, og, h, sh)
    # rounding of the position in index units, on any slope
    eps = 1e-14*(1 + 2*np.abs(og/h) + np.array(sh)*4).sum()
    nodes = np.array(list(itertools.product(*[range(k) for k in sh])))
    v = c["v"]
    for d in range(len(data)):
        m = np.abs(data[d]).max() + 1e-300
        got = e.potential(x, d)
        check_close(got, trilinear(data[d], u), atol=10*eps*m,
                    what="interpolation, order %d" % d)
        xn = og + nodes*h
        check_close(e.potential(xn, d), data[d].reshape(len(nodes), -1),
                    atol=10*eps*m, what="nodes, order %d" % d)
        scaled = e.potential(x, d, v)
        check_close(scaled, v*got, atol=1e-13*m*abs(v), what="voltage")
        if c["out"]:
            start = r.randn(*got.shape)
            buf = start.copy()
            res = e.potential(x, d, v, buf)
            check_close(buf, start + v*got, atol=1e-13*(m*abs(v) + 10),
                        what="accumulated")
            require(res is buf, "returns the given output array")
    s = electrode.System([e, electrode.GridElectrode(
        data=given, origin=og, spacing=h, name="b", dc=1., rf=0.)])
    for d in range(len(data)):
        m = np.abs(data[d]).max() + 1e-300
        check_close(s.electrical_potential(x, d, "dc"),
                    (1 + c["dc"])*e.potential(x, d),
                    atol=1e-12*m*(1 + abs(c["dc"])), what="in a system")
        ip = s.individual_potential(x, d)
        check_close(ip, np.array([e.potential(x, d)]*2), atol=1e-13*m,
                    what="individual potentials")
    outside = np.any(((x - og)/h < 0) | ((x - og)/h > np.array(sh) - 1))
    ctx.label("order %d" % c["orders"], "outside" if outside else "inside")
    ctx.nontrivial(len(set(sh)) > 1 and np.any(u % 1 != 0))


# polynomials with at most the second power of each coordinate: central
# differences are exact in the interior

@st.composite
def _derive(draw):
    base = draw(st.sampled_from([0, 0, 1, 2]))
    maxd = draw(st.integers(0, 5))
    linear = draw(st.integers(0, 2)) == 0
    p = 1 if linear else 2
    n = draw(st.integers(1, 5))
    return dict(base=base, maxd=maxd, linear=linear,
                shape=draw(st.lists(st.integers(2 if linear else 3, 7),
                                    min_size=3, max_size=3)),
                o=draw(origin()), h=draw(spacing()),
                terms=[[draw(st.integers(0, p)) for _ in range(3)]
                       + [draw(g.nonzero(.1, 3, 1))] for _ in range(n)],
                twice=draw(st.booleans()), step=draw(st.booleans()))


def pdiff(terms, name):
    t = [list(x) for x in terms]
    for ch in name:
        k = "xyz".index(ch)
        for x in t:
            x[3] *= x[k]
            x[k] = max(x[k] - 1, 0)
    return t


def pev(terms, x):
    """x (..., 3)"""
    return sum((c*x[..., 0]**i*x[..., 1]**j*x[..., 2]**k
                for i, j, k, c in terms), 0*x[..., 0])


def check_derive(c, ctx):
    import electrode
    sh = tuple(c["shape"])
    og, h = np.array(c["o"]), np.array(c["h"])
    idx = np.array(np.meshgrid(*[np.arange(k) for k in sh], indexing="ij"))
    xs = og + np.moveaxis(idx, 0, -1)*h
    # powers of centred and scaled coordinates
    cen = og + (np.array(sh) - 1)/2*h
    sc = 1.
    u = (xs - cen)/sc

    def exact(d):
        return np.stack([pev(pdiff(c["terms"], nm), u)
                         for nm in o.NAMES[d]], -1)
    data = [exact(d) for d in range(c["base"] + 1)]
    e = electrode.GridElectrode(data=[a.copy() for a in data], origin=og,
                                spacing=h)
    if c["step"]:
        for k in range(c["maxd"] + 1):
            e.generate(k)
    else:
        e.generate(c["maxd"])
    have = len(e.data)
    require(have >= max(c["base"] + 1, c["maxd"]), "only %d orders after "
            "generate(%d)" % (have, c["maxd"]))
    for d in range(c["base"] + 1):
        check_equal(e.data[d], data[d], "given order %d" % d)
    before = [np.array(a) for a in e.data]
    if c["twice"]:
        e.generate(c["maxd"])
        for a, b in zip(before, e.data):
            check_equal(np.array(b), a, "generating again")
    ext = (np.array(sh) - 1)*np.abs(h)
    mag = sum(abs(t[3])*np.prod([max(ext[k], 1e-9)**t[k] for k in range(3)])
              for t in c["terms"])
    amp = max(1, mag)
    for d in range(c["base"] + 1, have):
        a = np.asarray(e.data[d])
        check_equal(a.shape, sh + (2*d + 1,), "shape of order %d" % d)
        finite(a, "order %d" % d)
        want = exact(d)
        tol = 1e-11*amp*(1/np.abs(h).min() + 1)**(d - c["base"])
        if c["linear"]:
            check_close(a, want, atol=tol, what="order %d" % d)
        else:
            k = d - c["base"]
            inner = tuple(slice(k, n - k) if n > 2*k else slice(0, 0)
                          for n in sh)
            if a[inner].size:
                check_close(a[inner], want[inner], atol=tol,
                            what="interior of order %d" % d)
                ctx.label("interior of order %d" % d)
            # along an axis the polynomial is linear in, all is exact
            # and the other axes do not matter for a derivative along it
    ctx.label("%d orders generated" % max(have - c["base"] - 1, 0))
    ctx.nontrivial(have > c["base"] + 1 and len(set(c["h"])) > 1
                   and len(set(sh)) > 1)


@st.composite
def _rough(draw):
    return dict(shape=draw(st.lists(st.integers(3, 8), min_size=3,
                                    max_size=3)), h=draw(spacing()),
                o=draw(origin()), seed=draw(st.integers(0, 2**31)),
                maxd=draw(st.integers(2, 5)))


def central(a, ax, h):
    """central difference, keeps shape, nan at the ends"""
    r = np.full(a.shape, np.nan)
    n = a.shape[ax]
    if n > 2:
        mid = [slice(None)]*3
        lo, hi = list(mid), list(mid)
        mid[ax], lo[ax], hi[ax] = slice(1, -1), slice(None, -2), slice(2, None)
        r[tuple(mid)] = (a[tuple(hi)] - a[tuple(lo)])/(2*h[ax])
    return r


def check_rough(c, ctx):
    """successive central differences of arbitrary data"""
    import electrode
    sh = tuple(c["shape"])
    h = np.array(c["h"])
    a = np.random.RandomState(c["seed"]).randn(*sh)
    e = electrode.GridElectrode(data=[a[..., None].copy()], origin=c["o"],
                                spacing=c["h"])
    e.generate(c["maxd"])
    n = 0
    for d in range(1, len(e.data)):
        for i, nm in enumerate(o.NAMES[d]):
            w = a
            for ch in nm:
                w = central(w, "xyz".index(ch), h)
            ok = np.isfinite(w)
            if ok.any():
                n += d > 1
                check_close(np.asarray(e.data[d])[..., i][ok], w[ok],
                            atol=1e-12*(2/np.abs(h).min())**d, what=nm)
    ctx.nontrivial(n > 0)
    ctx.label("%d orders" % len(e.data))


class Result(object):
    """what `bem.result.Result` provides"""
    def __init__(self, grid, potential, field):
        self.grid, self.potential, self.field = grid, potential, field


@st.composite
def _result(draw):
    return dict(shape=draw(st.lists(st.integers(2, 5), min_size=3,
                                    max_size=3)), h=draw(spacing()),
                o=draw(origin()), seed=draw(st.integers(0, 2**31)),
                field=draw(st.booleans()),
                maxd=draw(st.one_of(st.none(), st.integers(0, 4))),
                listy=draw(st.booleans()))


def check_result(c, ctx):
    import electrode
    sh = tuple(c["shape"])
    r = np.random.RandomState(c["seed"])
    cen, h = np.array(c["o"]), np.array(c["h"])
    gr = electrode.Grid(center=c["o"] if c["listy"] else cen,
                        step=c["h"] if c["listy"] else h, shape=sh)
    pot = r.randn(*sh)
    field = r.randn(3, *sh) if c["field"] else None
    kw = {} if c["maxd"] is None else dict(maxderiv=c["maxd"])
    e = electrode.GridElectrode.from_result(Result(
        gr, pot.copy(), None if field is None else field.copy()), **kw)
    require(isinstance(e, electrode.GridElectrode), "type")
    maxd = 4 if c["maxd"] is None else c["maxd"]
    require(len(e.data) >= max(maxd, 2 if c["field"] else 1), "orders")
    p = gr.to_points()
    tol = 1e-12*(1 + np.abs(cen/h).max())
    check_close(e.potential(p, 0)[:, 0], pot.ravel(), atol=10*tol,
                what="potential at the grid points")
    check_close(np.asarray(e.data[0])[..., 0], pot, what="potential")
    if c["field"]:
        check_close(e.potential(p, 1), field.reshape(3, -1).T, atol=10*tol,
                    what="field at the grid points")
    elif len(e.data) > 1:
        for k in range(3):
            w = central(pot, k, h)
            ok = np.isfinite(w)
            check_close(np.asarray(e.data[1])[..., k][ok], w[ok],
                        atol=1e-12/np.abs(h).min(), what="field by differences")
    check_close(e.spacing, h, what="spacing")
    check_close(e.origin, cen - (np.array(sh) - 1)/2*h,
                atol=1e-13*np.abs(np.r_[cen, h*10]).max(), what="origin")
    ctx.nontrivial(len(set(sh)) > 1)
    ctx.label("field" if c["field"] else "no field")


class Vtk(object):
    """stands in for the vtk bindings (not installed): reads legacy ASCII
    structured points with the attributes those have"""
    class StructuredPointsReader(object):
        def __init__(self, file_name=None):
            self.file_name, self.output = file_name, None

        def update(self):
            self.output = Vtk.Data(self.file_name)

        def get_output(self):
            return self.output

    class Data(object):
        def __init__(self, fil):
            tok = iter(open(fil).read().split("\n"))
            self.point_data = Vtk.Points()
            for line in tok:
                w = line.split()
                if not w:
                    continue
                if w[0] == "DIMENSIONS":
                    self.dimensions = np.array([int(i) for i in w[1:]])
                elif w[0] == "ORIGIN":
                    self.origin = np.array([float(i) for i in w[1:]])
                elif w[0] == "SPACING":
                    self.spacing = np.array([float(i) for i in w[1:]])
                elif w[0] in ("SCALARS", "VECTORS"):
                    n = int(np.prod(self.dimensions))
                    if w[0] == "SCALARS":
                        next(tok)
                    a = np.array([[float(i) for i in next(tok).split()]
                                  for _ in range(n)])
                    self.point_data.add(w[1], a[:, 0] if a.shape[1] == 1
                                        else a)

    class Points(object):
        def __init__(self):
            self.arrays = []

        def add(self, name, a):
            self.arrays.append((name, Vtk.Array(a)))

        number_of_arrays = property(lambda self: len(self.arrays))

        def get_array_name(self, i):
            return self.arrays[i][0]

        def get_array(self, i):
            if isinstance(i, int):
                return self.arrays[i][1]
            return dict(self.arrays).get(i)

    class Array(object):
        def __init__(self, a):
            self.a = a
            self.number_of_components = 1 if a.ndim == 1 else a.shape[1]
            self.number_of_tuples = len(a)

        def to_array(self):
            return self.a.copy()

        def __array__(self, *args):
            return self.a.copy()


@st.composite
def _vtk(draw):
    return dict(shape=draw(st.lists(st.integers(2, 5), min_size=3,
                                    max_size=3)), h=draw(spacing()),
                o=draw(origin()), seed=draw(st.integers(0, 2**31)),
                field=draw(st.booleans()),
                extra=draw(st.lists(st.sampled_from(
                    ["x_pondpot", "charge", "potential_pondpot"]),
                    max_size=2, unique=True)),
                at=draw(st.integers(0, 2)),
                maxd=draw(st.one_of(st.none(), st.integers(0, 4))))


def check_vtk(c, ctx):
    import os
    import sys
    import tempfile
    import types
    import electrode
    sh = tuple(c["shape"])
    h, og = np.abs(c["h"]), np.array(c["o"])
    r = np.random.RandomState(c["seed"])
    pot, field = r.randn(*sh), r.randn(3, *sh)
    # the first axis varies fastest in the file
    parts = [("potential", pot.transpose(2, 1, 0).reshape(-1, 1))]
    if c["field"]:
        parts.append(("field", field.transpose(3, 2, 1, 0).reshape(-1, 3)))
    for k in c["extra"]:
        parts.insert(min(c["at"], len(parts)), (k, r.randn(pot.size, 1)))
    text = ["# vtk DataFile Version 2.0", "vtk output", "ASCII",
            "DATASET STRUCTURED_POINTS", "DIMENSIONS %d %d %d" % sh,
            "SPACING %r %r %r" % tuple(h.tolist()),
            "ORIGIN %r %r %r" % tuple(og.tolist()),
            "POINT_DATA %d" % pot.size]
    for name, a in parts:
        if a.shape[1] == 1:
            text += ["SCALARS %s double" % name, "LOOKUP_TABLE default"]
        else:
            text += ["VECTORS %s double" % name]
        text += [" ".join(repr(float(i)) for i in row) for row in a]
    api = types.ModuleType("tvtk.api")
    api.tvtk = Vtk
    top = types.ModuleType("tvtk")
    top.api = api
    old = dict((k, sys.modules.get(k)) for k in ("tvtk", "tvtk.api"))
    fd, fil = tempfile.mkstemp(suffix=".vtk")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(text) + "\n")
        sys.modules["tvtk"], sys.modules["tvtk.api"] = top, api
        kw = {} if c["maxd"] is None else dict(maxderiv=c["maxd"])
        e = electrode.GridElectrode.from_vtk(fil, **kw)
        for bad in (fil + ".none.vtk", fil[:-4]):
            try:
                electrode.GridElectrode.from_vtk(bad)
            except (OSError, IOError):
                pass
            else:
                require(False, "%s: no error" % bad[-12:])
    finally:
        for k, m in old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
        os.unlink(fil)
    require(isinstance(e, electrode.GridElectrode), "type")
    maxd = 4 if c["maxd"] is None else c["maxd"]
    require(len(e.data) >= max(maxd, 2 if c["field"] else 1), "orders")
    check_close(e.spacing, h, what="spacing")
    check_close(e.origin, og, what="origin")
    check_close(np.asarray(e.data[0])[..., 0], pot, what="potential")
    idx = np.array(list(itertools.product(*[range(k) for k in sh])))
    p = og + idx*h
    tol = 1e-12*(1 + np.abs(og/h).max())
    check_close(e.potential(p, 0)[:, 0], pot.ravel(), atol=10*tol,
                what="potential at the grid points")
    if c["field"]:
        check_close(e.potential(p, 1), field.reshape(3, -1).T, atol=10*tol,
                    what="field at the grid points")
    elif len(e.data) > 1:
        for k in range(3):
            w = central(pot, k, h)
            ok = np.isfinite(w)
            check_close(np.asarray(e.data[1])[..., k][ok], w[ok],
                        atol=1e-12/h.min(), what="field by differences")
    ctx.nontrivial(len(set(sh)) > 1)
    ctx.label("field" if c["field"] else "no field")


SUBS = [
    Sub("vtk", _vtk, check_vtk, 200, 4000, "a non-cubic grid", shards=1),
    Sub("interpolate", _interp, check_interp, 800, 20000,
        "a non-cubic grid and a point between nodes", shards=4),
    Sub("derive", _derive, check_derive, 600, 20000,
        "generated orders on an anisotropic grid", shards=3),
    Sub("differences", _rough, check_rough, 300, 10000,
        "an interior second or higher derivative", shards=2),
    Sub("result", _result, check_result, 400, 8000, "a non-cubic grid",
        shards=2),
]
