"""C33 compiled and interpreted geometry routines and vector helpers"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import tf
from ..core import Sub, check_close, check_equal, raises, require

SEED = st.integers(0, 10**6)


# ------------------------------------------------------------------- twins

def quat(draw):
    q = draw(st.lists(g.num(-2, 2, 2), min_size=4, max_size=4))
    if sum(x*x for x in q) < .01:
        q[0] = 1.
    f = draw(st.sampled_from([1., 1., 1., 1e-9, 1e-4, 1e4, 1e9]))
    return [x*f for x in q]


def num(lo, hi, dec=2):
    return g.num(lo, hi, dec)


def _rotation(draw, seq):
    M = np.eye(4)
    M[:3, :3] = tf.rodrigues(draw(tf.ANGLE), draw(tf.direction()))
    M[:3, 3] = draw(tf.POINT)
    if seq:
        # homogeneous matrices have any factor
        M *= draw(st.sampled_from([1., 1., 1e-6, 1e-3, 1e3, 1e6]))
    return M.tolist()


def _same(draw):
    a = _rotation(draw, 1)
    if draw(st.integers(0, 2)):
        b = np.array(a)*draw(st.sampled_from([1., -2., 1e-5, 1e5]))
        b[draw(st.integers(0, 2)), draw(st.integers(0, 3))] *= draw(
            st.sampled_from([1., 1 + 1e-9, 1 + 1e-6, 1 + 1e-4, 1.5, -1.]))
        return [a, b.tolist()]
    return [a, _rotation(draw, 1)]


def _frustum(draw):
    a = []
    for _ in range(2):
        lo = draw(num(-5, 5))
        a += [lo, lo + draw(num(.1, 5))]
    near = draw(num(.1, 3))
    a = a + [near, near + draw(num(.1, 5))]
    f = draw(st.sampled_from([1., 1., 1e-6, 1e-3, 1e3]))
    return [x*f for x in a] + [draw(st.booleans())]


def _shear(draw):
    d, n = draw(tf.direction()), draw(tf.direction())
    n = np.cross(d, n)
    if np.abs(n).max() < 1e-3*max(abs(x) for x in d):
        n = np.cross(d, [1, 0, 0] if abs(d[0]) < abs(d[1]) else [0, 1, 0])
    return [draw(num(-1.4, 1.4)), d, draw(tf.POINT), n.tolist()]


def _projection(draw):
    kw = {}
    k = draw(st.integers(0, 2))
    p, n = draw(tf.POINT), draw(tf.direction())
    u = tf.unit(n)
    if k == 1:
        d = np.array(draw(tf.direction()))
        if abs(tf.unit(d).dot(u)) < .1:
            d = np.array(n) + tf.unit(d)
        kw["direction"] = d.tolist()
    elif k == 2:
        x = np.array(draw(tf.POINT))
        if abs((x - p).dot(u)) < .1:
            x = x + u
        kw["perspective"] = x.tolist()
        kw["pseudo"] = draw(st.booleans())
    return [p, n], kw


def _points(draw):
    n = draw(st.integers(3, 10))
    rs = np.random.RandomState(draw(SEED))
    v = rs.rand(3, n)*4*draw(st.sampled_from([1., 1., 1e-6, 1e-3, 100., 1e6]))
    return [v.tolist(), (tf.rodrigues(draw(num(-3, 3)), [1, 2, 3]).dot(v)
                         + v.max()*rs.rand(3, n)*.03).tolist()]


def _cell(draw):
    f = draw(st.sampled_from([1., 1., 1e-6, 1e3]))
    return [[draw(num(.5, 9))*f for _ in range(3)],
            [draw(num(70, 110, 1)) for _ in range(3)]]


AX = st.sampled_from(tf.AXES)
BUILD = dict(
    identity_matrix=lambda d: [],
    translation_matrix=lambda d: [d(tf.POINT)],
    reflection_matrix=lambda d: [d(tf.POINT), d(tf.direction())],
    rotation_matrix=lambda d: [d(tf.ANGLE), d(tf.direction())] + (
        [d(tf.POINT)] if d(st.booleans()) else []),
    scale_matrix=lambda d: [d(num(-5, 5))] + (
        [d(tf.POINT)] + ([d(tf.direction())] if d(st.booleans()) else [])
        if d(st.booleans()) else []),
    projection_matrix=_projection, clip_matrix=_frustum, shear_matrix=_shear,
    orthogonalization_matrix=_cell,
    superimposition_matrix=lambda d: _points(d) + [d(st.booleans())],
    euler_matrix=lambda d: [d(tf.ANGLE), d(tf.ANGLE), d(tf.ANGLE)] + (
        [d(AX)] if d(st.booleans()) else []),
    euler_from_matrix=lambda d: [_rotation(d, 0)] + (
        [d(AX)] if d(st.booleans()) else []),
    quaternion_from_euler=lambda d: [
        d(tf.ANGLE), d(tf.ANGLE), d(tf.ANGLE)] + (
        [d(AX)] if d(st.booleans()) else []),
    quaternion_about_axis=lambda d: [d(tf.ANGLE), d(tf.direction())],
    quaternion_matrix=lambda d: [quat(d)],
    quaternion_from_matrix=lambda d: [_rotation(d, 1)] + (
        [d(st.booleans())] if d(st.booleans()) else []),
    quaternion_multiply=lambda d: [quat(d), quat(d)],
    quaternion_conjugate=lambda d: [quat(d)],
    quaternion_inverse=lambda d: [quat(d)],
    quaternion_slerp=lambda d: [quat(d), quat(d), d(num(-1, 2))] + (
        [d(st.sampled_from([0, 0, 1, 2])), d(st.booleans())]
        if d(st.booleans()) else []),
    random_quaternion=lambda d: [[d(num(0, .99)) for _ in range(3)]],
    random_rotation_matrix=lambda d: [[d(num(0, .99)) for _ in range(3)]],
    arcball_map_to_sphere=lambda d: [
        [d(num(-9, 9)), d(num(-9, 9))], [d(num(-9, 9)), d(num(-9, 9))],
        d(num(.5, 9))],
    arcball_constrain_to_axis=lambda d: [
        tf.unit(d(tf.direction())).tolist(),
        tf.unit(d(tf.direction())).tolist()],
    inverse_matrix=lambda d: [_rotation(d, 1)],
    is_same_transform=_same,
    vector_norm=lambda d: [d(tf.POINT)],
    unit_vector=lambda d: [d(tf.direction())],
)


@st.composite
def _twins(draw):
    name = draw(st.sampled_from(sorted(BUILD)))
    args = BUILD[name](draw)
    kw = {}
    if isinstance(args, tuple):
        args, kw = args
    return dict(name=name, args=args, kw=kw,
                form=draw(st.sampled_from(["list", "array", "f", "readonly",
                                           "strided"])))


def dress(a, kind):
    if not isinstance(a, list) or kind == "list":
        return a
    a = np.array(a, float)
    if kind == "f":
        return np.asfortranarray(a)
    if kind == "readonly":
        a.setflags(write=False)
    if kind == "strided":
        return np.stack([a, a + 1], -1)[..., 0]
    return a


def check_twins(c, ctx):
    import electrode.transformations as t
    name = c["name"]
    public, python = getattr(t, name), getattr(t, "_py_" + name, None)
    if python is None:
        ctx.label("one version of " + name)
        return
    args = [dress(a, c["form"]) for a in c["args"]]
    cp = [np.array(a) for a in args]
    kw = {k: dress(v, c["form"]) for k, v in c["kw"].items()}
    a, b = public(*args, **kw), python(*args, **kw)
    for x, y in zip(args, cp):
        check_equal(np.array(x), y, "argument of %s modified" % name)
    ctx.label(name)
    ctx.nontrivial()
    tol = 1e-10
    if name == "quaternion_from_matrix":
        check_close(abs(np.dot(a, b)), 1., atol=1e-10, what=name)
        return
    if name == "quaternion_slerp":
        u, v = tf.unit(c["args"][0]), tf.unit(c["args"][1])
        s = 1 - abs(u.dot(v))
        if s < 1e-6 or abs(u.dot(v)) < 1e-12:
            ctx.skip("undefined plane")
        tol = 1e-9
    if name == "euler_from_matrix":
        # at gimbal lock two of the angles are ambiguous
        ax = c["args"][1] if len(c["args"]) > 1 else "sxyz"
        check_close(tf.euler(a, ax), tf.euler(b, ax), atol=1e-9, what=name)
        return
    if name == "superimposition_matrix":
        x, y = (np.array(v) - np.mean(v, axis=1)[:, None]
                for v in c["args"][:2])
        w = np.linalg.svd(y.dot(x.T))[1]
        if w[1] < .01*w[0]:
            ctx.skip("no unique rotation")
        tol = 1e-9
    if name == "arcball_constrain_to_axis" and abs(b[2]) < 1e-9:
        # on the rim: both ends are as near
        a = np.asarray(a)*(1 if np.dot(a, b) > 0 else -1)
    if name == "is_same_transform":
        require(bool(a) == bool(b), "is_same_transform")
        return
    size = np.abs(np.asarray(b, float)).max()
    if name in ("projection_matrix", "orthogonalization_matrix"):
        tol = 1e-9
    check_close(np.asarray(a, float), np.asarray(b, float), atol=tol*size,
                what="compiled and Python " + name)


# ------------------------------------------------------------ vector norms

@st.composite
def _norm(draw):
    nd = draw(st.integers(1, 4))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    return dict(shape=shape, axis=draw(st.one_of(
        st.none(), st.integers(-nd, nd - 1))), seed=draw(SEED),
        layout=draw(st.sampled_from(["list", "c", "f", "step", "neg", "t",
                                     "int", "readonly", "single"])),
        out=draw(st.sampled_from([None, "c", "f", "step", "neg", "self"])),
        scale=draw(st.sampled_from([1., 1., 1e-3, 1e5])),
        zero=draw(st.integers(0, 9)))


def arrange(v, kind):
    if kind == "list":
        return v.tolist()
    if kind == "f":
        return np.asfortranarray(v)
    if kind == "step":
        b = np.full([2*n for n in v.shape], 77.)
        b[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return b[tuple(slice(None, None, 2) for _ in v.shape)]
    if kind == "neg":
        s = tuple(slice(None, None, -1) for _ in v.shape)
        return np.ascontiguousarray(v[s])[s]
    if kind == "t":
        return np.ascontiguousarray(v.T).T
    if kind == "int":
        return v.astype(int)
    if kind == "single":
        return v.astype("f")
    v = v.copy()
    if kind == "readonly":
        v.setflags(write=False)
    return v


def check_norm(c, ctx):
    shape, axis = tuple(c["shape"]), c["axis"]
    rs = np.random.RandomState(c["seed"])
    v = np.rint((rs.rand(*shape) - .5)*40)
    if c["zero"] == 0:
        v[rs.rand(*shape) < .7] = 0
    if c["layout"] not in ("int", "single"):
        v = v*c["scale"]
    x = arrange(v, c["layout"])
    v = np.array(x, float)
    cp = np.array(x)
    sq = np.zeros_like(v)
    # own sum along the axis
    if axis is None:
        want = math.sqrt(sum(y*y for y in v.ravel().tolist()))
    else:
        m = np.moveaxis(v, axis, -1)
        want = np.array([math.sqrt(sum(y*y for y in row)) for row in
                         m.reshape(-1, m.shape[-1]).tolist()]).reshape(
                             m.shape[:-1])
    kw = {} if axis is None else dict(axis=axis)
    for nm, f in tf.impls("vector_norm"):
        n = f(x, **kw)
        check_equal(np.array(x), cp, "argument modified by " + nm)
        if axis is None:
            require(np.size(n) == 1, "size")
            check_close(float(np.ravel(n)[0]), want, rtol=1e-13,
                        what="norm " + nm)
        else:
            if v.ndim > 1:
                require(np.shape(n) == want.shape, "shape %s of the norms"
                        % (np.shape(n),))
            check_close(np.reshape(n, want.shape), want, rtol=1e-13,
                        what="norms " + nm)
        if axis is not None and v.ndim > 1 and c["out"] not in (None,
                                                                "self"):
            out = arrange(np.full(want.shape, np.nan), c["out"])
            r = f(x, axis=axis, out=out)
            require(r is None, "output returned")
            check_close(out, want, rtol=1e-13, what="output norms " + nm)
            check_equal(np.array(x), cp, "argument modified by " + nm)
    # normalized
    w = want if axis is None else np.expand_dims(want, axis)
    if np.any(w == 0):
        ctx.label("zero vector")
        return
    for nm, f in tf.impls("unit_vector"):
        u = f(x, **kw)
        check_equal(np.array(x), cp, "argument modified by " + nm)
        require(np.shape(u) == shape, "shape")
        check_close(u, v/w, rtol=1e-13, atol=1e-300, what="unit vector "
                    + nm)
        if isinstance(x, np.ndarray):
            require(not np.shares_memory(u, x), "result aliases argument")
        if c["out"] == "self":
            y = arrange(v, "step" if c["layout"] == "step" else "c")
            r = f(y, out=y, **kw)
            require(r is None, "output returned")
            check_close(y, v/w, rtol=1e-13, atol=1e-300,
                        what="normalized in place " + nm)
        elif c["out"] is not None:
            out = arrange(np.full(shape, np.nan), c["out"])
            r = f(x, out=out, **kw)
            require(r is None, "output returned")
            check_close(out, v/w, rtol=1e-13, atol=1e-300,
                        what="output unit vector " + nm)
            check_equal(np.array(x), cp, "argument modified by " + nm)
    ctx.label("%id" % v.ndim, "axis" if axis is not None else "all",
              c["layout"])
    ctx.nontrivial(v.ndim > 1)


# ----------------------------------------------------- products and angles

@st.composite
def _pair(draw):
    return dict(n=draw(st.integers(1, 5)), seed=draw(SEED),
                axis=draw(st.sampled_from([0, 1, -1, None])),
                layout=draw(st.sampled_from(["list", "c", "f", "step"])),
                kind=draw(st.sampled_from(["any", "any", "parallel",
                                           "opposite", "orthogonal",
                                           "broadcast"])),
                directed=draw(st.sampled_from([True, False, None])),
                scale=draw(st.sampled_from([1., 1e-3, 1e4, 1e-130, 1e130])),
                both=draw(st.booleans()))


def check_pair(c, ctx):
    import electrode.transformations as t
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    a = np.rint((rs.rand(n, 3) - .5)*60)/10
    a[np.abs(a).max(axis=1) < .1] = [.1, .2, .3]
    b = np.rint((rs.rand(n, 3) - .5)*60)/10
    b[np.abs(b).max(axis=1) < .1] = [.3, .2, -.1]
    if c["kind"] == "parallel":
        b = a*rs.randint(1, 5, (n, 1))/3.
    elif c["kind"] == "opposite":
        b = -a*rs.randint(1, 5, (n, 1))/3.
    elif c["kind"] == "orthogonal":
        b = np.cross(a, b + .3333)
        if np.any((b*b).sum(1) < 1e-6):
            ctx.skip("parallel")
    elif c["kind"] == "broadcast":
        b = b[:1]
    k = c["scale"]
    b = b*k
    ua = a/np.sqrt((a*a).sum(1))[:, None]
    if c["both"]:
        a = a*k
        k = k*k
    cross = np.array([[x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2],
                       x[0]*y[1] - x[1]*y[0]] for x, y in
                      zip(a, np.broadcast_to(b, a.shape))])
    ub = b/c["scale"]
    ub = ub/np.sqrt((ub*ub).sum(1))[:, None]
    ang = 2*np.arctan2(np.sqrt(((ua - ub)**2).sum(1)),
                       np.sqrt(((ua + ub)**2).sum(1)))
    kw = {} if c["axis"] is None else dict(axis=c["axis"])
    d = {} if c["directed"] is None else dict(directed=c["directed"])
    if c["directed"] is False:
        ang = np.minimum(ang, math.pi - ang)
    if c["axis"] in (0, None):
        a, b, cross = a.T, b.T, cross.T
    x, y = arrange(a, c["layout"]), arrange(b, c["layout"])
    cp = np.array(x), np.array(y)
    check_close(t.vector_product(x, y, **kw), cross, rtol=1e-12,
                atol=1e-12*k*20, what="vector product")
    with np.errstate(all="ignore"):
        r = t.angle_between_vectors(x, y, **dict(kw, **d))
    check_close(r, ang, atol=1e-7, what="angle")
    if n == 1 and c["axis"] in (0, None):
        x1, y1 = np.ravel(a), np.ravel(b)
        check_close(t.vector_product(list(x1), list(y1)), np.ravel(cross),
                    atol=1e-12*k*20, what="vector product")
        r = t.angle_between_vectors(list(x1), list(y1), **d)
        check_close(float(np.ravel(r)[0]), ang[0], atol=1e-7, what="angle")
    check_equal(np.array(x), cp[0], "first vectors modified")
    check_equal(np.array(y), cp[1], "second vectors modified")
    ctx.label(c["kind"])
    ctx.nontrivial()


# ---------------------------------------------------------------- matrices

@st.composite
def _grids(draw):
    return dict(shape=draw(st.lists(st.integers(1, 4), min_size=1,
                                    max_size=3)),
                seed=draw(SEED), axis=draw(st.integers(0, 3)),
                layout=draw(st.sampled_from(["list", "c", "f", "step"])),
                neg=draw(st.booleans()),
                scale=draw(st.sampled_from([1., 1e-3, 1e4])),
                one=draw(st.booleans()),
                directed=draw(st.sampled_from([True, False, None])))


def check_grids(c, ctx):
    """arrays of vectors with any number of dimensions: like one by one"""
    import electrode.transformations as t
    rs = np.random.RandomState(c["seed"])
    axis = c["axis"] % (len(c["shape"]) + 1)
    sh = list(c["shape"])
    a = rs.randn(*(sh + [3]))*c["scale"]
    b = rs.randn(*(sh + [3]))
    if c["one"]:
        b = np.broadcast_to(b.reshape(-1, 3)[0], a.shape).copy()
    b.reshape(-1, 3)[0] = -2.*a.reshape(-1, 3)[0]/c["scale"]
    cross = np.empty(a.shape)
    ang = np.empty(sh)
    for i in itertools.product(*map(range, sh)):
        x, y = a[i], b[i]
        cross[i] = [x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2],
                    x[0]*y[1] - x[1]*y[0]]
        x, y = x/math.sqrt(x @ x), y/math.sqrt(y @ y)
        ang[i] = 2*math.atan2(math.sqrt(((x - y)**2).sum()),
                              math.sqrt(((x + y)**2).sum()))
    if c["directed"] is False:
        ang = np.minimum(ang, math.pi - ang)
    a, b, cross = (np.moveaxis(v, -1, axis) for v in (a, b, cross))
    ax = axis - a.ndim if c["neg"] else axis
    kw = dict(axis=ax) if ax or c["neg"] else {}
    d = {} if c["directed"] is None else dict(directed=c["directed"])
    x, y = arrange(a, c["layout"]), arrange(b, c["layout"])
    cp = np.array(x), np.array(y)
    check_close(t.vector_product(x, y, **kw), cross, rtol=1e-12,
                atol=1e-13*np.abs(cross).max(), what="vector product")
    with np.errstate(all="ignore"):
        r = t.angle_between_vectors(x, y, **dict(kw, **d))
    check_equal(np.shape(r), tuple(sh), "shape of the angles")
    check_close(r, ang, atol=1e-7, what="angle")
    check_equal(np.array(x), cp[0], "first vectors modified")
    check_equal(np.array(y), cp[1], "second vectors modified")
    ctx.label("%i dimensions" % a.ndim)
    ctx.nontrivial(a.ndim > 2)


@st.composite
def _inverse(draw):
    return dict(n=draw(st.integers(1, 8)), seed=draw(SEED),
                kind=draw(st.sampled_from(["random", "integer", "pivot",
                                           "triangular", "singular"])),
                layout=draw(st.sampled_from(["list", "c", "f", "step", "t",
                                             "memory", "readonly", "neg",
                                             "int"])),
                scale=draw(st.sampled_from([1., 1., 1e-3, 1e-6, 1e5])),
                count=draw(st.integers(0, 4)))


def check_inverse(c, ctx):
    import electrode.transformations as t
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    M = (rs.rand(n, n) - .5)*4
    if c["kind"] in ("integer", "pivot"):
        M = rs.randint(-3, 4, (n, n))*1.
    if c["kind"] == "pivot":
        # zeros in the places of the first pivots
        M = np.eye(n)[rs.permutation(n)]*(1 + rs.randint(0, 3, n))
        if n > 2:
            M[0, 1] += 2.
    elif c["kind"] == "triangular":
        M = np.triu(M) + np.eye(n)*3
    elif c["kind"] == "singular":
        M[:, rs.randint(n)] = 0.
    M = M*c["scale"]
    if c["layout"] == "int":
        M = np.rint(M)
    x = memoryview(M.copy()) if c["layout"] == "memory" else arrange(
        M, c["layout"])
    cp = np.array(x)
    if c["kind"] == "singular":
        for nm, f in tf.impls("inverse_matrix"):
            raises(lambda: f(x), ValueError, np.linalg.LinAlgError)
        ctx.label("singular")
        return
    s = np.linalg.svd(M)[1]
    if s[-1] < 1e-3*s[0] or s[0] == 0:
        ctx.skip("badly conditioned")
    for nm, f in tf.impls("inverse_matrix"):
        r = f(x)
        check_equal(np.array(x), cp, "argument modified by " + nm)
        require(np.shape(r) == (n, n), "shape")
        tol = 1e-13*(s[0]/s[-1])**2
        check_close(np.dot(M, r), np.eye(n), atol=tol, what="M.inverse "
                    + nm)
        check_close(np.dot(r, M), np.eye(n), atol=tol, what="inverse.M "
                    + nm)
        if isinstance(x, np.ndarray):
            require(not np.shares_memory(r, x), "result aliases argument")
    # products of 4x4 matrices, in order
    A = [rs.rand(4, 4) - .5 for _ in range(c["count"])]
    B = [a.copy() for a in A]
    P = t.concatenate_matrices(*A)
    p = points = rs.rand(4, 3)
    for a in reversed(A):
        p = a.dot(p)
    check_close(P.dot(points), p, atol=1e-12, what="concatenation")
    for a, b in zip(A, B):
        check_equal(a, b, "matrix modified")
        require(a is not P, "aliased")
    ctx.label(c["kind"], "n>4" if n > 4 else "n<5")
    ctx.nontrivial(n > 1)


# ------------------------------------------------------ same transformation

@st.composite
def _same(draw):
    return dict(seed=draw(SEED), factor=draw(st.sampled_from(
        [1., -2., .1, 1e3])), entry=draw(st.integers(0, 15)),
        change=draw(st.sampled_from([0., 1e-12, 1e-3, -1e-3, .5])),
        form=draw(st.sampled_from(["list", "c", "f", "step"])))


def check_same(c, ctx):
    import electrode.transformations as t
    rs = np.random.RandomState(c["seed"])
    M = rs.rand(4, 4) + .5
    N = M.copy()
    N.flat[c["entry"]] *= 1 + c["change"]
    N = N*c["factor"]
    x, y = arrange(M, c["form"]), arrange(N, c["form"])
    cp = np.array(x), np.array(y)
    for nm, f in tf.impls("is_same_transform"):
        for p, q in ((x, y), (y, x)):
            require(bool(f(p, q)) == (abs(c["change"]) < 1e-9),
                    "is_same_transform %s: change by %s" % (nm, c["change"]))
        require(f(x, x), "the same matrix")
    check_equal(np.array(x), cp[0], "argument modified")
    check_equal(np.array(y), cp[1], "argument modified")
    q = rs.rand(4) + .1
    p = q.copy()
    p[c["entry"] % 4] *= 1 + c["change"]
    s = 1. if c["factor"] > 0 else -1.
    require(bool(t.is_same_quaternion(list(s*q), p)) ==
            (abs(c["change"]) < 1e-9), "is_same_quaternion")
    ctx.nontrivial(c["change"] != 0)


SUBS = [
    Sub("twins", _twins, check_twins, 2500, 60000,
        "routine with two versions", shards=2),
    Sub("norm", _norm, check_norm, 800, 20000, "more dimensions"),
    Sub("pair", _pair, check_pair, 400, 10000, "all"),
    Sub("arrays of vectors", _grids, check_grids, 300, 8000,
        "more than two dimensions"),
    Sub("inverse", _inverse, check_inverse, 600, 16000, "n > 1"),
    Sub("same", _same, check_same, 200, 4000, "different matrices"),
]
