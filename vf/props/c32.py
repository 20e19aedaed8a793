"""C32 composed transforms and registration of point sets"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import tf
from ..core import Sub, pure, check_close, check_equal, raises, require

SEED = st.integers(0, 10**6)
FACTOR = st.one_of(g.num(.2, 3, 2), g.num(-3, -.2, 2),
                   st.sampled_from([1., -1., 1e-3, 50.]))
ANG = st.one_of(g.num(-4, 4, 3), st.sampled_from(
    [0., math.pi/2, -math.pi/2, math.pi, math.pi/2 - 1e-9,
     math.pi/2 + 1e-5, 1e-6]))
VEC = g.vec(-3, 3, 3, 2)


def product(scale, shear, angles, translate, perspective):
    """perspective . translation . rotation . shear . scale, applied to a
    frame of points one step after the other"""
    F = np.eye(4)
    if scale is not None:
        F = np.diag(list(scale) + [1.]).dot(F)
    if shear is not None:
        xy, xz, yz = shear
        F = np.array([[1, xy, xz, 0], [0, 1, yz, 0], [0, 0, 1, 0],
                      [0, 0, 0, 1.]]).dot(F)
    if angles is not None:
        for k, a in zip("xyz", angles):
            F[:3] = tf.elementary(k, a).dot(F[:3])
    if translate is not None:
        F[:3] += np.outer(translate, F[3])
    if perspective is not None:
        F[3] = np.dot(perspective, F)
    return F


# ----------------------------------------------------------------- compose

@st.composite
def _compose(draw):
    def maybe(s):
        return draw(s) if draw(st.integers(0, 4)) else None
    k = draw(st.integers(0, 3))
    sc = [draw(FACTOR) for _ in range(3)]
    if k == 0:
        sc = [abs(x) for x in sc]
    elif k == 1:
        sc = [-abs(x) for x in sc]
    p = None
    if draw(st.integers(0, 2)) == 0:
        p = draw(st.lists(g.num(-.5, .5, 2), min_size=3, max_size=3)) + [
            draw(st.one_of(g.num(.5, 2, 2), st.just(1.)))]
    return dict(scale=sc if draw(st.integers(0, 4)) else None,
                shear=maybe(VEC), angles=maybe(st.lists(
                    ANG, min_size=3, max_size=3)),
                translate=maybe(tf.POINT), perspective=p,
                unit=draw(st.booleans()), factor=draw(st.sampled_from(
                    [1., 1., 2.5, -.5])), kw=draw(st.booleans()),
                form=draw(st.sampled_from(["list", "tuple", "array"])))


def check_compose(c, ctx):
    import electrode.transformations as t
    p = [c[k] for k in ("scale", "shear", "angles", "translate",
                        "perspective")]
    if p[4] is not None and p[3] is not None and np.abs(p[3]).max() > 300:
        ctx.skip("far from the origin of a perspective")
    if p[4] is not None and c["unit"]:
        # such that the matrix is normalized from the start
        tr = p[3] if p[3] is not None else [0, 0, 0]
        p[4] = p[4][:3] + [1. - sum(a*b for a, b in zip(p[4], tr))]
    args = [None if x is None else tf.form(x, c["form"]) for x in p]
    want = product(*p)
    if abs(want[3, 3]) < .05:
        ctx.skip("origin near infinity")
    want = want/want[3, 3]
    if c["kw"]:
        M = t.compose_matrix(**{k: v for k, v in zip(
            ("scale", "shear", "angles", "translate", "perspective"), args)
            if v is not None})
    else:
        M = t.compose_matrix(*args)
    size = np.abs(want).max()
    check_close(M, want, atol=1e-12*(1 + size), what="compose_matrix")
    cond = np.linalg.cond(M[:3, :3])
    if cond > 1e7 or np.linalg.cond(M) > 1e8:
        ctx.skip("badly conditioned")
    N = M*c["factor"]
    cp = N.copy()
    d = t.decompose_matrix(N)
    check_equal(N, cp, "argument modified")
    require(len(d) == 5, "five factors")
    for x, n in zip(d, (3, 3, 3, 3, 4)):
        require(np.shape(x) == (n,) and np.isfinite(x).all(),
                "factors %s" % (d,))
    tol = 1e-11*(1 + size)*cond
    if p[4] is not None:
        tol *= 1 + np.linalg.cond(want)
    check_close(t.compose_matrix(*d), want, atol=tol, what="recomposed")
    check_close(product(*d)/product(*d)[3, 3], want, atol=tol,
                what="product of the factors")
    sc, sh, an, tr, pe = d
    require((sc > 0).all() or (sc < 0).all(), "signs of the scales")
    require(abs(an[1]) <= math.pi/2 + 1e-12, "range of the angle")
    if p[4] is None:
        check_equal(np.asarray(pe), np.r_[0, 0, 0, 1.], "perspective")
        check_close(tr, p[3] if p[3] is not None else [0, 0, 0],
                    atol=1e-12*(1 + np.abs(tr).max()), what="translation")
    # the factors are unique up to common signs of two of the axes
    s0 = np.array(p[0] if p[0] is not None else [1, 1, 1.])
    if p[4] is None or c["unit"]:
        check_close(np.abs(sc), np.abs(s0), rtol=tol*10/np.abs(s0).min(),
                    what="scale factors")
        if (s0 > 0).all() or (s0 < 0).all():
            check_close(sc, s0, rtol=tol*10/np.abs(s0).min(),
                        what="signed scale factors")
            check_close(sh, p[1] if p[1] is not None else [0, 0, 0],
                        atol=tol*100/np.abs(s0).min(), what="shear")
            a0 = p[2] if p[2] is not None else [0, 0, 0]
            check_close(tf.euler(an, "sxyz"), tf.euler(a0, "sxyz"),
                        atol=tol*100/np.abs(s0).min(), what="rotation")
            ctx.label("unique")
            if abs(math.cos(a0[1])) < 1e-4:
                ctx.label("gimbal lock")
    # degenerate
    S = M.copy()
    S[:3, 0] = 0.
    raises(lambda: t.decompose_matrix(S), ValueError)
    S = M.copy()
    S[3, 3] = 0.
    raises(lambda: t.decompose_matrix(S), ValueError)
    ctx.nontrivial(sum(x is not None for x in p) >= 3)


# --------------------------------------------------- crystallographic cell

@st.composite
def _cell(draw):
    return dict(lengths=draw(st.lists(g.num(.1, 20, 1), min_size=3,
                                      max_size=3)),
                angles=draw(st.lists(st.one_of(
                    g.num(50, 120, 1), st.sampled_from([90., 60., 90.])),
                    min_size=3, max_size=3)),
                form=draw(st.sampled_from(["list", "tuple", "array"])))


def check_cell(c, ctx):
    a, b, d = c["angles"]
    ca, cb, cg = [math.cos(math.radians(x)) for x in c["angles"]]
    vol2 = 1 - ca*ca - cb*cb - cg*cg + 2*ca*cb*cg
    if vol2 < .01:
        ctx.skip("flat cell")
    L = np.array(c["lengths"])
    G = np.array([[1, cg, cb], [cg, 1, ca], [cb, ca, 1]])*np.outer(L, L)
    for nm, f in tf.impls("orthogonalization_matrix"):
        M = tf.affine(f(tf.form(c["lengths"], c["form"]),
                        tf.form(c["angles"], c["form"])), nm)
        require((M[:3, 3] == 0).all(), "translation")
        E = M[:3, :3]
        check_close(E.T.dot(E), G, atol=1e-10*G.max(),
                    what="lengths and angles of the cell " + nm)
        check_close(np.linalg.det(E), L.prod()*math.sqrt(vol2),
                    rtol=1e-9, what="right-handed cell " + nm)
        # c along z, b in the y-z-plane
        check_close([E[0, 1], E[0, 2], E[1, 2]], [0, 0, 0], atol=1e-12,
                    what="orientation " + nm)
        require(E[1, 1] > 0 and E[2, 2] > 0 and E[0, 0] > 0, "orientation")
    ctx.nontrivial(len(set(c["angles"])) > 1)


# ------------------------------------------------------------ registration

@st.composite
def _register(draw):
    nd = draw(st.sampled_from([2, 2, 3, 3, 3, 4]))
    return dict(ndims=nd, n=draw(st.one_of(
        st.integers(nd, 12), st.integers(nd, 12), st.integers(13, 200))),
        seed=draw(SEED),
                integer=draw(st.booleans()), flat=draw(st.integers(0, 5)),
                kind=draw(st.sampled_from(["rigid", "similarity", "affine"])),
                svd=draw(st.booleans()), scale=draw(st.sampled_from(
                    [1., 2.5, .01, 30., 1e-6, 1e6])), shift=draw(st.sampled_from(
                        [0., 1., 100.])),
                layout=draw(st.sampled_from(
                    ["list", "c", "f", "strided", "reversed", "int"])),
                layout1=draw(st.sampled_from(
                    [None, None, "list", "c", "f", "strided", "reversed"])),
                noise=draw(st.sampled_from([0., 0., 0., 1e-3, .3, 10.])),
                unit=draw(st.sampled_from([1., 1., 1e-9, 1e-6, 1e-3, .03, 200.,
                                           1e3, 1e6])),
                mirror=draw(st.booleans()), defaults=draw(st.booleans()))


def rotation_nd(n, rs):
    q, r = np.linalg.qr(rs.randn(n, n))
    q = q*np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def layout(v, kind):
    if kind == "list":
        return [list(r) for r in v]
    if kind == "f":
        return np.asfortranarray(v)
    if kind == "strided":
        b = np.full((v.shape[0], 2*v.shape[1], 3), 99.)
        b[:, ::2, 1] = v
        return b[:, ::2, 1]
    if kind == "reversed":
        return np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
    if kind == "int" and np.all(v == np.rint(v)):
        return v.astype(int)
    return np.ascontiguousarray(v)


def best_overlap(a, b):
    """max over proper rotations R of sum b.(R a) for centered a, b, and
    the distance to the second stationary value"""
    n = len(a)
    if n == 2:
        return math.hypot((a*b).sum(), (a[0]*b[1] - a[1]*b[0]).sum()), None
    if n == 3:
        def f(q):
            q = np.array(q, float)
            return (b*tf.quat_rotation(q).dot(a)).sum()*q.dot(q)
        E = np.eye(4)
        N = np.empty((4, 4))
        for i in range(4):
            for j in range(4):
                N[i, j] = f(E[i]) if i == j else (
                    f(E[i] + E[j]) - f(E[i]) - f(E[j]))/2
        w = np.linalg.eigvalsh(N)
        return w[-1], w[-1] - w[-2]
    s = np.linalg.svd(b.dot(a.T))
    d = np.linalg.det(s[0].dot(s[2]))
    return s[1][:-1].sum() + (s[1][-1] if d > 0 else -s[1][-1]), None


def check_register(c, ctx):
    import electrode.transformations as t
    nd, kind = c["ndims"], c["kind"]
    rs = np.random.RandomState(c["seed"])
    v0 = rs.rand(nd, c["n"])*8 - 4
    if c["integer"]:
        v0 = np.rint(v0)
    if c["flat"] == 0 and kind != "affine":
        v0[-1] = 1.
    A = rotation_nd(nd, rs)
    if c["integer"]:
        # quarter turns
        A = np.roll(np.eye(nd), 1, axis=0)
        if np.linalg.det(A) < 0:
            A[0] *= -1
    s = 1.
    if kind == "similarity":
        s = c["scale"]
    if kind == "affine":
        A = rs.rand(nd, nd)*4 - 2
    shift = np.rint(rs.rand(nd)*10)*c["shift"]
    v1 = s*A.dot(v0) + shift[:, None]
    noise = c["noise"] if kind != "affine" else 0.
    if noise:
        v1 = v1 + s*noise*rs.randn(*v1.shape)
        if c["mirror"]:
            v1[0] *= -1
            ctx.label("mirrored")
    a, b = (v - v.mean(axis=1)[:, None] for v in (v0, v1))
    sv = np.linalg.svd(a)[1]
    rank = nd if kind == "affine" else nd - 1
    if sv[rank - 1] < .05*sv[0] or sv[0] < .5:
        ctx.skip("no unique map")
    layouts = c["layout"], c["layout1"] or c["layout"]
    # any unit of length
    unit = c.get("unit", 1.)
    u0, u1 = v0*unit, v1*unit
    x0, x1 = layout(u0, layouts[0]), layout(u1, layouts[1])
    cp = np.array(x0), np.array(x1)
    shear, scale = kind == "affine", kind == "similarity"
    runs = []
    svd = c["svd"]
    if shear:
        runs.append(("affine", lambda: t.affine_matrix_from_points(x0, x1)))
        runs.append(("affine", lambda: t.affine_matrix_from_points(
            x0, x1, True, c["mirror"], svd)))
    else:
        if c["defaults"] and scale:
            runs.append(("similarity", lambda: t.affine_matrix_from_points(
                x0, x1, shear=False)))
        runs.append((kind, lambda: t.affine_matrix_from_points(
            x0, x1, shear=False, scale=scale, usesvd=svd)))
        if nd == 3:
            for nm, f in tf.impls("superimposition_matrix"):
                runs.append((nm, lambda f=f: f(x0, x1, scale=scale,
                                               usesvd=svd)))
                if c["defaults"] and not scale:
                    runs.append((nm, lambda f=f: f(x0, x1)))
                # homogeneous points
                h = [layout(np.r_[v, np.ones((1, c["n"]))], k)
                     for v, k in zip((u0, u1), layouts)]
                runs.append((nm, lambda f=f, h=h: f(h[0], h[1], scale,
                                                    svd)))
    size = np.abs(v0).max() + 1
    for nm, f in runs:
        M = f()
        check_equal(np.array(x0), cp[0], "first set modified by " + nm)
        check_equal(np.array(x1), cp[1], "second set modified by " + nm)
        require(M.shape == (nd + 1, nd + 1), "shape of the matrix")
        check_close(M[nd], np.r_[np.zeros(nd), 1], atol=1e-12,
                    what="last row " + nm)
        L, T = M[:nd, :nd], M[:nd, nd]/unit
        if not noise:
            tol = 1e-10*(1 + np.abs(v1).max())
            check_close(L.dot(v0) + T[:, None], v1, atol=tol*size,
                        what="registered points " + nm)
            if sv[-1] > .05*sv[0] or nd == 3 and not shear:
                check_close(L, s*A, atol=100*tol, what="map " + nm)
                check_close(T, shift, atol=1000*tol, what="shift " + nm)
            continue
        # least squares of the rigid part, centroids on each other
        sc = abs(np.linalg.det(L))**(1./nd)
        if scale:
            check_close(sc, math.sqrt((b*b).sum()/(a*a).sum()), rtol=1e-8,
                        what="ratio of the sizes " + nm)
        else:
            check_close(sc, 1., rtol=1e-8, what="rigid " + nm)
        R = L/sc
        require(np.abs(R.dot(R.T) - np.eye(nd)).max() < 1e-8
                and np.linalg.det(R) > 0, "not a rotation: %s" % nm)
        check_close(L.dot(v0.mean(axis=1)) + T, v1.mean(axis=1),
                    atol=1e-9*(1 + np.abs(v1).max()), what="centroids " + nm)
        best, gap = best_overlap(a, b)
        check_close((b*R.dot(a)).sum(), best,
                    atol=1e-8*math.sqrt((a*a).sum()*(b*b).sum()),
                    what="least squares " + nm)
    # bad arguments
    raises(lambda: t.affine_matrix_from_points(v0, v1[:, 1:]), ValueError)
    raises(lambda: t.affine_matrix_from_points(
        v0[:, :nd-1], v1[:, :nd-1]), ValueError)
    raises(lambda: t.affine_matrix_from_points(v0[:1], v1[:1]), ValueError)
    ctx.label(kind, "noise" if noise else "exact", "%id" % nd)
    ctx.nontrivial()


SUBS = [
    Sub("compose", _compose, check_compose, 1200, 30000,
        "three or more factors", shards=2),
    Sub("cell", _cell, check_cell, 200, 4000, "different angles"),
    Sub("register", _register, check_register, 900, 24000,
        "points that determine the map", shards=2),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    compose=(300, 8000),
    register=(200, 6000),
    cell=(60, 1500),
).get(s.name)] if a]
