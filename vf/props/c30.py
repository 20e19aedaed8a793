"""C30 elementary transformation matrices"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import tf
from ..core import Sub, pure, check_close, check_equal, require

SEED = st.integers(0, 10**6)


def same(got, want, what, rel=1e-8):
    """same transformation: equal up to a common factor"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    k = np.unravel_index(np.abs(want).argmax(), want.shape)
    require(np.isfinite(got).all() and got[k] != 0, "%s: %s" % (what, got))
    check_close(got/got[k]*want[k], want, atol=rel*np.abs(want).max(),
                what=what)


def unchanged(args, copies):
    for a, b in zip(args, copies):
        check_equal(np.array(a), b, "argument modified")


# ---------------------------------------------------------------- rotation

@st.composite
def _rotation(draw):
    return dict(angle=draw(tf.ANGLE), dir=draw(tf.direction()),
                point=draw(st.one_of(st.none(), tf.POINT)),
                form=draw(tf.FORM), seed=draw(SEED))


def check_rotation(c, ctx):
    import electrode.transformations as t
    d, p = tf.form(c["dir"], c["form"]), c["point"]
    if p is not None:
        p = tf.form(p, c["form"])
    R = tf.rodrigues(c["angle"], c["dir"])
    x = tf.points(c["seed"])
    p0 = np.zeros(3) if p is None else np.array(c["point"])
    size = 4 + np.abs(p0).max()
    y = (x - p0).dot(R.T) + p0
    for nm, f in tf.impls("rotation_matrix"):
        args = (d,) if p is None else (d, p)
        cp = [np.array(a) for a in args]
        M = tf.affine(f(c["angle"], *args), nm)
        unchanged(args, cp)
        check_close(M[:3, :3], R, atol=1e-12, what="rotation " + nm)
        check_close(tf.apply(M, x), y, atol=1e-12*size, what="points " + nm)
        if p is None:
            check_close(f(c["angle"], d, None), M, atol=0, what="no point")
        a, ax, q = t.rotation_from_matrix(M)
        require(abs(np.linalg.norm(ax[:3]) - 1) < 1e-9, "axis length")
        N = tf.rodrigues(a, ax[:3])
        check_close(N, R, atol=1e-7, what="recovered rotation")
        q = np.asarray(q)[:3]
        check_close((x - q).dot(N.T) + q, y, atol=1e-7*size,
                    what="recovered rotation of points")
        same(f(a, ax, q), M, "rebuilt rotation " + nm, 1e-7)
    ctx.nontrivial(abs(math.sin(c["angle"]/2)) > 1e-12)


# ------------------------------------------------------- reflection, scale

@st.composite
def _plane(draw):
    return dict(point=draw(tf.POINT), normal=draw(tf.direction()),
                form=draw(tf.FORM), seed=draw(SEED))


def check_reflection(c, ctx):
    import electrode.transformations as t
    p, n = tf.form(c["point"], c["form"]), tf.form(c["normal"], c["form"])
    x = tf.points(c["seed"])
    p0, u = np.array(c["point"]), tf.unit(c["normal"])
    size = 4 + np.abs(p0).max()
    y = x - 2*np.outer((x - p0).dot(u), u)
    for nm, f in tf.impls("reflection_matrix"):
        cp = [np.array(a) for a in (p, n)]
        M = tf.affine(f(p, n), nm)
        unchanged((p, n), cp)
        check_close(tf.apply(M, x), y, atol=1e-12*size, what="mirror " + nm)
        q, m = t.reflection_from_matrix(M)
        require(abs(np.linalg.norm(np.asarray(m)[:3]) - 1) < 1e-9,
                "normal length")
        require(abs(np.dot(np.asarray(q)[:3] - p0, u)) < 1e-6*size,
                "recovered point is off the plane")
        same(f(q, m), M, "rebuilt reflection " + nm, 1e-7)
    ctx.nontrivial(abs(p0.dot(u)) > 1e-6)


@st.composite
def _scale(draw):
    return dict(factor=draw(st.one_of(
        g.num(-5, 5, 2), st.sampled_from([1., -1., 0., 2., .5, 1.001]))),
        point=draw(st.one_of(st.none(), tf.POINT)),
        dir=draw(st.one_of(st.none(), tf.direction())),
        form=draw(tf.FORM), seed=draw(SEED))


def check_scale(c, ctx):
    import electrode.transformations as t
    f0 = c["factor"]
    p = c["point"] and tf.form(c["point"], c["form"])
    d = c["dir"] and tf.form(c["dir"], c["form"])
    p = None if c["point"] is None else p
    x = tf.points(c["seed"])
    p0 = np.zeros(3) if p is None else np.array(c["point"])
    size = (4 + np.abs(p0).max())*(1 + abs(f0))
    if d is None:
        y = p0 + f0*(x - p0)
    else:
        u = tf.unit(c["dir"])
        y = x + (f0 - 1)*np.outer((x - p0).dot(u), u)
    for nm, f in tf.impls("scale_matrix"):
        args = [f0, p, d]
        cp = [np.array(a) for a in (p, d) if a is not None]
        M = tf.affine(f(*args), nm)
        unchanged([a for a in (p, d) if a is not None], cp)
        check_close(tf.apply(M, x), y, atol=1e-12*size, what="scale " + nm)
        check_close(f(f0, origin=p, direction=d), M, atol=0, what="keywords")
        if d is None and p is None:
            check_close(f(f0), M, atol=0, what="factor only")
        k, q, e = t.scale_from_matrix(M)
        same(f(k, q, e), M, "rebuilt scaling " + nm, 1e-7)
        if f0 not in (1.,):
            check_close(k, f0, atol=1e-9*(1 + abs(f0)), what="factor")
            check_equal(e is None, d is None, "direction")
    ctx.label("directed" if d is not None else "uniform")
    ctx.nontrivial(f0 != 1)


# ------------------------------------------------------------- translation

@st.composite
def _translation(draw):
    return dict(d=draw(tf.POINT), form=draw(tf.FORM), seed=draw(SEED))


def check_translation(c, ctx):
    import electrode.transformations as t
    x = tf.points(c["seed"])
    d = tf.form(c["d"], c["form"])
    for nm, f in tf.impls("translation_matrix"):
        M = tf.affine(f(d), nm)
        check_close(tf.apply(M, x), x + np.array(c["d"]), atol=1e-12*100,
                    what="translation " + nm)
        v = t.translation_from_matrix(M)
        check_equal(np.asarray(v), np.array(c["d"]), "recovered")
        v[:] = 9
        check_equal(M[:3, 3], np.array(c["d"]), "aliased")
    for nm, f in tf.impls("identity_matrix"):
        M = f()
        check_equal(np.asarray(M), np.eye(4), "identity")
        M[0, 0] = 7
        check_equal(np.asarray(f()), np.eye(4), "fresh identity")
    ctx.nontrivial(any(c["d"]))


# -------------------------------------------------------------- projection

@st.composite
def _projection(draw):
    return dict(point=draw(tf.POINT), normal=draw(tf.direction()),
                kind=draw(st.sampled_from(["ortho", "dir", "persp",
                                           "pseudo"])),
                dir=draw(tf.direction()), persp=draw(tf.POINT),
                form=draw(tf.FORM), seed=draw(SEED))


def check_projection(c, ctx):
    import electrode.transformations as t
    p0, u = np.array(c["point"]), tf.unit(c["normal"])
    x = tf.points(c["seed"])
    d0, q0 = tf.unit(c["dir"]), np.array(c["persp"])
    k = c["kind"]
    if k == "dir" and abs(d0.dot(u)) < .05:
        ctx.skip("direction within the plane")
    if k in ("persp", "pseudo"):
        if abs((q0 - p0).dot(u)) < .05:
            ctx.skip("perspective point within the plane")
        x = x[np.abs((x - q0).dot(u)) > .05]
    size = 10 + np.abs(p0).max() + np.abs(q0).max()
    kw = {}
    if k == "dir":
        kw["direction"] = tf.form(c["dir"], c["form"])
    elif k != "ortho":
        kw["perspective"] = tf.form(c["persp"], c["form"])
        if k == "pseudo":
            kw["pseudo"] = True
    p, n = tf.form(c["point"], c["form"]), tf.form(c["normal"], c["form"])
    for nm, f in tf.impls("projection_matrix"):
        args = [p, n] + [v for v in kw.values() if v is not True]
        cp = [np.array(a) for a in args]
        M = np.asarray(f(p, n, **kw))
        unchanged(args, cp)
        require(M.shape == (4, 4), "shape")
        # where the ray through the point hits the plane
        if k in ("ortho", "dir"):
            tf.affine(M, nm)
            e = u if k == "ortho" else d0
            y = x - np.outer((x - p0).dot(u)/e.dot(u), e)
            check_close(tf.apply(M, x), y, atol=1e-11*size*20,
                        what="projection " + nm)
            r = t.projection_from_matrix(M)
        else:
            s = (q0 - p0).dot(u)/(q0 - x).dot(u)
            y = q0 + s[:, None]*(x - q0)
            z = tf.apply(M, x)
            if k == "pseudo":
                # keeps the relative depth
                depth = (z - p0).dot(u)
                z = z - np.outer(depth, u)
                h = (x - p0).dot(u)
                o = np.argsort(h)
                side = (x[o] - q0).dot(u) < 0
                for v in (side, ~side):
                    dd = np.diff(depth[o][v])
                    require(np.all(dd*dd[:1].sum() >= -1e-9*size**2),
                            "depth order " + nm)
            check_close(z, y, atol=1e-9*size*(1 + np.abs(s).max())*20,
                        what="projection " + nm)
            r = t.projection_from_matrix(M, pseudo=k == "pseudo")
            q, m, e, qq, ps = r
            check_close(np.asarray(qq)[:3], q0, atol=1e-9*size**2*20,
                        what="recovered perspective point")
            check_equal(bool(ps), k == "pseudo", "pseudo")
        q, m = np.asarray(r[0]), np.asarray(r[1])
        require(abs((q[:3] - p0).dot(u)) < 1e-7*size**2,
                "recovered point is off the plane")
        require(np.abs(np.cross(tf.unit(m[:3]), u)).max() < 1e-6,
                "recovered normal")
        same(f(*r), M, "rebuilt projection " + nm, 1e-6)
    ctx.label(k)
    ctx.nontrivial(len(x) > 0)


# -------------------------------------------------------------------- clip

@st.composite
def _clip(draw):
    b = []
    for _ in range(2):
        lo = draw(g.num(-5, 5, 2))
        b += [lo, lo + draw(g.num(.05, 9, 2))]
    near = draw(g.num(.05, 5, 2))
    persp = draw(st.booleans())
    if not persp and draw(st.booleans()):
        near = -near
    b += [near, near + draw(g.num(.05, 20, 2))]
    return dict(b=b, persp=persp, seed=draw(SEED), bad=draw(
        st.sampled_from([None, None, None, 0, 1, 2, 3])))


def check_clip(c, ctx):
    b = list(c["b"])
    bad = c["bad"]
    if bad in (0, 1, 2):
        b[2*bad:2*bad + 2] = b[2*bad:2*bad + 2][::-1]
    if bad == 3:
        if not c["persp"]:
            bad = None
        else:
            b[4] = -b[4]
    for nm, f in tf.impls("clip_matrix"):
        if bad is not None:
            try:
                f(*b, perspective=c["persp"])
            except ValueError:
                ctx.label("invalid")
                continue
            require(False, "invalid frustum accepted by " + nm)
        M = np.asarray(f(*b, perspective=c["persp"]))
        require(M.shape == (4, 4), "shape")
        if not c["persp"]:
            check_close(f(*b), M, atol=0, what="default")
        rng = np.random.RandomState(c["seed"])
        u = rng.rand(20, 3)*2.4 - 1.2
        u = np.r_[u, [[i, j, k] for i in (-1, 1) for j in (-1, 1)
                      for k in (-1, 1)]]
        l, r, bo, to, ne, fa = b
        if not c["persp"]:
            x = np.c_[l + (u[:, 0] + 1)/2*(r - l),
                      bo + (u[:, 1] + 1)/2*(to - bo),
                      ne + (u[:, 2] + 1)/2*(fa - ne)]
            tf.affine(M, nm)
            check_close(tf.apply(M, x), u, atol=1e-9*(1 + np.abs(b).max()/min(
                r - l, to - bo, fa - ne)), what="device coordinates " + nm)
        else:
            # the window at the near plane maps to the square, lines through
            # the origin stay lines with the same device x, y
            w = rng.rand(len(u))*(fa - ne)
            for s in (ne + 0*w, fa + 0*w, ne + w):
                x = np.c_[(l + (u[:, 0] + 1)/2*(r - l))/ne*s,
                          (bo + (u[:, 1] + 1)/2*(to - bo))/ne*s, s]
                v = tf.apply(M, x)
                tol = 1e-9*(1 + np.abs(b).max()/min(r - l, to - bo, fa - ne)
                            )*(1 + fa/ne)
                check_close(v[:, :2], u[:, :2], atol=tol,
                            what="device coordinates " + nm)
                if s[0] == ne and s[-1] == ne:
                    check_close(v[:, 2], -np.ones(len(s)), atol=tol,
                                what="near plane " + nm)
                elif s[0] == fa and s[-1] == fa:
                    check_close(v[:, 2], np.ones(len(s)), atol=tol,
                                what="far plane " + nm)
                else:
                    require((np.abs(v[:, 2]) <= 1 + tol).all(), "depth")
                    o = np.argsort(s)
                    require((np.diff(v[o, 2]) >= -tol).all(), "depth order")
    ctx.label("perspective" if c["persp"] else "box")
    ctx.nontrivial(bad is None)


# ------------------------------------------------------------------- shear

@st.composite
def _shear(draw):
    return dict(angle=draw(st.one_of(
        g.num(-7, 7, 3), st.sampled_from([0., math.pi/4, -math.pi/4,
                                          1e-3, 1e-6]))),
        dir=draw(tf.direction()), other=draw(tf.direction()),
        point=draw(tf.POINT), form=draw(st.sampled_from(
            ["list", "tuple", "array", "hom", "strided"])),
        bad=draw(st.sampled_from([0, 0, 0, 0, 1])), seed=draw(SEED))


def check_shear(c, ctx):
    import electrode.transformations as t
    d0 = tf.unit(c["dir"])
    n0 = np.cross(d0, tf.unit(c["other"]))
    if np.linalg.norm(n0) < .05:
        ctx.skip("no normal")
    if abs(math.cos(c["angle"])) < .02:
        ctx.skip("angle close to 90 deg")
    n0 = tf.unit(n0)
    p0 = np.array(c["point"])
    d, n, p = (tf.form(list(v), c["form"]) for v in (c["dir"], n0*3, p0))
    if c["bad"]:
        n = tf.form(list(n0 + .01*d0), c["form"])
    x = tf.points(c["seed"])
    tan = math.tan(c["angle"])
    y = x + tan*np.outer((x - p0).dot(n0), d0)
    size = (5 + np.abs(p0).max())*(1 + abs(tan))
    for nm, f in tf.impls("shear_matrix"):
        if c["bad"]:
            try:
                f(c["angle"], d, p, n)
            except ValueError:
                ctx.label("invalid")
                continue
            require(False, "oblique normal accepted by " + nm)
        cp = [np.array(a) for a in (d, p, n)]
        M = tf.affine(f(c["angle"], d, p, n), nm)
        unchanged((d, p, n), cp)
        check_close(tf.apply(M, x), y, atol=1e-11*size, what="shear " + nm)
        if abs(tan) > 1e-7:
            r = t.shear_from_matrix(M)
            a, e, q, m = [np.asarray(v, float) for v in r]
            check_close(abs(math.tan(a)), abs(tan), atol=1e-7*(1 + tan*tan),
                        what="recovered angle")
            require(abs((q[:3] - p0).dot(n0)) < 1e-6*size/min(abs(tan), 1.),
                    "recovered point is off the plane")
            same(f(*r), M, "rebuilt shear " + nm, 1e-6)
    ctx.nontrivial(abs(tan) > 1e-7 and not c["bad"])


SUBS = [
    Sub("rotation", _rotation, check_rotation, 800, 20000,
        "angle is no multiple of 2 pi", shards=2),
    Sub("reflection", _plane, check_reflection, 400, 10000,
        "plane not through the origin"),
    Sub("scale", _scale, check_scale, 600, 10000, "factor is not one"),
    Sub("translation", _translation, check_translation, 200, 3000,
        "not zero"),
    Sub("projection", _projection, check_projection, 1000, 20000,
        "points to project"),
    Sub("clip", _clip, check_clip, 500, 10000, "valid volume"),
    Sub("shear", _shear, check_shear, 800, 15000,
        "shear by a finite angle"),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    rotation=(200, 6000),
    projection=(200, 6000),
    shear=(150, 4000),
    reflection=(100, 3000),
    clip=(100, 3000),
).get(s.name)] if a]
