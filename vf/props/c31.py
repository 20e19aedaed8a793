"""C31 Euler angles, quaternions and rotation matrices"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import tf
from ..core import Sub, pure, check_close, check_equal, require

SEED = st.integers(0, 10**6)
COMP = st.one_of(g.num(-2, 2, 2), st.sampled_from([0., 0., 1., -1., .5,
                                                   1e-9, 30.]))


@st.composite
def quat(draw):
    q = draw(st.lists(COMP, min_size=4, max_size=4))
    if sum(x*x for x in q) < 1e-4:
        q[draw(st.integers(0, 3))] = draw(st.sampled_from([1., -1.]))
    # of any length
    f = draw(st.sampled_from([1.]*8 + [1e-5, 1e-3, 1e3, 1e5]))
    return [x*f for x in q]


@st.composite
def unit_angle(draw):
    """axis and angle: includes half turns and tiny angles"""
    return [draw(tf.ANGLE), draw(tf.direction())]


def same_q(a, b, what, tol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == (4,), "%s: shape %s" % (what, a.shape))
    d = min(np.abs(a - b).max(), np.abs(a + b).max())
    require(d <= tol, "%s: %s is not +-%s" % (what, a, b))


# ------------------------------------------------------------------- euler

@st.composite
def _euler(draw):
    return dict(angles=[draw(tf.ANGLE) for _ in range(3)],
                axes=draw(st.sampled_from(tf.AXES)),
                tuple=draw(st.booleans()), to=draw(st.sampled_from(tf.AXES)),
                noise=draw(st.booleans()), default=draw(st.booleans()))


def check_euler(c, ctx):
    import electrode.transformations as t
    name = "sxyz" if c["default"] else c["axes"]
    want = tf.euler(c["angles"], name)
    if c["default"]:
        kw = {}
    elif c["tuple"]:
        kw = dict(axes=t._AXES2TUPLE[name])
    else:
        kw = dict(axes=name)
    to = {} if c["default"] else dict(axes=t._AXES2TUPLE[c["to"]]
                                      if c["tuple"] else c["to"])
    to_name = "sxyz" if c["default"] else c["to"]
    M0 = np.eye(4)
    M0[:3, :3] = want
    if c["noise"]:
        # any rotation matrix comes with rounding errors
        M0[:3, :3] = want.dot(tf.rodrigues(.3, [1, 2, 3])).dot(
            tf.rodrigues(-.3, [1, 2, 3]))
    for nm, f in tf.impls("euler_matrix"):
        M = tf.affine(f(*c["angles"], **kw), nm)
        check_close(M[:3, :3], want, atol=1e-12, what="euler_matrix " + nm)
        require((M[:3, 3] == 0).all(), "translation")
    for nm, f in tf.impls("quaternion_from_euler"):
        q = np.asarray(f(*c["angles"], **kw))
        check_close(np.dot(q, q), 1., atol=1e-12, what="norm " + nm)
        check_close(tf.quat_rotation(q), want, atol=1e-12,
                    what="quaternion_from_euler " + nm)
        a = t.euler_from_quaternion(q, **to)
        check_close(tf.euler(a, to_name), want, atol=1e-9,
                    what="euler_from_quaternion")
    for nm, f in tf.impls("euler_from_matrix"):
        cp = M0.copy()
        a = f(M0, **to)
        check_equal(M0, cp, "argument modified")
        require(len(a) == 3 and np.isfinite(a).all(), "angles %s" % (a,))
        check_close(tf.euler(a, to_name), want, atol=1e-9,
                    what="euler_from_matrix " + nm)
        # canonical ranges
        m = a[1]
        if to_name[1] == to_name[3]:
            ok = -1e-9 <= m <= math.pi + 1e-9 or \
                -math.pi - 1e-9 <= m <= 1e-9
        else:
            ok = abs(m) <= math.pi/2 + 1e-9
        require(ok and max(abs(v) for v in a) <= math.pi + 1e-9,
                "range of the angles %s" % (a,))
    # invalid axes
    for nm, f in tf.impls("euler_matrix"):
        try:
            f(1., 2., 3., "sxxy")
        except Exception:
            pass
        else:
            require(False, "invalid axes accepted by " + nm)
    e = M0[:3, :3]
    ctx.label("repeated" if to_name[1] == to_name[3] else "distinct",
              to_name[0])
    i = "xyz".index(to_name[1])
    ctx.nontrivial(np.abs(want - np.eye(3)).max() > 1e-6)


# ------------------------------------------------------------- quaternions

@st.composite
def _quat(draw):
    return dict(q=draw(quat()), p=draw(quat()), aa=draw(unit_angle()),
                form=draw(st.sampled_from(["list", "tuple", "array"])))


def check_quat(c, ctx):
    import electrode.transformations as t
    q, p = (tf.form(v, c["form"]) for v in (c["q"], c["p"]))
    q0, p0 = np.array(c["q"]), np.array(c["p"])
    n = q0.dot(q0)
    cp = np.array(q)
    R, S = tf.quat_rotation(q0), tf.quat_rotation(p0)
    for nm, f in tf.impls("quaternion_matrix"):
        M = tf.affine(f(q), nm)
        require((M[:3, 3] == 0).all(), "translation")
        check_close(M[:3, :3], R, atol=1e-12, what="quaternion_matrix " + nm)
        check_equal(np.array(q), cp, "argument modified by " + nm)
    for nm, f in tf.impls("quaternion_multiply"):
        r = np.asarray(f(q, p))
        check_close(r, tf.quat_mul(q0, p0), atol=1e-14*math.sqrt(
            n*p0.dot(p0)), what="quaternion_multiply " + nm)
        check_close(t.quaternion_matrix(r)[:3, :3], R.dot(S), atol=1e-10,
                    what="composition")
    for nm, f in tf.impls("quaternion_conjugate"):
        r = np.asarray(f(q))
        check_equal(r, np.r_[q0[0], -q0[1:]] + 0., "conjugate " + nm)
        check_close(t.quaternion_matrix(r)[:3, :3], R.T, atol=1e-12,
                    what="transposition")
    for nm, f in tf.impls("quaternion_inverse"):
        r = np.asarray(f(q))
        check_close(tf.quat_mul(q0, r), [1, 0, 0, 0], atol=1e-12,
                    what="inverse " + nm)
        check_close(tf.quat_mul(r, q0), [1, 0, 0, 0], atol=1e-12,
                    what="inverse " + nm)
    check_equal(np.array(q), cp, "argument modified")
    check_equal(t.quaternion_real(q), q0[0], "real")
    im = t.quaternion_imag(q)
    check_equal(np.asarray(im), q0[1:], "imag")
    im[0] += 1
    check_equal(np.array(q), cp, "imag aliased")
    u = q0/math.sqrt(n)
    for nm, f in tf.impls("quaternion_from_matrix"):
        H = np.eye(4)
        H[:3, :3] = R
        for kw in ({}, dict(isprecise=False), dict(isprecise=True)):
            h = H.copy()
            r = f(h, **kw)
            check_equal(h, H, "argument modified")
            same_q(r, u, "quaternion_from_matrix %s %s" % (nm, kw), 1e-7)
    # axis and angle
    a, d = c["aa"]
    for nm, f in tf.impls("quaternion_about_axis"):
        r = np.asarray(f(a, tf.form(d, c["form"])))
        w = np.r_[math.cos(a/2), math.sin(a/2)*tf.unit(d)]
        check_close(r, w, atol=1e-12, what="quaternion_about_axis " + nm)
    same = t.is_same_quaternion
    require(same(q, q) and same(q, -q0), "a quaternion and its negative")
    require(not same(u, tf.quat_mul(u, [math.cos(.1), math.sin(.1), 0, 0])),
            "different quaternions")
    ctx.nontrivial(np.abs(q0[1:]).max() > 1e-6)


# --------------------------------------- quaternions of imprecise matrices

@st.composite
def _precise(draw):
    return dict(aa=draw(unit_angle()), eps=draw(st.sampled_from(
        [0., 1e-9, 1e-6, 1e-3])), s=draw(st.sampled_from([1., 1., 1., 2.,
                    .1, 1e-6, 1e-3, 1e3, 1e6])), seed=draw(SEED))


def check_precise(c, ctx):
    a, d = c["aa"]
    M = np.eye(4)
    R = tf.rodrigues(a, d)
    M[:3, :3] = R + c["eps"]*(np.random.RandomState(c["seed"]).rand(3, 3)
                              - .5)
    w = np.r_[math.cos(a/2), math.sin(a/2)*tf.unit(d)]
    for nm, f in tf.impls("quaternion_from_matrix"):
        r = f(M)
        check_close(np.dot(r, r), 1., atol=1e-9, what="norm " + nm)
        same_q(r, w, "nearest rotation " + nm, 1e-7 + 2*c["eps"])
        if c["eps"] == 0:
            # homogeneous matrices have any common factor
            same_q(f(M*c["s"], isprecise=True), w, "scaled " + nm, 1e-7)
        same_q(f(M*c["s"]), w, "nearest rotation, scaled " + nm,
               1e-7 + 2*c["eps"])
    ctx.nontrivial(c["eps"] > 0)


# ----------------------------------------------------------- interpolation

@st.composite
def _slerp(draw):
    return dict(p=draw(quat()), aa=draw(unit_angle()),
                f=draw(st.one_of(g.num(0, 1, 2), st.sampled_from(
                    [0., 1., .5, 2., -.5, 1.5, -1.]))), spin=draw(
                    st.sampled_from([0, 0, 0, 2, -2])),
                short=draw(st.sampled_from([True, True, False])),
                len=draw(st.sampled_from([1., 1., 3., .2])),
                neg=draw(st.booleans()), default=draw(st.booleans()),
                form=draw(st.sampled_from(["list", "tuple", "array"])))


def check_slerp(c, ctx):
    p0 = np.array(c["p"])
    p0 = p0/math.sqrt(p0.dot(p0))
    a, d = c["aa"]
    s = np.r_[math.cos(a/2), math.sin(a/2)*tf.unit(d)]
    q0 = tf.quat_mul(s, p0)
    if c["neg"]:
        q0 = -q0
    dot = p0.dot(q0)
    if 1 - abs(dot) < 1e-13:
        ctx.label("same rotation")
    p = tf.form(list(p0*c["len"]), c["form"])
    q = tf.form(list(q0*c["len"]), c["form"])
    f0 = c["f"]
    spin, short = (0, True) if c["default"] else (c["spin"], c["short"])
    # 4-d rotation in the plane of the two unit vectors; for almost parallel
    # ones the plane is undefined
    if 1 - abs(dot) < 1e-8 and (spin or dot < 0 and not short):
        ctx.skip("undefined plane")
    cp = np.array(p), np.array(q)
    for nm, f in tf.impls("quaternion_slerp"):
        r = np.asarray(f(p, q, f0) if c["default"] else
                       f(p, q, f0, spin, short))
        check_equal(np.array(p), cp[0], "first argument modified")
        check_equal(np.array(q), cp[1], "second argument modified")
        if f0 in (0., 1.):
            check_close(r, (p0, q0)[int(f0)], atol=1e-12, what="end " + nm)
            continue
        check_close(r.dot(r), 1., atol=1e-7, what="norm " + nm)
        e = q0 if dot >= 0 or not short else -q0
        cosa = min(1., max(-1., p0.dot(e)))
        b = e - cosa*p0
        if math.sqrt(b.dot(b)) < 1e-7:
            check_close(r, p0, atol=2e-7*(1 + abs(f0)), what="same " + nm)
            continue
        b = b/math.sqrt(b.dot(b))
        ang = math.atan2(e.dot(b), cosa) + spin*math.pi
        want = math.cos(f0*ang)*p0 + math.sin(f0*ang)*b
        # accuracy of the angle from the cosine, amplified near opposites
        tol = min(1e-7, 1e-10 + 1e-15/math.sin(ang)**2)*(1 + abs(f0))
        if short and abs(dot) < 1e-12:
            # opposite rotations: both ways are equally long
            alt = math.cos(f0*ang)*p0 - math.sin(f0*ang)*b
            if np.abs(r - alt).max() < np.abs(r - want).max():
                want = alt
        check_close(r, want, atol=tol, what="interpolation " + nm)
        if spin == 0 and short and 0 <= f0 <= 1:
            # constant speed shortest rotation of the matrices
            A = tf.quat_rotation(p0).T.dot(tf.quat_rotation(r))
            B = tf.quat_rotation(p0).T.dot(tf.quat_rotation(q0))

            def angle(X):
                v = np.array([X[2, 1] - X[1, 2], X[0, 2] - X[2, 0],
                              X[1, 0] - X[0, 1]])
                return math.atan2(math.sqrt(v.dot(v)), np.trace(X) - 1)
            check_close(angle(A), f0*angle(B), atol=1e-6,
                        what="angle of the rotation " + nm)
    ctx.nontrivial(f0 not in (0., 1.) and 1 - abs(dot) > 1e-8)


# ------------------------------------------------------ random quaternions

@st.composite
def _random(draw):
    r = g.num(0, .999, 3)
    return dict(rand=[draw(r), draw(r), draw(r)], n=draw(st.integers(1, 3)),
                form=draw(st.sampled_from(["list", "array", "none"])))


def check_random(c, ctx):
    import electrode.transformations as t
    rand = None if c["form"] == "none" else tf.form(c["rand"], c["form"])
    a, b, d = c["rand"]
    for nm, f in tf.impls("random_quaternion"):
        q = np.asarray(f(rand))
        require(q.shape == (4,), "shape")
        check_close(q.dot(q), 1., atol=1e-12, what="norm " + nm)
        if rand is None:
            require(not np.array_equal(q, f()), "not random")
        else:
            # Shoemake's uniform rotations
            w = [math.cos(2*math.pi*d)*math.sqrt(a),
                 math.sin(2*math.pi*b)*math.sqrt(1 - a),
                 math.cos(2*math.pi*b)*math.sqrt(1 - a),
                 math.sin(2*math.pi*d)*math.sqrt(a)]
            check_close(q, w, atol=1e-12, what="random quaternion " + nm)
    for nm, f in tf.impls("random_rotation_matrix"):
        M = tf.affine(f(rand), nm)
        tf.proper(M, nm)
        require((M[:3, 3] == 0).all(), "translation")
        if rand is not None:
            check_close(M, t.quaternion_matrix(t.random_quaternion(rand)),
                        atol=1e-12, what="same as the quaternion's " + nm)
    for nm, f in tf.impls("random_vector"):
        v = f(50*c["n"])
        require(np.shape(v) == (50*c["n"],) and (v >= 0).all()
                and (v < 1).all(), "random vector " + nm)
        require(not np.array_equal(v, f(50*c["n"])), "not random")
        require(len(set(v.tolist())) > 40*c["n"], "repeats")
    ctx.nontrivial()


SUBS = [
    Sub("euler", _euler, check_euler, 1500, 40000, "not the identity",
        shards=2),
    Sub("quaternion", _quat, check_quat, 800, 20000, "a rotation",
        shards=2),
    Sub("imprecise", _precise, check_precise, 300, 8000,
        "matrix with errors"),
    Sub("slerp", _slerp, check_slerp, 800, 20000,
        "between different rotations"),
    Sub("random", _random, check_random, 200, 4000, "all"),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    euler=(300, 10000),
    quaternion=(200, 6000),
    slerp=(200, 6000),
    imprecise=(100, 3000),
    random=(60, 2000),
).get(s.name)] if a]
