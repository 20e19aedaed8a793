"""C34 virtual trackball: histories against a model"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import tf
from ..core import Sub, pure, check_close, check_equal, raises, require

COORD = st.one_of(g.num(-3, 3, 2), st.sampled_from([0., 0., 1., -1., .5]),
                  st.integers(-2, 2).map(float))
XY = st.lists(COORD, min_size=2, max_size=2)


@st.composite
def quat(draw):
    q = draw(st.lists(st.one_of(g.num(-2, 2, 2), st.sampled_from([0., 1.])),
                      min_size=4, max_size=4))
    if sum(x*x for x in q) < .01:
        q[0] = 1.
    return q


@st.composite
def _op(draw):
    k = draw(st.sampled_from(["drag"]*5 + ["down"]*3 + ["next"]*2
                             + ["axes", "constrain", "constrain", "place",
                                "back"]))
    if k in ("drag", "down"):
        return [k, draw(XY)]
    if k == "next":
        return [k, draw(st.sampled_from([None, None, 0., .5, -.5, -1., 1.,
                                         .1]))]
    if k == "axes":
        return [k, draw(st.lists(tf.direction(), min_size=0, max_size=3))]
    if k == "constrain":
        return [k, draw(st.sampled_from([True, True, False, 1, 0]))]
    if k == "place":
        return [k, draw(XY), draw(st.sampled_from([1., 2., .5, 3]))]
    return [k]


@st.composite
def _history(draw):
    init = draw(st.sampled_from(["none", "quat", "matrix"]))
    return dict(init=init, q=draw(quat()), unit=draw(st.sampled_from(
        [1., 3., .1])), axes=draw(st.lists(tf.direction(), min_size=0,
                                           max_size=3)),
        on=draw(st.sampled_from([True, True, False])), place=draw(st.booleans()),
        center=draw(XY), radius=draw(st.sampled_from([1., 2., 320.])),
        ops=draw(st.lists(_op(), min_size=1, max_size=14)),
        form=draw(st.sampled_from(["list", "tuple", "array"])))


class Model(object):
    """one hypothesis about the state; those that need a choice which the
    interface leaves open fork"""

    def __init__(self, q):
        self.center, self.radius = [0., 0.], 1.
        self.axes, self.on = None, False
        self.down = np.array([0, 0, 1.])
        self.axis = None
        self.qdown = self.qpre = self.qnow = q
        self.free = False   # the rotation about the axis is not determined

    def fork(self, **kw):
        m = Model(None)
        m.__dict__.update(self.__dict__)
        m.__dict__.update(kw)
        return m

    def sphere(self, p):
        x = (p[0] - self.center[0])/self.radius
        y = (self.center[1] - p[1])/self.radius
        r = math.hypot(x, y)
        if r >= 1:
            return np.array([x/r, y/r, 0.])
        return np.array([x, y, math.sqrt(max(0., 1 - r*r))])


def onto(v, a):
    """the points on the visible half of the great circle around a nearest
    to v, None if all are"""
    w = v - a*a.dot(v)
    n = math.sqrt(w.dot(w))
    if n < 1e-9:
        return None
    w = w/n
    if abs(w[2]) < 1e-7:
        # the rim of the visible half, unless exactly a point of the rim
        return [w, -w]
    return [w if w[2] > 0 else -w]


def step(m, op):
    k = op[0]
    if k == "place":
        return [m.fork(center=list(op[1]), radius=float(op[2]))]
    if k == "axes":
        return [m.fork(axes=[tf.unit(a) for a in op[1]] or None)]
    if k == "constrain":
        return [m.fork(on=bool(op[1]))]
    if k == "next":
        f = 2. + (op[1] or 0.)
        p, q = m.qpre, m.qnow
        d = p.dot(q)
        out = []
        if abs(d) < 1e-9:
            signs = [1, -1]
        else:
            signs = [1 if d > 0 else -1]
        for s in signs:
            e = q*s
            b = e - p*p.dot(e)
            n = math.sqrt(b.dot(b))
            if n < 3e-8:
                r = p
            else:
                ang = math.atan2(n, p.dot(e))
                r = math.cos(f*ang)*p + math.sin(f*ang)*b/n
            out.append(m.fork(qpre=q, qnow=r))
        return out
    if k == "down":
        v = m.sphere(op[1])
        m = m.fork(qdown=m.qnow, qpre=m.qnow, down=v, axis=None, free=False)
        if not m.on or m.axes is None:
            return [m]
        # nearest visible half circle
        best, cand = -2., []
        for a in m.axes:
            c = onto(v, a)
            d = [0.] if c is None else [w.dot(v) for w in c]
            cand.append((a, c, d))
            best = max(best, min(d) if len(d) > 1 else d[0])
        out = []
        for a, c, d in cand:
            if max(d) < best - 1e-7:
                continue
            if c is None:
                out.append(m.fork(axis=a, down=None))
            else:
                out += [m.fork(axis=a, down=w) for w, x in zip(c, d)
                        if x >= best - 1e-7 or len(c) > 1]
        return out
    if k == "drag":
        v = m.sphere(op[1])
        vs = [v]
        if m.axis is not None:
            vs = onto(v, m.axis)
            if vs is None or m.down is None:
                return [m.fork(qpre=m.qnow, free=True)]
        out = []
        for v in vs:
            t = np.cross(m.down, v)
            q = np.r_[m.down.dot(v), t]
            # antipodes: a full turn; the same point: none
            r = tf.quat_mul(q, m.qdown)
            if t.dot(t) < 1e-15:
                r = m.qdown
            out.append(m.fork(qpre=m.qnow, qnow=r, free=False))
        return out
    raise KeyError(k)


def to_quat(M):
    """quaternion of a rotation matrix (largest component)"""
    best = None
    K = np.array([
        [1 + M[0, 0] + M[1, 1] + M[2, 2], M[2, 1] - M[1, 2],
         M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]],
        [M[2, 1] - M[1, 2], 1 + M[0, 0] - M[1, 1] - M[2, 2],
         M[0, 1] + M[1, 0], M[0, 2] + M[2, 0]],
        [M[0, 2] - M[2, 0], M[0, 1] + M[1, 0],
         1 - M[0, 0] + M[1, 1] - M[2, 2], M[1, 2] + M[2, 1]],
        [M[1, 0] - M[0, 1], M[0, 2] + M[2, 0], M[1, 2] + M[2, 1],
         1 - M[0, 0] - M[1, 1] + M[2, 2]]])
    best = np.argmax(np.diag(K))
    return tf.unit(K[best])


def spoil(p):
    """the caller uses the argument for something else"""
    if not isinstance(p, tuple):
        for i in range(len(p)):
            p[i] = 7


def check_history(c, ctx):
    import electrode.transformations as t
    q = tf.unit(c["q"])
    if c["init"] == "none":
        ball, q = t.Arcball(), np.array([1., 0, 0, 0])
    elif c["init"] == "quat":
        x = tf.form([v*c["unit"] for v in q], c["form"])
        cp = np.array(x)
        ball = t.Arcball(x) if c["on"] else t.Arcball(initial=x)
        check_equal(np.array(x), cp, "initial quaternion modified")
        if c["form"] == "array":
            x *= 0
    else:
        M = np.eye(4)
        M[:3, :3] = tf.quat_rotation(q)
        x = M.tolist() if c["form"] == "list" else M.copy()
        ball = t.Arcball(initial=x)
        check_equal(np.array(x), M, "initial matrix modified")
        if c["form"] != "list":
            x *= 0
    models = [Model(q)]
    ops = []
    if c["place"]:
        ops.append(["place", c["center"], c["radius"]])
    if c["axes"]:
        ops.append(["axes", c["axes"]])
    ops.append(["constrain", c["on"]])
    ops += c["ops"]
    tol = 1e-9
    last = [0., 0.]
    turned = 0
    free = False

    def compare(what):
        M = tf.affine(ball.matrix(), "matrix")
        require((M[:3, 3] == 0).all(), "translation")
        tf.proper(M, what, 1e-9)
        R = M[:3, :3]
        ok = []
        for m in models:
            if m.free:
                # any rotation about the axis since pressing
                D = R.dot(tf.quat_rotation(m.qdown).T)
                if np.abs(D.dot(m.axis) - m.axis).max() < 1e-7:
                    ok.append(m.fork(qnow=to_quat(R)))
            elif np.abs(tf.quat_rotation(m.qnow) - R).max() < tol:
                ok.append(m)
        require(ok, "%s: %s is none of %s" % (what, R.tolist(), [
            tf.quat_rotation(m.qnow).tolist() if not m.free else
            "rotation about %s" % m.axis for m in models[:3]]))
        # not more often than the copy
        B = ball.matrix()
        B *= 0
        check_close(ball.matrix(), M, atol=1e-12, what="matrix aliased")
        return ok, R
    models, R = compare("initial")
    for i, op in enumerate(ops):
        what = "step %i %s" % (i, op)
        if op[0] == "back":
            # back to where the button was pressed
            op = ["drag", last]
            if not any(o[0] == "place" for o in ops[max(
                    [j for j in range(i) if ops[j][0] == "down"] or [0]):i]
                    ) and any(o[0] == "down" for o in ops[:i]):
                want = [tf.quat_rotation(m.qdown) for m in models]
                ball.drag(tf.form(last, c["form"]))
                models = [n for m in models for n in step(m, op)]
                models, R = compare(what)
                require(any(np.abs(R - w).max() < 1e-7 for w in want)
                        or any(m.free for m in models),
                        "%s: dragging back does not undo" % what)
                ctx.label("dragged back")
                continue
        k = op[0]
        old = R
        if k == "place":
            p = tf.form(op[1], c["form"])
            ball.place(p, op[2])
            spoil(p)
        elif k == "axes":
            p = [tf.form(a, c["form"]) for a in op[1]]
            ball.setaxes(*p)
            for a in p:
                spoil(a)
        elif k == "constrain":
            ball.constrain = op[1]
            require(ball.constrain is bool(op[1]), "constrain")
        elif k == "down":
            last = op[1]
            p = tf.form(op[1], c["form"])
            cp = np.array(p)
            ball.down(p)
            check_equal(np.array(p), cp, "point modified")
            spoil(p)
        elif k == "drag":
            p = tf.form(op[1], c["form"])
            ball.drag(p)
            check_equal(np.array(p), np.array(op[1]), "point modified")
            spoil(p)
        else:
            if op[1] is None:
                ball.next()
            else:
                ball.next(op[1])
            tol = min(1e-4, tol*4 + 1e-6)
        models = [n for m in models for n in step(m, op)][:64]
        models, R = compare(what)
        if k in ("place", "axes", "constrain", "down"):
            check_close(R, old, atol=1e-12, what="%s turned" % what)
        elif np.abs(R - old).max() > 1e-6:
            turned += 1
        if k == "drag":
            free = free or any(m.free for m in models)
            if all(m.axis is not None for m in models):
                ctx.label("constrained")
                if len(set(tuple(m.axis) for m in models)) == 1:
                    a = models[0].axis
                    D = R.dot(tf.quat_rotation(models[0].qdown).T)
                    check_close(D.dot(a), a, atol=1e-6,
                                what="rotation about the axis")
            else:
                ctx.label("free")
        if k == "next":
            ctx.label("next")
    if len(models) > 1:
        ctx.label("several models")
    if free:
        ctx.label("on an axis")
    ctx.nontrivial(turned > 1)


# --------------------------------------------------------- press, drag once

@st.composite
def _drag(draw):
    return dict(p=draw(XY), r=draw(XY), center=draw(XY), radius=draw(
        st.sampled_from([1., .5, 4., 320.])), q=draw(quat()),
        axis=draw(st.one_of(st.none(), tf.direction())),
        form=draw(st.sampled_from(["list", "tuple", "array"])))


def check_drag(c, ctx):
    import electrode.transformations as t
    q = tf.unit(c["q"])
    ball = t.Arcball(list(q))
    cx, r = c["center"], c["radius"]
    P, Q = ([cx[i] + r*v[i]*.8 for i in range(2)] for v in (c["p"], c["r"]))
    ball.place(tf.form(cx, c["form"]), r)
    m = Model(q)
    m.center, m.radius = cx, r
    u, v = m.sphere(P), m.sphere(Q)
    for nm, f in tf.impls("arcball_map_to_sphere"):
        s = f(tf.form(P, c["form"]), tf.form(cx, c["form"]), r)
        check_close(s, u, atol=3e-8, what="map to sphere " + nm)
        check_close(np.dot(s, s), 1., atol=1e-12, what="on the sphere " + nm)
    A = None
    if c["axis"] is not None:
        a = tf.unit(c["axis"])
        ball.setaxes(tf.form(c["axis"], c["form"]))
        ball.constrain = True
        U, V = onto(u, a), onto(v, a)
        if U is None or V is None or len(U) + len(V) > 2:
            ctx.skip("on the axis or the rim")
        u, v = U[0], V[0]
    ball.down(tf.form(P, c["form"]))
    ball.drag(tf.form(P, c["form"]))
    R0 = tf.quat_rotation(q)
    check_close(ball.matrix()[:3, :3], R0, atol=1e-7, what="not moved")
    ball.drag(tf.form(Q, c["form"]))
    D = ball.matrix()[:3, :3].dot(R0.T)
    n = np.cross(u, v)
    s, d = math.sqrt(n.dot(n)), u.dot(v)
    # along the great circle through both, twice the arc
    arc = math.atan2(s, d)
    if s < 1e-7:
        check_close(D, np.eye(3), atol=1e-6, what="no or a full turn")
        ctx.label("antipodes" if d < 0 else "same point")
        return
    check_close(D, tf.rodrigues(2*arc, n), atol=1e-6,
                what="rotation by twice the arc")
    check_close(D.dot(u), math.cos(2*arc)*u + math.sin(2*arc)*np.cross(
        n/s, u), atol=1e-6, what="pressed point")
    if c["axis"] is not None:
        check_close(D.dot(a), a, atol=1e-6, what="axis")
        ctx.label("constrained")
    # the motion goes on by the same angle
    ball.next()
    e = ball.matrix()[:3, :3].dot(R0.T)
    if abs(math.cos(arc)) > 1e-6:
        check_close(e, D.dot(D), atol=1e-5, what="next step")
    ctx.nontrivial()


@st.composite
def _bad(draw):
    return dict(shape=draw(st.sampled_from([[3], [3, 3], [5], [4, 3],
                                            [4, 4, 1], []])))


def check_bad(c, ctx):
    import electrode.transformations as t
    raises(lambda: t.Arcball(np.ones(c["shape"])), ValueError)
    a, b = t.Arcball(), t.Arcball()
    # two trackballs are independent
    a.place([5, 5], 2)
    a.down([5, 5])
    a.drag([6, 5])
    check_close(b.matrix(), np.eye(4), atol=0, what="another trackball")
    b.down([0, 0])
    b.drag([0, .5])
    require(np.abs(a.matrix() - b.matrix()).max() > .1, "shared state")
    ctx.nontrivial()


SUBS = [
    Sub("history", _history, check_history, 900, 24000,
        "two or more rotations", shards=2),
    Sub("drag", _drag, check_drag, 600, 16000, "moved"),
    Sub("bad", _bad, check_bad, 20, 100, "all"),
]
SUBS += [pure(s, *a) for s in SUBS for a in [dict(
    history=(200, 6000),
    drag=(150, 4000),
).get(s.name)] if a]
