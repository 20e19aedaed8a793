"""Helpers for the geometry routines (transformations)."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gens as g
from .core import require

AXES = ["%s%s" % (f, a) for f in "sr" for a in (
    "xyz", "xyx", "xzy", "xzx", "yzx", "yzy", "yxz", "yxy", "zxy", "zxz",
    "zyx", "zyz")]

ANGLE = st.one_of(
    g.num(-7, 7, 3), g.num(-7, 7, 3),
    st.integers(-4, 4).map(lambda k: k*math.pi/2),
    st.sampled_from([0., math.pi, -math.pi, 2*math.pi/3, 1e-3, 1e-5, -1e-5,
                     1e-7, 1e-9, math.pi - 1e-6, math.pi/2 + 1e-7,
                     math.pi/2 - 1e-12, math.pi/2 + 1e-14]))

POINT = st.one_of(g.vec(-3, 3, 3, 2), g.vec(-3, 3, 3, 2),
                  st.lists(st.integers(-3, 3).map(float), min_size=3,
                           max_size=3), g.vec(-100, 100, 3, 1), st.tuples(
                      g.vec(-3, 3, 3, 2), st.sampled_from([
                          1e-6, 1e-3, 1e3, 1e5])).map(
                              lambda v: [x*v[1] for x in v[0]]))


@st.composite
def _direction(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        v = [0., 0., 0.]
        v[draw(st.integers(0, 2))] = draw(st.sampled_from([1., -1., 2., .5]))
        return v
    if k == 1:
        v = draw(st.lists(st.integers(-2, 2).map(float), min_size=3,
                          max_size=3))
    else:
        v = draw(g.vec(-2, 2, 3, 2))
    if sum(x*x for x in v) < .01:
        v[draw(st.integers(0, 2))] += draw(st.sampled_from([1., -1.]))
    s = draw(st.sampled_from([1., 1., 1., 1., 30., .01, 1e-6, 1e6]))
    return [x*s for x in v]


def direction():
    return _direction()


def unit(v):
    v = np.array(v, float)
    return v/math.sqrt((v*v).sum())


FORM = st.sampled_from(["list", "tuple", "array", "hom", "strided", "int"])


def form(v, kind):
    """v as the given kind of sequence; int: as integers where it is one"""
    a = np.array(v, float)
    if kind == "list":
        return list(v)
    if kind == "tuple":
        return tuple(v)
    if kind == "hom":
        # only the first entries matter
        return np.r_[a, [1., 1., 0., 2.5][int(round(abs(a[0])*100)) % 4]]
    if kind == "strided":
        return np.array([a, a + 7]).T[:, 0]
    if kind == "int" and np.all(a == np.rint(a)):
        return [int(x) for x in a]
    return a


def impls(name):
    """[("c", f), ("py", f)] the current function and, if it replaced a
    Python function on import, that one, too"""
    import electrode.transformations as t
    out = [("public", getattr(t, name))]
    if hasattr(t, "_py_" + name):
        out.append(("py", getattr(t, "_py_" + name)))
    return out


def rodrigues(angle, direction):
    """rotation matrix, applied to basis vectors one by one"""
    n = unit(direction)
    c, s = math.cos(angle), math.sin(angle)
    M = np.empty((3, 3))
    for i in range(3):
        e = np.eye(3)[i]
        M[:, i] = e*c + s*np.cross(n, e) + n*n.dot(e)*(1 - c)
    return M


def apply(M, x):
    """apply homogeneous matrix to points (n, 3)"""
    x = np.asarray(x, float)
    y = np.c_[x, np.ones(len(x))].dot(np.asarray(M, float).T)
    return y[:, :3]/y[:, 3:]


def affine(M, what):
    """checks the shape and last row"""
    M = np.asarray(M)
    require(M.shape == (4, 4) and M.dtype == float, "%s: shape or type" %
            what)
    require((M[3] == [0, 0, 0, 1]).all(), "%s: last row %s" % (what, M[3]))
    return M


def proper(R, what, tol=1e-10):
    R = np.asarray(R, float)[:3, :3]
    require(np.abs(R.dot(R.T) - np.eye(3)).max() < tol,
            "%s is not orthogonal" % what)
    require(np.linalg.det(R) > 0, "%s is improper" % what)


def points(seed, n=6, size=4.):
    return (np.random.RandomState(seed).rand(n, 3) - .5)*2*size


def elementary(axis, angle):
    c, s = math.cos(angle), math.sin(angle)
    i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
    M = np.eye(3)
    M[i, i] = M[j, j] = c
    M[i, j] = -s
    M[j, i] = s
    return M


def euler(angles, axes):
    """rotation of three elementary rotations, about static ("s") axes one
    after the other or about the rotating ("r") axes"""
    M = np.eye(3)
    for a, k in zip(angles, axes[1:]):
        E = elementary(k, a)
        M = E.dot(M) if axes[0] == "s" else M.dot(E)
    return M


def quat_rotation(q):
    """rotation matrix of any non-zero quaternion (w, x, y, z), by
    v -> q v q^-1"""
    w, v = q[0], np.array(q[1:], float)
    n = w*w + v.dot(v)
    M = np.empty((3, 3))
    for i in range(3):
        e = np.eye(3)[i]
        M[:, i] = ((w*w - v.dot(v))*e + 2*v*v.dot(e)
                   + 2*w*np.cross(v, e))/n
    return M


def quat_mul(a, b):
    w1, v1 = a[0], np.array(a[1:], float)
    w2, v2 = b[0], np.array(b[1:], float)
    return np.r_[w1*w2 - v1.dot(v2), w1*v2 + w2*v1 + np.cross(v1, v2)]
