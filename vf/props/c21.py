"""C21 spherical harmonics of derivative tensors"""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import harm
from .. import oracles as o
from ..core import Sub, check_close, check_equal, require


def real_harmonic(l, m, x):
    """orthonormal real spherical harmonic (Condon-Shortley phase) of the
    directions x (n, 3)"""
    from scipy.special import sph_harm
    r = np.sqrt((x*x).sum(1))
    th, ph = np.arccos(x[:, 2]/r), np.arctan2(x[:, 1], x[:, 0])
    y = sph_harm(abs(m), l, ph, th)
    if m > 0:
        return np.sqrt(2)*y.real
    if m < 0:
        return np.sqrt(2)*y.imag
    return y.real


@functools.lru_cache(None)
def basis(l):
    """reduced derivatives (2l+1, 2l+1) of r^l Z_lm, columns m=-l..l"""
    rng = np.random.RandomState(3)
    x = rng.normal(size=(60, 3))
    r = np.sqrt((x*x).sum(1))
    A = np.array([harm.evaluate([[l, m, 1.]], None, x, 0)[0][:, 0]/r**l
                  for m in range(-l, l + 1)]).T
    D = np.array([harm.evaluate([[l, m, 1.]], None, [[0, 0, 0.]], l)[0][0]
                  for m in range(-l, l + 1)]).T
    Z = np.array([real_harmonic(l, m, x) for m in range(-l, l + 1)]).T
    w, res, rank, s = np.linalg.lstsq(A, Z, rcond=None)
    assert np.abs(A @ w - Z).max() < 1e-12
    return D @ w


@st.composite
def _case(draw):
    l = draw(st.integers(0, 5))
    n = draw(st.integers(1, 4))
    v = st.lists(st.one_of(g.num(-9, 9, 2), g.wide()), min_size=2*l + 1,
                 max_size=2*l + 1)
    return dict(l=l, d=[draw(v) for _ in range(n)], e=draw(v),
                f=draw(g.num(-3, 3, 1)), ang=draw(g.vec(-3.1, 3.1, 3, 2)),
                phi=draw(g.num(-3.1, 3.1, 2)), m=draw(st.integers(-l, l)),
                flat=draw(st.booleans()))


def check_case(c, ctx):
    from electrode import utils as u
    f = u.cartesian_to_spherical_harmonics
    l = c["l"]
    B = basis(l)
    d = np.array(c["d"]).T          # (2l+1, n) coefficients
    cart = B @ d                    # derivatives of that field
    sc = np.abs(d).max() + 1e-300
    keep = cart.copy()
    got = np.asarray(f(cart.tolist() if c["flat"] else cart))
    check_equal(cart, keep, "argument modified")
    check_close(got, d, atol=2e-12*sc, what="coefficients")
    # a grid of points
    two = np.stack([cart, 2*cart, -cart], -1)
    check_close(f(two), np.stack([d, 2*d, -d], -1), atol=4e-12*sc,
                what="coefficients on a grid of points")
    check_close(f(cart[:, 0]), d[:, 0], atol=2e-12*sc,
                what="coefficients of a single point")
    # linear
    e = (B @ np.array(c["e"]))[:, None]
    s2 = sc + np.abs(c["e"]).max()
    check_close(f(c["f"]*cart + e), c["f"]*got + np.asarray(f(e)),
                atol=2e-11*s2, what="linearity")

    def rotated(a, R):
        """the coefficients of V(R x)"""
        t = o.rotate_reference(o.expand_reference(a.T, l), R, l)
        red = np.array([t[(Ellipsis,) + tuple("xyz".index(k) for k in nm)]
                        for nm in o.NAMES[l]])
        return np.asarray(f(red))
    # any rotation is orthogonal
    R = o.rotation(c["ang"])
    rot = rotated(cart, R)
    check_close((rot**2).sum(0), (got**2).sum(0), atol=1e-10*sc*sc,
                what="norm after rotation")
    check_close(rot.T @ rot, got.T @ got, atol=1e-10*sc*sc,
                what="inner products after rotation")
    # value of the polynomial in a direction is invariant
    x = np.array([[.6, -.3, .7]])
    z = np.array([real_harmonic(l, m, x)[0] for m in range(-l, l + 1)])
    zr = np.array([real_harmonic(l, m, x @ R.T)[0]
                   for m in range(-l, l + 1)])
    check_close(z @ rot, zr @ got, atol=1e-10*sc, what="rotated field")
    # rotation about z mixes m and -m only, with angle m
    m, phi = abs(c["m"]), c["phi"]
    one = np.zeros(2*l + 1)
    one[l + c["m"]] = 1.
    cz, sz = np.cos(phi), np.sin(phi)
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1.]])
    r = rotated((B @ one)[:, None], Rz)[:, 0]
    want = np.zeros(2*l + 1)
    if m == 0:
        want[l] = 1.
    elif c["m"] > 0:
        # cos(m (a + phi))
        want[l + m] = np.cos(m*phi)
        want[l - m] = -np.sin(m*phi)
    else:
        want[l - m] = np.cos(m*phi)
        want[l + m] = np.sin(m*phi)
    check_close(r, want, atol=1e-11, what="rotation about z")
    ctx.label("order %d" % l)
    ctx.nontrivial(l > 0 and np.any(d))


SUBS = [Sub("harmonics", _case, check_case, 900, 30000,
            "order above 0 and a non-zero field", shards=4)]
