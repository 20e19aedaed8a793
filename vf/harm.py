"""Electrodes with a solid harmonic polynomial potential.

`Harmonic` implements the documented `Electrode` interface; `evaluate` is the
reference.  Solid harmonics r^l P_lm cos/sin(m phi), unnormalised, built as
polynomials.
"""
import functools
import math

import numpy as np

from . import oracles


@functools.lru_cache(None)
def solid(l, m):
    """dict (i, j, k) -> coefficient of a real harmonic polynomial of degree
    l; m >= 0 cosine, m < 0 sine like"""
    # Re/Im (x + i y)^|m| * Q(z, x^2 + y^2)
    am = abs(m)
    # sum_k c_k z^(l-am-2k) (x^2+y^2)^k
    n = l - am
    c = {0: 1.}
    for k in range(n//2):
        # laplace: recursion of the coefficients
        c[k + 1] = -c[k]*(n - 2*k)*(n - 2*k - 1)/(4.*(k + 1)*(k + 1 + am))
    out = {}
    for k, ck in c.items():
        for p in range(am + 1):
            # (x + iy)^am term x^(am-p) (iy)^p
            b = math.comb(am, p)
            ph = [(1, 0), (0, 1), (-1, 0), (0, -1)][p % 4]
            v = b*(ph[0] if m >= 0 else ph[1])
            if not v:
                continue
            for s in range(k + 1):
                key = (am - p + 2*(k - s), p + 2*s, n - 2*k)
                out[key] = out.get(key, 0.) + ck*v*math.comb(k, s)
    return {k: v for k, v in out.items() if v}


def poly(terms):
    out = {}
    for l, m, c in terms:
        for k, v in solid(l, m).items():
            out[k] = out.get(k, 0.) + c*v
    return out


def diff(p, axis):
    out = {}
    for k, v in p.items():
        if k[axis]:
            kk = list(k)
            kk[axis] -= 1
            out[tuple(kk)] = out.get(tuple(kk), 0.) + v*k[axis]
    return out


def peval(p, x):
    r = np.zeros(len(x))
    a = np.zeros(len(x))
    for (i, j, k), v in p.items():
        t = v*x[:, 0]**i*x[:, 1]**j*x[:, 2]**k
        r += t
        a += np.abs(t)
    return r, a


def evaluate(terms, origin, x, derivative):
    x = np.asarray(x, float).reshape(-1, 3)
    if origin is not None:
        x = x - np.asarray(origin, float)
    p = poly(terms)
    out = np.zeros((len(x), 2*derivative + 1))
    mag = np.zeros_like(out)
    for n, name in enumerate(oracles.NAMES[derivative]):
        q = p
        for ch in name:
            q = diff(q, "xyz".index(ch))
        out[:, n], mag[:, n] = peval(q, x)
    return out, mag


def _base():
    import electrode.electrode
    return electrode.electrode.Electrode


def Harmonic(terms, origin=None, **kw):
    return _cls()(terms, origin, **kw)


@functools.lru_cache(None)
def _cls():
    base = _base()

    class HarmonicElectrode(base):
        def __init__(self, terms, origin=None, **kw):
            base.__init__(self, **kw)
            self.terms = terms
            self.origin = origin

        def potential(self, x, derivative=0, potential=1., out=None):
            v = evaluate(self.terms, self.origin, x, derivative)[0]*potential
            if out is None:
                return v
            out += v
            return out
    return HarmonicElectrode
