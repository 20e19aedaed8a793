"""Reference models, written from the physics and the documentation,
independent of the code under test (numpy longdouble where it matters)."""
import functools
import itertools
import math

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")

# documented basis of the reduced derivative tensors
NAMES = [[""]] + [s.split() for s in [
    "x y z",
    "xx xy xz yy yz",
    "xxy xxz yyz xyy xzz yzz xyz",
    "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz",
    "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz yyzzz",
]]


def alpha(name):
    return tuple(name.count(c) for c in "xyz")


# ------------------------------------------------------------ Taylor jets

@functools.lru_cache(None)
def monomials(deg):
    return [a for n in range(deg + 1)
            for a in itertools.product(range(n + 1), repeat=3)
            if sum(a) == n]


@functools.lru_cache(None)
def mono_index(deg):
    return dict((a, i) for i, a in enumerate(monomials(deg)))


@functools.lru_cache(None)
def products(deg):
    m, ix = monomials(deg), mono_index(deg)
    out = [[] for _ in m]
    for i, a in enumerate(m):
        for j, b in enumerate(m):
            c = tuple(p + q for p, q in zip(a, b))
            if sum(c) <= deg:
                out[ix[c]].append((i, j))
    return out


class Jet(object):
    """Truncated Taylor series in (dx, dy, dz) with array coefficients."""
    __slots__ = ("c", "deg")

    def __init__(self, c, deg):
        self.c = c
        self.deg = deg

    @classmethod
    def const(cls, v, deg):
        v = np.asarray(v, LD)
        c = np.zeros((len(monomials(deg)),) + v.shape, LD)
        c[0] = v
        return cls(c, deg)

    @classmethod
    def var(cls, v, axis, deg):
        j = cls.const(v, deg)
        if deg > 0:
            a = [0, 0, 0]
            a[axis] = 1
            j.c[mono_index(deg)[tuple(a)]] = 1
        return j

    def _co(self, o):
        return o if isinstance(o, Jet) else Jet.const(
            np.broadcast_to(np.asarray(o, LD), self.c.shape[1:]), self.deg)

    def __add__(self, o):
        return Jet(self.c + self._co(o).c, self.deg)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.c, self.deg)

    def __sub__(self, o):
        return Jet(self.c - self._co(o).c, self.deg)

    def __rsub__(self, o):
        return Jet(self._co(o).c - self.c, self.deg)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet(self.c*np.asarray(o, LD), self.deg)
        a, b = self.c, o.c
        shape = np.broadcast_shapes(a.shape[1:], b.shape[1:])
        out = np.zeros((a.shape[0],) + shape, LD)
        for k, ij in enumerate(products(self.deg)):
            for i, j in ij:
                out[k] += a[i]*b[j]
        return Jet(out, self.deg)
    __rmul__ = __mul__

    def recip(self):
        a = self.c
        b = np.zeros_like(a)
        b[0] = 1/a[0]
        for k, ij in enumerate(products(self.deg)):
            if k == 0:
                continue
            s = 0
            for i, j in ij:
                if i:
                    s = s + a[i]*b[j]
            b[k] = -b[0]*s
        return Jet(b, self.deg)

    def sqrt(self):
        a = self.c
        s = np.zeros_like(a)
        s[0] = np.sqrt(a[0])
        for k, ij in enumerate(products(self.deg)):
            if k == 0:
                continue
            t = a[k]
            for i, j in ij:
                if i and j:
                    t = t - s[i]*s[j]
            s[k] = t/(2*s[0])
        return Jet(s, self.deg)

    def derivative(self, al):
        f = 1
        for n in al:
            f *= math.factorial(n)
        return self.c[mono_index(self.deg)[tuple(al)]]*f


# ------------------------------------------------------ surface electrodes

def _solid_angle(x, poly):
    """signed solid angle of the polygon (n, 2) in z=0 seen from x (p, 3),
    positive for counter clockwise polygons seen from z > 0.
    Also returns the sum of the absolute triangle contributions"""
    x = np.asarray(x, LD)
    v = np.asarray(poly, LD)
    if len(v) < 3:
        z = np.zeros(len(x), LD)
        return z, z
    r = np.zeros((len(x), len(v), 3), LD)
    r[..., :2] = v[None] - x[:, None, :2]
    r[..., 2] = -x[:, None, 2]
    n = np.sqrt((r*r).sum(-1))
    a, b, c = r[:, :1], r[:, 1:-1], r[:, 2:]
    na, nb, nc = n[:, :1], n[:, 1:-1], n[:, 2:]
    det = (a*np.cross(b, c)).sum(-1)
    den = (na*nb*nc + (a*b).sum(-1)*nc + (a*c).sum(-1)*nb
           + (b*c).sum(-1)*na)
    t = -2*np.arctan2(det, den)
    return t.sum(-1), np.abs(t).sum(-1)


def polygon_reference(x, paths, potential, derivative, nmax=0, height=50.):
    """Returns (reduced derivative (n, 2l+1), magnitude of the terms)"""
    x = np.asarray(x, LD).reshape(-1, 3)
    out = np.zeros((len(x), 2*derivative + 1), LD)
    mag = np.zeros((len(x), 2*derivative + 1), LD)
    V = LD(potential)
    for m in range(-nmax, nmax + 1):
        xm = x.copy()
        xm[:, 2] += 2*m*LD(height)
        for p in paths:
            p = np.asarray(p, LD).reshape(-1, 2)
            if len(p) == 0:
                continue
            if derivative == 0:
                s, t = _solid_angle(xm, p)
                out[:, 0] += V*s/(2*PI)
                mag[:, 0] += abs(V)*t/(2*PI)
                continue
            d = derivative - 1
            X = Jet.var(np.repeat(xm[:, :1], len(p), 1), 0, d)
            Y = Jet.var(np.repeat(xm[:, 1:2], len(p), 1), 1, d)
            Z = Jet.var(np.repeat(xm[:, 2:3], len(p), 1), 2, d)
            v2 = np.broadcast_to(p[None], (len(x),) + p.shape)
            v1 = np.roll(v2, 1, axis=1)
            ax, ay = X - v1[..., 0], Y - v1[..., 1]
            bx, by = X - v2[..., 0], Y - v2[..., 1]
            zz = Z*Z
            ra = (ax*ax + ay*ay + zz).sqrt()
            rb = (bx*bx + by*by + zz).sqrt()
            dot = ax*bx + ay*by + zz
            # Biot-Savart field of the segment v1 -> v2
            rr = ra*rb
            f = (ra + rb)*(rr*(rr + dot)).recip()
            ex, ey = v2[..., 0] - v1[..., 0], v2[..., 1] - v1[..., 1]
            # -grad(solid angle)
            gx = f*Z*ey
            gy = f*Z*ex*-1
            gz = f*(ax*by - ay*bx)
            g = dict(x=gx, y=gy, z=gz)
            for k, name in enumerate(NAMES[derivative]):
                al = list(alpha(name))
                al["xyz".index(name[0])] -= 1
                t = g[name[0]].derivative(al)
                out[:, k] += -V/(2*PI)*t.sum(-1)
                mag[:, k] += abs(V)/(2*PI)*np.abs(t).sum(-1)
    return out, mag


def point_reference(x, points, areas, potential, derivative, nmax=0,
                    height=50.):
    x = np.asarray(x, LD).reshape(-1, 3)
    p = np.asarray(points, LD).reshape(-1, 2)
    a = np.asarray(areas, LD)
    out = np.zeros((len(x), 2*derivative + 1), LD)
    mag = np.zeros((len(x), 2*derivative + 1), LD)
    if not len(p):
        return out, mag
    for m in range(-nmax, nmax + 1):
        xm = x.copy()
        xm[:, 2] += 2*m*LD(height)
        X = Jet.var(xm[:, :1] - p[None, :, 0], 0, derivative)
        Y = Jet.var(xm[:, 1:2] - p[None, :, 1], 1, derivative)
        Z = Jet.var(np.repeat(xm[:, 2:3], len(p), 1), 2, derivative)
        r = (X*X + Y*Y + Z*Z).sqrt()
        f = Z*(r*r*r).recip()*(a*LD(potential)/(2*PI))
        for k, name in enumerate(NAMES[derivative]):
            t = f.derivative(alpha(name))
            out[:, k] += t.sum(-1)
            mag[:, k] += np.abs(t).sum(-1)
    return out, mag


def expand_reference(c, order):
    """full tensor (..., 3, ..., 3) from the reduced form, by the
    Laplace equation and symmetry"""
    c = np.asarray(c)
    ix = dict((alpha(n), i) for i, n in enumerate(NAMES[order]))
    lead = c.shape[:-1]
    out = np.zeros(lead + (3,)*order, c.dtype)
    memo = {}

    def get(al, busy=()):
        if al in memo:
            return memo[al]
        if al in ix:
            memo[al] = c[..., ix[al]]
            return memo[al]
        for i in range(3):
            if al[i] >= 2:
                o = []
                for j in range(3):
                    if j != i:
                        b = list(al)
                        b[i] -= 2
                        b[j] += 2
                        o.append(tuple(b))
                if all(b in ix for b in o):
                    memo[al] = -get(o[0]) - get(o[1])
                    return memo[al]
        raise ValueError("no laplace relation for %s" % (al,))
    for idx in itertools.product(range(3), repeat=order):
        al = tuple(idx.count(i) for i in range(3))
        out[(Ellipsis,) + idx] = get(al)
    return out


def rotate_reference(t, r, order):
    """t'_{ab..} = t_{ij..} r_{ia} r_{jb} ... on the last `order` axes"""
    t = np.asarray(t)
    n = t.ndim
    for k in range(order):
        ax = n - order + k
        t = np.moveaxis(np.tensordot(t, r, axes=([ax], [0])), -1, ax)
    return t


# --------------------------------------------------------- small geometry

def shoelace(p):
    p = np.asarray(p, LD)
    p = p - p[0]
    x, y = p[:, 0], p[:, 1]
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    return (x*y1 - x1*y).sum()/2


def centroid(p):
    p = np.asarray(p, LD)
    p0 = p[0]
    p = p - p0
    x, y = p[:, 0], p[:, 1]
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    c = x*y1 - x1*y
    a = c.sum()/2
    return np.array([((x + x1)*c).sum(), ((y + y1)*c).sum()])/(6*a) + p0


def rotation(angles):
    """proper rotation from three angles about z, x, z"""
    a, b, c = angles

    def rz(t):
        return np.array([[math.cos(t), -math.sin(t), 0],
                         [math.sin(t), math.cos(t), 0], [0, 0, 1.]])

    def rx(t):
        return np.array([[1., 0, 0], [0, math.cos(t), -math.sin(t)],
                         [0, math.sin(t), math.cos(t)]])
    return rz(a) @ rx(b) @ rz(c)


# ----------------------------------------------------------------- Mathieu

def floquet_multipliers(a, steps=400):
    """Floquet multipliers over t in [0, pi] of
    x'' + (a[0] + 2 a[1] cos 2t + 2 a[2] cos 4t + ...) x = 0"""
    a = [np.atleast_2d(np.asarray(i, float)) for i in a]
    n = a[0].shape[0]
    M = monodromy(a, steps)
    return np.linalg.eigvals(M)


def monodromy(a, steps=400):
    """fundamental matrix over [0, pi]: 4th order Runge-Kutta steps (as
    linear maps) with Richardson extrapolation"""
    a = [np.atleast_2d(np.asarray(i, float)) for i in a]
    n = a[0].shape[0]
    one = np.eye(2*n)

    def A(t):
        m = np.broadcast_to(a[0], t.shape + (n, n)).copy()
        for i, ai in enumerate(a[1:], 1):
            m += 2*np.cos(2*i*t)[:, None, None]*ai
        r = np.zeros(t.shape + (2*n, 2*n))
        r[:, :n, n:] = np.eye(n)
        r[:, n:, :n] = -m
        return r

    def run(steps):
        h = math.pi/steps
        t = h*np.arange(steps)
        a1, a2, a3 = A(t), A(t + h/2), A(t + h)
        k1 = a1
        k2 = a2 @ (one + h/2*k1)
        k3 = a2 @ (one + h/2*k2)
        k4 = a3 @ (one + h*k3)
        p = one + h/6*(k1 + 2*k2 + 2*k3 + k4)
        while len(p) > 1:
            if len(p) % 2:
                p = np.concatenate((p, one[None]))
            p = p[1::2] @ p[::2]
        return p[0]
    y1, y2 = run(steps), run(2*steps)
    return y2 + (y2 - y1)/15
