"""Trap systems with known minima, saddles and modes."""
import numpy as np
from hypothesis import strategies as st

from . import gens as g
from . import harm, oracles


def quad_terms(H):
    """l=2 terms of the potential x H x/2, H symmetric traceless"""
    base = [(2, m) for m in range(-2, 3)]
    M = np.array([harm.evaluate([[l, m, 1.]], None, [[0, 0, 0.]], 2)[0][0]
                  for l, m in base]).T
    red = np.array([H[0][0], H[0][1], H[0][2], H[1][1], H[1][2]])
    return [[l, m, float(c)] for (l, m), c in zip(base,
                                                  np.linalg.solve(M, red))]


def quadratic_system(Q, x0, rf_coeff=1., rot=None, offset=0., extra=()):
    """System with total potential offset + (x-x0) Q (x-x0)/2 (+ the dc terms
    `extra`); trace(Q) >= 0"""
    import electrode
    Q = np.asarray(Q, float)
    r = np.eye(3) if rot is None else np.asarray(rot)
    c2 = max(np.trace(Q), 0.)/12
    rf = np.sqrt(c2)*r @ np.diag([1., 1., -2.]) @ r.T
    dc = Q - 2*rf @ rf
    dc = dc - np.eye(3)*np.trace(dc)/3
    s = electrode.System([
        harm.Harmonic(quad_terms(dc) + [[0, 0, offset]] + list(extra),
                      list(x0), name="dc", dc=1.)])
    if c2:
        s.append(harm.Harmonic(quad_terms(rf/rf_coeff), list(x0), name="rf",
                               rf=1.))
    s.rf_coeff = rf_coeff
    return s


def spd(ew, angles):
    u = oracles.rotation(angles)
    return u @ np.diag(ew) @ u.T


@st.composite
def surface_trap(draw):
    return dict(a=draw(g.num(.3, .8, 2)), b=draw(g.num(1.2, 3, 2)),
                gap=draw(g.num(.6, 1.5, 2)), end=draw(g.num(2, 5, 1)),
                wz=draw(g.num(.5, 5, 2)), wx=draw(g.num(.03, .15, 3)),
                asym=draw(g.num(.7, 1.4, 2)),
                flip=draw(st.booleans()))


def build_surface_trap(c):
    """two rf rails along x, four dc electrodes between and two outside;
    returns (system, approximate null)"""
    import electrode
    L = 20.
    a, b, b2 = c["a"], c["b"], c["b"]*c["asym"]

    def R(x0, x1, y0, y1):
        return [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    P = electrode.PolygonPixelElectrode
    els = [P(name="rf", paths=[R(-L, L, a, a + b2), R(-L, L, -a - b, -a)])]
    gp, en = c["gap"], c["end"]
    dc = [("l", R(-en, -gp, -a, a)), ("c", R(-gp, gp, -a, a)),
          ("r", R(gp, en, -a, a)), ("t", R(-gp, gp, a + b2, a + b2 + 5)),
          ("u", R(-gp, gp, -a - b - 5, -a - b))]
    for n, p in dc:
        els.append(P(name=n, paths=[p]))
    s = electrode.System(els)
    s.rf_coeff = 1.
    # rf null in the x=0 plane by Newton on the field of the rails
    x = np.array([0., 0., np.sqrt(a*(a + b))])
    s["rf"].rf = 1.
    for i in range(60):
        f = s.electrical_potential(x, 1, "rf")[0]
        h = oracles.expand_reference(s.electrical_potential(x, 2, "rf"), 2)[0]
        dx = -np.linalg.solve(h[1:, 1:] + 1e-12*np.eye(2), f[1:])
        dx *= min(1., .1/np.linalg.norm(dx))
        x[1:] += dx
    k = np.abs(s.electrical_potential(x, 2, "rf")[0]).max()
    s["rf"].rf = np.sqrt(c["wz"])/k
    s["l"].dc = s["r"].dc = 1.
    cx = abs(s.electrical_potential(x, 2, "dc")[0, 0])
    v = c["wx"]*c["wz"]/max(cx, 1e-6)
    sign = 1. if s.electrical_potential(x, 2, "dc")[0, 0] > 0 else -1.
    s["l"].dc = s["r"].dc = sign*v
    if c["flip"]:
        s.reverse()
    return s, x
