"""C39 ion crystals"""
import numpy as np
from scipy import optimize
from hypothesis import strategies as st

from .. import gens as g
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite


class Energy(object):
    """sum of V at the ions and of their repulsion q_i q_j/r_ij"""
    def __init__(self, v, q):
        self.v, self.q = v, np.asarray(q, float)
        self.n = len(self.q)

    def pairs(self, x):
        for i in range(self.n):
            for j in range(i):
                d = x[i] - x[j]
                yield i, j, self.q[i]*self.q[j], d, np.sqrt(d @ d)

    def f(self, x):
        x = np.reshape(x, (-1, 3))
        return float(sum(self.v(xi, 0) for xi in x)
                     + sum(k/r for i, j, k, d, r in self.pairs(x)))

    def g(self, x):
        x = np.reshape(x, (-1, 3))
        o = np.array([self.v(xi, 1) for xi in x])
        for i, j, k, d, r in self.pairs(x):
            o[i] -= k*d/r**3
            o[j] += k*d/r**3
        return o.ravel()

    def h(self, x):
        x = np.reshape(x, (-1, 3))
        n = self.n
        o = np.zeros((n, 3, n, 3))
        for i, xi in enumerate(x):
            o[i, :, i] += self.v(xi, 2)
        for i, j, k, d, r in self.pairs(x):
            t = k*(3*np.outer(d, d) - np.eye(3)*r**2)/r**5
            o[i, :, i] += t
            o[j, :, j] += t
            o[i, :, j] -= t
            o[j, :, i] -= t
        return o.reshape(3*n, 3*n)


def equilibrium(e, x, sep):
    """minimum of the energy near x, or None; Newton steps limited to a
    fraction of the separation, along descending directions"""
    x = np.array(x, float)
    n = len(x)
    for i in range(400):
        gr, h = e.g(x), e.h(x)
        w, v = np.linalg.eigh(h)
        w = np.maximum(np.abs(w), 1e-9*np.abs(w).max())
        dx = -(v @ ((v.T @ gr)/w))
        m = np.abs(dx).max()
        dx *= min(1., .2*sep/m) if m > 0 else 1.
        f0 = e.f(x)
        for k in range(30):
            y = x + dx.reshape(n, 3)
            if e.f(y) <= f0 + 1e-13*abs(f0):
                break
            dx = dx/2
        x = y
        if m < 1e-9*sep:
            break
    else:
        return None
    if np.linalg.eigvalsh(e.h(x))[0] <= 0:
        return None
    return x


@st.composite
def _ions(draw):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 5, 6]))
    return dict(n=n, surf=draw(st.integers(0, 3)) == 0,
                trap=draw(traps.surface_trap()),
                ew=draw(st.lists(g.num(.3, 3, 2), min_size=3, max_size=3)),
                scale=draw(st.sampled_from([1., 1., .01, 30., 1000.])),
                ang=draw(g.vec(-3, 3, 3, 2)), rang=draw(g.vec(-3, 3, 3, 2)),
                x0=draw(g.vec(-2, 2, 3, 2)),
                sep=draw(st.sampled_from([1., 1., .3, .1, 3.])),
                qs=draw(st.one_of(st.none(), st.none(),
                                  st.lists(g.num(.5, 2, 2), min_size=n,
                                           max_size=n))),
                start=draw(st.lists(g.vec(-1, 1, 3, 2), min_size=n,
                                    max_size=n)),
                spread=draw(st.sampled_from([.02, .02, .1, 1., 2.])),
                form=draw(st.integers(0, 3)),
                line=draw(st.integers(0, 9)) == 0)


def check_ions(c, ctx):
    n, sep = c["n"], c["sep"]
    if c["surf"]:
        s, x0 = traps.build_surface_trap(c["trap"])
        sep = .1*min(sep, 1.)

        def v(x, d):
            return np.asarray(s.potential(np.reshape(x, (1, 3)), d))[0]
        w0 = max(np.linalg.eigvalsh(v(x0, 2))[0], 1e-3)
    else:
        Q = traps.spd(np.array(c["ew"])*c["scale"], c["ang"])
        x0 = np.array(c["x0"])
        from .. import oracles as o
        s = traps.quadratic_system(Q, x0, rot=o.rotation(c["rang"]))

        def v(x, d):
            d0 = np.asarray(x) - x0
            return [.5*d0 @ Q @ d0, Q @ d0, Q][d]
        w0 = np.linalg.eigvalsh(Q)[0]
    q = np.sqrt(sep**3*w0/2)*np.ones(n)
    if c["qs"]:
        q = q*np.array(c["qs"])
        ctx.label("different charges")
    e = Energy(v, q)
    off = np.array(c["start"])
    # a chain with some disorder
    chain = x0 + sep*(.9*off + np.linspace(-.5, .5, n)[:, None]*[n, .1, .2])
    d = chain[:, None] - chain[None]
    r = np.sqrt((d**2).sum(-1)) + np.eye(n)*1e9
    if r.min() < .1*sep:
        ctx.skip("ions too close")
    with np.errstate(all="ignore"):
        eq = equilibrium(e, chain, sep)
    near = c["spread"] < .5
    if near:
        if eq is None or not np.all(np.abs(eq - x0) < (2 if c["surf"] else 1e3)*sep*n):
            ctx.skip("no equilibrium")
        start = eq + c["spread"]*sep*off
    else:
        start = chain
    kind = c["form"]
    if c["line"] and not c["surf"]:
        # exactly along the stiffest axis: a saddle of the energy
        near = False
        ew = np.array(c["ew"])*c["scale"]
        Q = np.diag(ew)
        x0 = np.zeros(3)
        s = traps.quadratic_system(Q, x0)
        t = np.zeros((n, 3))
        t[:, int(np.argmax(ew))] = (np.arange(n) - .5*(n - 1))*sep
        start = t
    if kind == 1:
        a = (start.tolist(), q.tolist())
    elif kind == 2:
        a = (np.asfortranarray(start), q)
    elif kind == 3 and not near:
        start = np.rint(start/sep)
        if sep != 1. or len(set(map(tuple, start.tolist()))) < n:
            ctx.skip("integer positions")
        a = (start.astype(int), q)
        ctx.label("integer positions")
    else:
        a = (start, q)
    keep = np.array(a[0], copy=True)
    x, w, V = s.ions(*a)
    check_equal(np.array(a[0]), keep, "initial positions modified")
    check_equal(np.array(a[1]), q, "charges modified")
    x, w, V = np.asarray(x), np.asarray(w), np.asarray(V)
    require(x.shape == (n, 3), "positions %s" % (x.shape,))
    require(w.shape == (3*n,), "eigenvalues %s" % (w.shape,))
    require(V.shape in ((n, 3, 3*n), (3*n, 3*n)), "modes %s" % (V.shape,))
    finite(x, "positions")
    V = V.reshape(3*n, 3*n)
    require(np.all(np.diff(w) >= 0), "eigenvalues not ascending %s" % (w,))
    d = x[:, None] - x[None]
    r = np.sqrt((d**2).sum(-1)) + np.eye(n)*1e9
    require(n == 1 or r.min() > 0, "coinciding ions")
    H = e.h(x)
    a = np.abs(H).max()
    check_close(V.T @ V, np.eye(3*n), atol=1e-10, what="orthonormality")
    tol = 1e-9 if not c["surf"] else 1e-8
    check_close(H @ V, V*w, atol=tol*a, what="normal modes of the crystal")
    f0, f1 = e.f(start), e.f(x)
    require(f1 <= f0 + 1e-9*(abs(f0) + abs(f1)) + 1e-10*w0*sep**2,
            "energy increased from %g to %g" % (f0, f1))
    res = np.abs(e.g(x)).max()/(w0*sep)
    ctx.label("%d ions" % n)
    wq = np.linalg.eigvalsh(e.h(eq)) if near else None
    if near and wq[0] > 1e-2*w0 and w0*sep**2 > 1e-4:
        dx = np.abs(x - eq).max()
        require(dx < .02*sep or (res < 1e-2 and f1 < e.f(eq) + 1e-6*abs(f1)),
                "at %s, the equilibrium is %s" % (x.tolist(), eq.tolist()))
        require(res < 1e-2, "force %g at the final positions" % res)
        ctx.label("equilibrium")
        ctx.nontrivial(n > 1)
        if n > 1 and not c["qs"] and not c["surf"]:
            # center of mass modes are those of a single ion
            wq, vq = np.linalg.eigh(Q)
            for wi, vi in zip(wq, vq.T):
                u = np.tile(vi, n)/np.sqrt(n)
                check_close(H @ u, wi*u, atol=1e-9*a,
                            what="center of mass mode")
            if n == 2 and w[0] > .99*w0:
                check_close(r[0, 1], sep, rtol=1e-2, what="separation")
                ctx.label("two ions on the weakest axis")
    elif not near:
        if w[0] < -1e-3*w0:
            ctx.label("unstable")
        ctx.label("far" if res < 1e-2 else "far, not converged")


SUBS = [
    Sub("ions", _ions, check_ions, 600, 20000,
        "more than one ion, brought to the equilibrium", shards=4),
]
