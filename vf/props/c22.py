"""C22 spherical harmonics and coordinates"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_close, check_equal, require


def legendre_bar(nmax, x):
    """normalised associated Legendre functions with Condon-Shortley phase,
    p[n][m](x) for 0 <= m <= n < nmax, by recursion"""
    x = np.asarray(x, np.longdouble)
    s = np.sqrt(1 - x*x)
    p = {}
    for m in range(nmax):
        if m == 0:
            p[0, 0] = np.full_like(x, np.sqrt(1/(4*np.pi)))
        else:
            p[m, m] = -np.sqrt((2*m + 1)/(2.*m))*s*p[m - 1, m - 1]
        for n in range(m + 1, nmax):
            a = np.sqrt((4.*n*n - 1)/(n*n - m*m))
            b = np.sqrt((2*n + 1.)*((n - 1)**2 - m*m)/(
                (2*n - 3.)*(n*n - m*m))) if n > m + 1 else 0.
            p[n, m] = a*x*p[n - 1, m] - (
                b*p[n - 2, m] if n > m + 1 else 0.)
    return p


def ynm(nmax, theta, phi):
    """dict (n, m) -> Y"""
    p = legendre_bar(nmax, np.cos(theta))
    y = {}
    for (n, m), v in p.items():
        e = np.asarray(v, float)*np.exp(1j*m*phi)
        y[n, m] = e
        if m:
            y[n, -m] = (-1)**m*e.conj()
    return y


def place(nmax, n, m):
    return (m, n) if m >= 0 else (nmax + m, nmax - 1 - n)


def coefs(nmax):
    v = st.lists(g.num(-5, 5, 2), min_size=nmax*nmax, max_size=nmax*nmax)
    return st.tuples(v, v, st.sampled_from(["c", "c", "r", "one", "imag",
                                                "small", "large"]))


def build(t, nmax):
    a = np.array(t[0]).reshape(nmax, nmax)
    b = np.array(t[1]).reshape(nmax, nmax)
    if t[2] == "c":
        return a + 1j*b
    if t[2] == "imag":
        return a + 1e-7j*b
    if t[2] in ("small", "large"):
        return (a + 1j*b)*{"small": 1e-9, "large": 1e8}[t[2]]
    if t[2] == "one":
        k = int(round(abs(t[0][0])*100)) % (nmax*nmax)
        a = np.zeros((nmax, nmax), complex)
        a.flat[k] = 1.
        return a
    return a


@st.composite
def _trafo(draw):
    nmax = draw(st.integers(1, 9))
    return dict(nmax=nmax, a=draw(coefs(nmax)), b=draw(coefs(nmax)),
                f=draw(st.tuples(g.num(-3, 3, 1), g.num(-3, 3, 1))))


def check_trafo(c, ctx):
    from electrode.spherical_harmonics import SphericalHarmonics
    n_ = c["nmax"]
    s = SphericalHarmonics(n_)
    a, b = build(c["a"], n_), build(c["b"], n_)
    th, ph = s.spherical_grid()
    check_equal(th.shape, (n_, 2*n_), "grid shape")
    check_equal(ph.shape, (n_, 2*n_), "grid shape")
    check_close(ph, np.broadcast_to(np.arange(2*n_)*np.pi/n_, ph.shape),
                atol=1e-12, what="phi samples")
    x = np.polynomial.legendre.leggauss(n_)
    check_close(np.sort(np.cos(th[:, 0])), np.sort(x[0]), atol=1e-12,
                what="theta samples")
    # the index map
    seen = {}
    for n, m, p, q in s.indices():
        check_equal((int(p), int(q)), place(n_, n, m), "place of %s" % (
            (n, m),))
        require((p, q) not in seen, "place used twice")
        require(0 <= n < n_ and abs(m) <= n, "index range")
        seen[p, q] = n, m
        check_equal((int(s.n[p, q]), int(s.m[p, q])), (n, m), "n, m arrays")
    check_equal(len(seen), n_*n_, "number of coefficients")
    y = ynm(n_, th, ph)
    want = sum(a[p, q]*y[nm] for (p, q), nm in seen.items())
    tol = 1e-11*np.abs(a).max()*n_**2
    ka = a.copy()
    f = s.synthesis(a)
    check_close(f, want, atol=tol, what="synthesis")
    check_equal(a, ka, "coefficients modified")
    kf = f.copy()
    check_close(s.analysis(f), a, atol=tol, what="analysis of synthesis")
    check_equal(f, kf, "samples modified")
    # analysis of the reference function, not through synthesis
    check_close(s.analysis(want), a, atol=tol, what="analysis")
    if not np.iscomplexobj(a):
        r = want.real
        ar = s.analysis(r)
        # a real function: a(-m) = (-1)^m conj a(m)
        for (p, q), (n, m) in seen.items():
            pm = place(n_, n, -m)
            check_close(ar[pm], (-1)**m*np.conj(ar[p, q]), atol=tol,
                        what="real function")
        ctx.label("real")
    # linear, also off the band
    k = c["f"][0] + 1j*c["f"][1]
    tol = 1e-11*(np.abs(a).max()*(1 + abs(k)) + np.abs(b).max())*n_**2*10
    check_close(s.synthesis(k*a + b), k*f + s.synthesis(b), atol=tol,
                what="linear synthesis")
    rough = np.concatenate([a, b], 1)
    rough2 = np.concatenate([b.T, a], 1)
    check_close(s.analysis(k*rough + rough2),
                k*s.analysis(rough) + s.analysis(rough2), atol=tol,
                what="linear analysis")
    # analysis is the inner product with the harmonics
    w = np.broadcast_to(s.weight*np.pi/n_, f.shape)
    check_close(np.sum(w), 4*np.pi, atol=1e-10, what="sum of the weights")
    an = s.analysis(rough)
    for (p, q), nm in seen.items():
        check_close(an[p, q], np.sum(w*rough*y[nm].conj()), atol=tol,
                    what="projection on %s" % (nm,))
    # inner products
    f2 = s.synthesis(b)
    tol = 1e-10*n_**4*np.abs(a).max()*np.abs(b).max()
    check_close(np.sum(w*f*f2.conj()), np.sum(a*b.conj()), atol=tol,
                what="inner product")
    ctx.label("nmax %d" % n_)
    ctx.nontrivial(n_ > 1 and np.count_nonzero(a) > 0)


@st.composite
def _big(draw):
    nmax = draw(st.one_of(st.integers(10, 24), st.integers(25, 64),
                          st.sampled_from([61, 86, 122]),
                          st.integers(65, 150)))
    return dict(nmax=nmax, seed=draw(st.integers(0, 10**6)))


def check_big(c, ctx):
    from electrode.spherical_harmonics import SphericalHarmonics
    n_ = c["nmax"]
    s = SphericalHarmonics(n_)
    r = np.random.RandomState(c["seed"])
    a = r.randn(n_, n_) + 1j*r.randn(n_, n_)
    th, ph = s.spherical_grid()
    # per order m first, summed over the degrees
    p = legendre_bar(n_, np.cos(th[:, 0]))
    fm = np.zeros((2*n_ - 1, n_), complex)
    for (n, m), v in p.items():
        v = np.asarray(v, float)
        fm[m + n_ - 1] += a[place(n_, n, m)]*v
        if m:
            fm[-m + n_ - 1] += (-1)**m*a[place(n_, n, -m)]*v
    e = np.exp(1j*np.arange(1 - n_, n_)[:, None]*ph[0])
    want = fm.T.dot(e)
    check_close(s.synthesis(a), want, atol=1e-9*n_, what="synthesis")
    check_close(s.analysis(want), a, atol=1e-9*n_, what="analysis")
    # the functions themselves, the highest ones included
    for n in (n_ - 1, c["seed"] % n_):
        for m in (n, -n, c["seed"] % (n + 1)):
            one = np.zeros((n_, n_))
            one[place(n_, n, m)] = 1
            v = np.asarray(p[n, abs(m)], float)*(
                (-1)**m if m < 0 else 1)
            check_close(s.synthesis(one), v[:, None]*np.exp(1j*m*ph),
                        atol=1e-10*n_, what="Y %d %d" % (n, m))
    check_close(np.sum(s.weight)*2*np.pi, 4*np.pi, atol=1e-10,
                what="sum of the weights")
    ctx.label("nmax %s" % ("10-24" if n_ < 25 else
                           "25-64" if n_ < 65 else "65-150"))
    ctx.nontrivial()


@st.composite
def _coords(draw):
    sh = draw(st.sampled_from([(1,), (3,), (2, 2), (1, 4)]))
    n = int(np.prod(sh))
    return dict(sh=sh, x=[draw(st.lists(
        st.one_of(g.num(-5, 5, 2), g.wide(), st.just(0.)), min_size=n,
        max_size=n)) for i in range(3)],
        d=[draw(st.lists(g.num(-5, 5, 2), min_size=n, max_size=n))
           for i in range(3)],
        bc=draw(st.booleans()))


def check_coords(c, ctx):
    from electrode import spherical_harmonics as sh
    sp = tuple(c["sh"])
    x, y, z = [np.array(v).reshape(sp) for v in c["x"]]
    r, th, ph = sh.cartesian_to_spherical(x, y, z)
    rr = np.sqrt(x**2 + y**2 + z**2)
    check_close(r, rr, atol=0, rtol=1e-12, what="radius")
    require(np.all((th >= 0) & (th <= np.pi)), "theta range")
    require(np.all(np.abs(ph) <= np.pi), "phi range")
    tol = 1e-12*(rr.max() + 1e-300)
    check_close(r*np.cos(th), z, atol=tol, what="z")
    check_close(r*np.sin(th)*np.cos(ph), x, atol=tol, what="x")
    check_close(r*np.sin(th)*np.sin(ph), y, atol=tol, what="y")
    for u, v in zip(sh.spherical_to_cartesian(r, th, ph), (x, y, z)):
        check_close(u, v, atol=tol, what="there and back")
    # any spherical coordinates, also out of the standard range
    a, b = np.array(c["d"][0]).reshape(sp), np.array(c["d"][1]).reshape(sp)
    u = sh.spherical_to_cartesian(rr, a, b)
    check_close(u[0], rr*np.sin(a)*np.cos(b), atol=tol, what="x")
    check_close(u[1], rr*np.sin(a)*np.sin(b), atol=tol, what="y")
    check_close(u[2], rr*np.cos(a), atol=tol, what="z")
    # scalars broadcast
    u = sh.spherical_to_cartesian(2., a, b)
    require(all(ui.shape == sp for ui in u), "broadcast shape")
    u = sh.spherical_to_cartesian(rr, 1., 2.)
    require(all(ui.shape == sp for ui in u), "broadcast shape")
    ok = np.abs(np.sin(th)) > 1e-3
    ok &= rr > 1e-3
    if not np.all(ok):
        ctx.label("polar or origin")
        return
    # displacements
    d = [np.array(v).reshape(sp) for v in c["d"]]
    keep = [v.copy() for v in d]
    s = sh.derivatives_spherical_cartesian(d, r, th, ph)
    for v, w in zip(d, keep):
        check_equal(v, w, "argument modified")
    dn = np.sqrt(sum(v**2 for v in d))
    st_ = np.sin(th)
    # independent: with the unit vectors
    er = [np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)]
    et = [np.cos(th)*np.cos(ph), np.cos(th)*np.sin(ph), -np.sin(th)]
    ep = [-np.sin(ph), np.cos(ph), 0*ph]
    dot = lambda p, q: sum(i*j for i, j in zip(p, q))
    check_close(s[0], dot(er, d), atol=1e-11*(1 + dn), what="dr")
    check_close(s[1], dot(et, d)/rr, atol=1e-11*(1 + dn)/rr, what="dtheta")
    check_close(s[2], dot(ep, d)/(rr*st_),
                atol=1e-11*(1 + dn)/(rr*np.abs(st_)), what="dphi")
    check_equal(len(s), 3, "components")
    for how in ("to_spherical",):
        s2 = sh.derivatives_spherical_cartesian(d, r, th, ph, how)
        for u, v in zip(s, s2):
            check_equal(u, v, "default direction")
    back = sh.derivatives_spherical_cartesian(s, r, th, ph, "to_cartesian")
    for u, v in zip(back, d):
        check_close(u, v, atol=1e-9*(1 + dn), what="there and back")
    # to cartesian from any components
    k = sh.derivatives_spherical_cartesian(d, r, th, ph, "to_cartesian")
    w = [er[i]*d[0] + rr*et[i]*d[1] + rr*st_*ep[i]*d[2] for i in range(3)]
    for u, v in zip(k, w):
        check_close(u, v, atol=1e-11*(1 + dn)*(1 + rr), what="to cartesian")
    ctx.nontrivial(np.any(dn > 0))


@st.composite
def _grid(draw):
    return dict(o=draw(st.lists(g.vec(-5, 5), min_size=1, max_size=4)),
                r=draw(st.one_of(st.none(), g.num(.01, 3, 2))),
                n=draw(st.one_of(st.none(), st.integers(1, 9))),
                flat=draw(st.booleans()))


def check_grid(c, ctx):
    from electrode import SphericalGrid
    o = c["o"]
    if c["flat"]:
        o = o[:1]
    kw = {}
    if c["r"] is not None:
        kw["r"] = c["r"]
    if c["n"] is not None:
        kw["n"] = c["n"]
    r, n = kw.get("r", 1e-2), kw.get("n", 6)
    gr = SphericalGrid(o[0] if c["flat"] else o, **kw)
    m = np.array(gr.to_mgrid())
    check_equal(m.shape, (3, len(o), n, 2*n), "shape")
    check_equal(tuple(gr.shape), m.shape[1:], "grid shape")
    th = np.arccos(np.polynomial.legendre.leggauss(n)[0])
    ph = np.arange(2*n)*np.pi/n
    check_close(np.sort(gr.theta[:, 0]), np.sort(th), atol=1e-12,
                what="theta")
    th = gr.theta[:, :1]
    check_close(gr.theta, np.broadcast_to(th, gr.theta.shape), what="theta")
    check_close(gr.phi, np.broadcast_to(ph, gr.theta.shape), atol=1e-12,
                what="phi")
    u = np.array([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph),
                  np.cos(th) + 0*ph])
    want = np.array(o).T[:, :, None, None] + r*u[:, None]
    check_close(m, want, atol=1e-12*(10 + r), what="points")
    p = np.array(gr.to_points())
    check_equal(p.shape, (len(o)*2*n*n, 3), "points")
    check_equal(p, m.reshape(3, -1).T, "points")
    # a band-limited function around every origin is analysed
    f = want[0, :] - np.array(o)[:, 0, None, None]
    if n > 1:
        for i in range(len(o)):
            a = gr.spherical_harmonics.analysis(f[i])
            w = np.zeros((n, n), complex)
            w[1, 1] = -r*np.sqrt(2*np.pi/3)
            w[place(n, 1, -1)] = r*np.sqrt(2*np.pi/3)
            check_close(a, w, atol=1e-10*r, what="analysis of x")
    ctx.nontrivial(n > 1)
    ctx.label("%d origins" % len(o))


SUBS = [
    Sub("transform", _trafo, check_trafo, 500, 12000,
        "resolution above 1 and a non-zero coefficient", shards=5),
    Sub("big", _big, check_big, 40, 800, "always", shards=2),
    Sub("coordinates", _coords, check_coords, 900, 30000,
        "a non-zero displacement away from the poles", shards=2),
    Sub("grid", _grid, check_grid, 500, 10000, "resolution above 1",
        shards=2),
]
