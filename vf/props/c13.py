"""C13 Floquet exponents of coupled rf motion"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite


def sym(n, lo, hi):
    m = n*(n + 1)//2

    def make(v):
        a = np.zeros((n, n))
        a[np.tril_indices(n)] = v
        return (a + a.T - np.diag(np.diag(a))).tolist()
    return st.lists(g.num(lo, hi, 2), min_size=m, max_size=m).map(make)


@st.composite
def _case(draw):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(0, 3))
    a = [draw(sym(n, -.6, 1.6))]
    for i in range(k):
        s = draw(st.sampled_from([.2, .6, 1.2]))
        a.append(draw(sym(n, -s, s)) if draw(st.integers(0, 5)) else
                 np.zeros((n, n)).tolist())
    return dict(a=a, r=draw(st.integers(3, 9)), lists=draw(
        st.integers(0, 5)) == 0)


def check_pairs(mu, c, v, a, r, M, ctx, what, skip=(), conv=None):
    """mu (k,), c, v (2r+1, n, k): exponents of the central band are those of
    the equation and c the Fourier coefficients of solutions"""
    n = a[0].shape[0]
    l = np.arange(-r, r + 1)
    size = sum(2*np.abs(i).sum(0).max() for i in a)
    good = {1: [], -1: []}
    near = []
    nM = np.linalg.norm(M, 2)
    for j in range(len(mu)):
        if abs(mu[j].imag) > 1.01:
            continue
        cj = c[..., j]
        top = np.abs(cj).max()
        require(top > 0, "%s: zero eigenvector" % what)
        ext = max(len(a) - 1, 1)
        edge = np.abs(np.concatenate((cj[:ext], cj[-ext:]))).max()/top
        if edge > 1e-5:
            ctx.label("not converged")
            continue
        # exponent
        lam = np.exp(mu[j]*np.pi)
        sm = np.linalg.svd(M - lam*np.eye(2*n), compute_uv=False)[-1]
        require(sm <= (2e-8 + 30*edge*(1 + size))*nM,
                "%s: exponent %s is none of the equation of motion "
                "(distance %.3g), multipliers %s" % (
                    what, mu[j], sm, np.linalg.eigvals(M)))
        near.append(lam)
        for s in (1, -1):
            f = mu[j] + s*2j*l
            full = np.zeros((2*r + 1 + 2*ext, n), complex)
            full[ext:-ext] = cj
            res = f[:, None]**2*cj + cj @ a[0]
            for i, ai in enumerate(a[1:], 1):
                res = res + (full[ext - i:ext - i + 2*r + 1]
                             + full[ext + i:ext + i + 2*r + 1]) @ ai
            tol = (1e-10 + 5*edge)*top*(4*r*r + size + abs(mu[j])**2)
            ok = np.abs(res).max() <= tol
            if v is not None:
                ok = ok and np.abs(v[..., j] - f[:, None]*cj).max() <= tol
            good[s].append((ok, j, np.abs(res).max(), tol))
    for s in (1, -1):
        if all(t[0] for t in good[s]):
            break
    else:
        require(False, "%s: not the Fourier coefficients of a solution: "
                "%s" % (what, [t for t in good[-1] if not t[0]][:2]))
    return near


def check_utils(c, ctx):
    from electrode import utils
    a = [np.array(i) for i in c["a"]]
    n, r = a[0].shape[0], c["r"]
    keep = [i.copy() for i in a]
    mu, b = utils.mathieu(r, *(c["a"] if c["lists"] else a))
    for i, k in zip(a, keep):
        check_equal(i, k, "argument modified")
    N = 2*n*(2*r + 1)
    mu, b = np.asarray(mu), np.asarray(b)
    require(mu.shape == (N,), "exponents: shape %s" % (mu.shape,))
    require(b.size == N*N and b.shape[-1] == N, "shape %s" % (b.shape,))
    finite(mu, "exponents")
    b = b.reshape(2*r + 1, 2, n, N)
    M = o.monodromy(a, 500)
    near = check_pairs(mu, b[:, 0], b[:, 1], a, r, M, ctx, "mathieu")
    # all exponents are there, if the truncation resolves them
    if r >= 6 and len(a) <= 3:
        central = np.exp(np.pi*mu[np.abs(mu.imag) < 3.01])
        for lam in np.linalg.eigvals(M):
            d = np.abs(central - lam).min()
            require(d < 2e-4*max(1, abs(lam)),
                    "multiplier %s is missing in %s" % (lam, central))
        ctx.label("all present")
    ctx.label("n=%d" % n, "%d terms" % len(a))
    ctx.nontrivial(len(near) >= 2*n and len(a) > 1
                   and any(np.any(i) for i in a[1:]))


@st.composite
def _matrix(draw):
    c = draw(_case())
    n = len(c["a"][0])
    c["r"] = draw(st.integers(0, 5))
    k = draw(st.integers(0, 2*c["r"] + 4))
    c["a"] = c["a"][:1] + [
        (draw(sym(n, -1, 1)) if draw(st.integers(0, 3)) else
         np.zeros((n, n)).tolist()) for i in range(k)]
    return c


def check_matrix(c, ctx):
    """whatever the cutoff: all the eigenpairs of the equations of motion
    restricted to the kept frequency components"""
    from electrode import utils
    a = [np.array(i) for i in c["a"]]
    n, r = a[0].shape[0], c["r"]
    mu, b = [np.asarray(i) for i in utils.mathieu(r, *(
        c["a"] if c["lists"] else a))]
    L = 2*r + 1
    N = 2*n*L
    require(mu.shape == (N,) and b.size == N*N, "shapes %s %s" % (
        mu.shape, b.shape))
    b = b.reshape(L, 2, n, N)
    # generator of the motion of the components, for either sign of the
    # labelling of the frequencies
    T = np.zeros((L, n, L, n))
    for l in range(L):
        for m in range(L):
            if abs(l - m) < len(a):
                T[l, :, m, :] = -a[abs(l - m)]
    T = T.reshape(L*n, L*n)
    bad = []
    for s in (1, -1):
        D = np.kron(np.diag(s*2j*np.arange(-r, r + 1)), np.eye(n))
        G = np.block([[D, np.eye(L*n)], [T, D]])
        w = np.linalg.eigvals(G)
        size = np.linalg.norm(G, 2)
        x = b[:, 0].reshape(L*n, N)
        v = b[:, 1].reshape(L*n, N)
        z = np.concatenate((x, v))
        res = np.abs(G @ z - z*mu).max()
        # (sums of powers: not sensitive to defective eigenvalues)
        tr = max(abs((mu**k).sum() - (w**k).sum())/(N*size**k)
                 for k in (1, 2, 3, 4))
        if res <= 1e-9*size and tr < 1e-10:
            break
        bad.append((res, tr))
    else:
        require(False, "eigenpairs of the truncated equations: residuals, "
                "moments %s" % (bad,))
    top = np.abs(b).reshape(N, N).max(0)
    require((top > 1e-6).all(), "zero eigenvectors")
    ctx.label("n=%d" % n)
    if len(a) > r + 1:
        ctx.label("more terms than the cutoff")
    ctx.nontrivial(len(a) > 1 and any(np.any(i) for i in a[1:2*r + 1]))


@st.composite
def _system(draw):
    return dict(kind=draw(st.integers(0, 1)),
                spec=draw(g.system_spec(1, 4)), x=draw(g.points3(1, 1))[0],
                trap=draw(traps.surface_trap()), off=draw(g.vec(-.2, .2)),
                amp=draw(st.one_of(
                    g.num(.05, 1.5, 2), g.num(.05, 1.5, 2),
                    st.sampled_from([1e-6, 1e-4, .01]))), form=draw(st.integers(0, 1)),
                k=draw(st.sampled_from([None, 1., 2.5])),
                r=draw(st.integers(3, 9)), default=draw(st.integers(0, 5)),
                static=draw(st.integers(0, 7)))


def check_system(c, ctx):
    if c["kind"]:
        s = g.build_system(c["spec"])
        x = np.array(c["x"])
    else:
        s, x = traps.build_surface_trap(c["trap"])
        x = x + c["off"]
    if c["k"]:
        s.rf_coeff = c["k"]
    if c["static"] == 0:
        # directions that are not confined have no frequency
        s.rfs = np.zeros(len(s))
        ctx.label("static")
    dc = o.expand_reference(s.electrical_potential(x, 2, "dc"), 2)[0]
    rf = o.expand_reference(s.electrical_potential(x, 2, "rf"), 2)[0]
    m = max(np.abs(dc).max()*16, np.abs(rf).max()*8)
    if not m > 1e-12:
        ctx.skip("no curvature")
    scale = np.sqrt(c["amp"]/m)
    a = [16*scale**2*dc, 8*scale**2*rf]
    r = c["r"]
    kw = dict(r=r)
    if c["default"] == 0:
        kw, r = {}, 2
    arg = [x, list(x)][c["form"]]
    mu, b = s.mathieu(arg, scale, sorted=False, **kw)
    mus, bs = s.mathieu(arg, scale, **kw)
    N = 6*(2*r + 1)
    mu, b, mus, bs = [np.asarray(i) for i in (mu, b, mus, bs)]
    require(mu.shape == (N,) and b.shape == (N, N), "shapes %s %s" % (
        mu.shape, b.shape))
    M = o.monodromy(a, 500)
    bb = b.reshape(2*r + 1, 2, 3, N)
    near = check_pairs(2*mu, bb[:, 0], bb[:, 1], a, r, M, ctx, "unsorted")
    # sorted
    ok = mus.imag >= 0
    require(ok.all(), "negative frequencies %s" % mus[~ok])
    require(np.all(np.diff(mus.imag) >= 0), "frequencies not ascending")
    require(bs.shape == (N, len(mus)), "eigenvector shape %s" % (bs.shape,))
    keep = mu[mu.imag >= 0]
    # (rounding may move pairs across zero)
    if np.abs(mu.imag).min() > 1e-6:
        check_equal(len(mus), len(keep), "number of kept exponents")
        check_close(mus.imag, np.sort(keep.imag), atol=1e-7,
                    what="sorted frequencies")
        ctx.label("counted")
    else:
        check_equal((mus.imag > 1e-6).sum(), (mu.imag > 1e-6).sum(),
                    "number of kept positive frequencies")
        if (mu.imag == 0).sum() >= 4:
            ctx.label("zero frequencies")
            require((mus.imag <= 1e-6).any(), "frequencies of zero were left "
                    "out: %s of %s" % (mus, mu))
    sb = bs.reshape(2*r + 1, 2, 3, len(mus))
    check_pairs(2*mus, sb[:, 0], sb[:, 1], a, r, M, ctx, "sorted")
    ctx.label("r=%d" % r)
    ctx.nontrivial(len(near) >= 6)


SUBS = [
    Sub("truncated equations", _matrix, check_matrix, 600, 20000,
        "time dependence within the cutoff", shards=3),
    Sub("floquet", _case, check_utils, 800, 30000,
        "all exponents of the central band converged, with time dependence",
        shards=4),
    Sub("system", _system, check_system, 400, 15000,
        "all exponents of the central band converged", shards=4),
]
