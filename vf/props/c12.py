"""C12 modes and the textual analysis"""
import logging
import re

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import oracles as o
from .. import traps
from ..core import Sub, check_close, check_equal, require, finite

AMU = 1.66053906660e-27
QE = 1.602176634e-19
HPL = 6.62607015e-34
EPS0 = 8.8541878128e-12


# ---------------------------------------------------------------- modes

@st.composite
def _modes(draw):
    k = draw(st.integers(0, 2))
    c = dict(kind=k, x=draw(g.points3(1, 1))[0], sorted=draw(st.integers(0, 2)),
             form=draw(st.integers(0, 2)), k=draw(g.num(.1, 3, 2)))
    if k == 0:
        c["spec"] = draw(g.system_spec(1, 4))
    elif k == 1:
        c["trap"] = draw(traps.surface_trap())
        c["off"] = draw(g.vec(-.3, .3))
    else:
        c["ew"] = draw(st.lists(st.one_of(g.num(-1, 3, 1), st.just(1.)),
                                min_size=3, max_size=3))
        c["ang"] = draw(g.vec(-3, 3, 3, 2))
        c["x0"] = draw(g.vec(-2, 2))
    return c


def check_modes(c, ctx):
    x = np.array(c["x"])
    if c["kind"] == 0:
        s = g.build_system(c["spec"])
        s.rf_coeff = c["k"]
    elif c["kind"] == 1:
        s, x = traps.build_surface_trap(c["trap"])
        x = x + c["off"]
    else:
        ew = np.array(c["ew"])
        ew[0] += max(0, -ew.sum())
        s = traps.quadratic_system(traps.spd(ew, c["ang"]), c["x0"])
    H = s.potential(x[None], 2)[0]
    arg = [x, list(x), x[None]][c["form"]]
    if c["sorted"] == 0:
        w, v = s.modes(arg)
    else:
        w, v = s.modes(arg, sorted=c["sorted"] == 1)
    w, v = np.asarray(w), np.asarray(v)
    require(w.shape == (3,) and v.shape == (3, 3), "shapes")
    n = np.abs(H).max() + 1e-300
    check_close(v.T @ v, np.eye(3), atol=1e-12, what="orthonormality")
    check_close(H @ v, v*w, atol=1e-12*n, what="eigenvectors")
    if c["sorted"] != 2:
        require(np.all(np.diff(w) >= 0), "not ascending: %s" % w)
    check_close(np.sort(w), np.linalg.eigvalsh(H), atol=1e-12*n,
                what="eigenvalues")
    if c["kind"] == 2:
        check_close(np.sort(w), np.sort(ew), atol=1e-10*(1 + np.abs(ew).max()),
                    what="known curvatures")
    ctx.label("kind%d" % c["kind"])
    ctx.nontrivial(np.abs(H).max() > 1e-9 and np.ptp(w) > 0)


# ------------------------------------------------------------- analysis

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)"


def numbers(t):
    return [float(i) for i in re.findall(NUM, t)]


class Report(object):
    def __init__(self, lines):
        self.lines = [q for l in lines for q in [l]]
        self.pos = 0

    def find(self, label, after=None):
        """index of the line containing label, after the line containing
        after"""
        k = 0
        if after is not None:
            k = self.find(after) + 1
        for i in range(k, len(self.lines)):
            if label in self.lines[i]:
                return i
        raise AssertionError("no line with %r in\n%s" % (
            label, "\n".join(self.lines)))

    def nums(self, label, after=None, n=None, plus=0):
        i = self.find(label, after) + plus
        t = self.lines[i]
        if not plus:
            t = t[t.index(label) + len(label):]
        v = numbers(t)
        if n is not None and len(v) != n:
            raise AssertionError("%d numbers in %r, expected %d" % (
                len(v), self.lines[i], n))
        return np.array(v)


def close_print(got, want, digits, what, atol=0., array=False):
    """values printed with `digits` significant digits (of the largest
    element for arrays)"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    scale = np.abs(want)
    if array:
        # numpy prints 8 decimals, of the mantissa or (if the largest is
        # at least 1e-4) of the number
        m = scale.max(initial=0)
        tol = 1.01e-8*max(m, 1. if m > .99e-4 else 0.) + 1e-300
    else:
        tol = .51*10.**(1 - digits)*scale*1.01 + 1e-300
    check_close(got, want, atol=tol + atol, what=what)


@st.composite
def _analysis(draw):
    c = dict(trap=draw(st.booleans()),
             axis=draw(st.sampled_from([[0, 1, 2], [0, 1, 2], [1, 2], [0, 1],
                                        [0, 2], [2, 1], [2]])),
             m=draw(st.integers(4, 200)), q=draw(st.integers(1, 2)),
             l=draw(g.num(20, 300, 1)), o=draw(g.num(10, 100, 1)),
             beta=draw(g.num(.02, .45, 3)),
             aniso=draw(st.lists(g.num(.6, 1.7, 2), min_size=3, max_size=3)),
             ang=draw(g.vec(-3, 3, 3, 2)), rang=draw(g.vec(-3, 3, 3, 2)),
             x0=draw(g.vec(-2, 2, 3, 2)), off=draw(g.vec(-.2, .2, 3, 2)),
             st=draw(traps.surface_trap()),
             min_off=draw(st.booleans()),
             method=draw(st.sampled_from([None, None, "Newton-CG", "BFGS",
                                          "Powell"])),
             moff=draw(st.sampled_from([None, [.02, 0., -.03],
                                        [.01, .02, .03]])),
             soff=draw(st.sampled_from([None, [0., 0., .5],
                                        [.1, 0., .2]])),
             saddle=draw(st.booleans()),
             log=draw(st.integers(0, 3)), form=draw(st.integers(0, 2)),
             ions=draw(st.sampled_from([None, 1, 2, 2])),
             seed=draw(st.integers(0, 10**6)))
    return c


def build(c):
    m, q = c["m"]*AMU, c["q"]*QE
    l, om = c["l"]*1e-6, 2*np.pi*c["o"]*1e6
    co = np.sqrt(q/m)/(2*l*om)
    if c["trap"]:
        s, x = traps.build_surface_trap(c["st"])
        # rf voltage such that the secular frequency is a fraction of omega
        H = s.pseudo_potential(x[None], 2)[0]
        rfk = np.linalg.eigvalsh(H)[-1]
        k = (c["beta"]*om/2)**2*m*l*l/q      # wanted curvature in V/l^2
        s.rfs = s.rfs*np.sqrt(k/rfk)/co
        s.dcs = s.dcs*k/rfk
        x0 = None
        x = x + .3*np.array(c["off"])*[1, .3, .3]
    else:
        k = (c["beta"]*om/2)**2*m*l*l/q
        ew = k*np.array(c["aniso"])
        if c["saddle"]:
            ew[0] *= -.3
        Q = traps.spd(ew, c["ang"])
        s = traps.quadratic_system(Q, c["x0"], rf_coeff=co,
                                   rot=o.rotation(c["rang"]))
        x0 = np.array(c["x0"])
        x = x0 + c["off"]
    r = s.rf_scale(m, q, l, om)
    check_close(r, co, rtol=1e-13, what="rf_scale")
    return s, x, x0, m, q, l, om, co


def check_analysis(c, ctx):
    s, x, x0, m, q, l, om, co = build(c)
    ax = c["axis"]
    kw = dict(axis=tuple(ax), m=m, q=q, l=l, o=om)
    if c["min_off"]:
        kw["min_off"] = True
    method = c["method"] or "Nelder-Mead"
    if c["method"]:
        kw["min_method"] = c["method"]
    moff, soff = np.zeros(3), np.zeros(3)
    if c["moff"]:
        kw["min_offset"] = moff = np.array(c["moff"])
    if c["ions"] == 2 and np.linalg.eigvalsh(s.potential(x[None], 2)[0])[0] <= 0:
        c = dict(c, ions=1)         # two ions are not held together
    if c["ions"]:
        kw["ions"] = c["ions"]
    if c["soff"]:
        kw["saddle_offset"] = soff = np.array(c["soff"])
    xa = [x, list(x), tuple(x)][c["form"]]
    # direct computations
    trap = x
    if not c["min_off"]:
        try:
            trap = s.minimum(x + moff, axis=tuple(ax), method=method)
        except ValueError:
            ctx.skip("no minimum found")
    try:
        sad = s.saddle(x + soff, axis=tuple(ax))
    except Exception:
        sad = None
    keep = x.copy()
    np.random.seed(c["seed"])       # offsets of the ions
    try:
        lines = list(s.analyze_static(xa, **kw))
    except np.linalg.LinAlgError:
        # ions may leave a shallow trap
        require(c["ions"] == 2 and c["trap"], "analysis fails")
        ctx.label("two ions escape")
        kw["ions"] = 1
        lines = list(s.analyze_static(xa, **kw))
        c = dict(c, ions=1)
    check_equal(np.array(xa), keep, "point modified")
    if c["log"] == 0:
        got = []

        class H(logging.Handler):
            def emit(self, record):
                got.append(record.getMessage())
        lg = logging.getLogger("electrode")
        h = H()
        lg.addHandler(h)
        lg.setLevel(logging.CRITICAL)
        try:
            np.random.seed(c["seed"])
            r = s.analyze_static(xa, log=logging.CRITICAL, **kw)
            for _ in (r or ()):
                pass
        finally:
            lg.removeHandler(h)
        check_equal(got, lines, "logged lines")
    r = Report(lines)
    try:
        _compare(c, r, s, x, x0, m, q, l, om, co, trap, sad, ax, ctx)
    except AssertionError as err:
        require(False, str(err))


def _compare(c, r, s, x, x0, m, q, l, om, co, trap, sad, ax, ctx):
    um = l/1e-6
    v = r.nums("f=", "parameters")
    # "f=.. MHz, m=.. amu, q=.. qe, l=.. um, scale=.. V'/V_SI"
    close_print(v[:5], [om/(2e6*np.pi), m/AMU, q/QE, um, co], 3,
                "parameters", atol=1e-6)
    close_print(r.nums("analyze point:", n=3), x, 8, "point", array=True)
    off = r.nums("minimum is at offset:", n=3)
    R = [i for i in range(3) if i not in ax]
    mo = np.zeros(3) if c["min_off"] or not c["moff"] else c["moff"]
    require(all(abs(off[i] - mo[i]) <= 1.1e-8*(mo[i] != 0) for i in R),
            "minimum varies axes %s: %s" % (R, off))
    close_print(off, trap - x, 8, "offset of the minimum", array=True)
    mu_off = r.nums("minimum is at offset:", plus=1)[:3]
    close_print(mu_off, (trap - x)*um, 8, "offset in um", array=True)
    if x0 is not None and not c["min_off"] and not c["saddle"] and len(R) == 0:
        require(np.abs(trap - x0).max() < .05,
                "minimum %s of a harmonic trap at %s" % (trap, x0))
        ctx.label("minimum known")
    pdc = s.electrical_potential(x, 0, "dc")[0, 0]
    f = s.electrical_potential(x, 1, "rf")[0]
    prf = co**2*(f @ f)
    close_print(r.nums("dc electrical:", "potential:")[:1], [pdc], 2,
                "dc potential")
    close_print(r.nums("rf pseudo:", "potential:")[:1], [prf], 2,
                "pseudopotential", atol=1e-12*abs(prf))
    if sad is None:
        require(any("saddle not found" in t for t in r.lines),
                "reports a saddle where the search fails")
        ctx.label("no saddle")
    else:
        close_print(r.nums("saddle offset:", n=3), sad[0] - x, 8,
                    "saddle offset", array=True)
        close_print(r.nums("saddle offset:", plus=1)[:3], (sad[0] - x)*um, 8,
                    "saddle offset in um", array=True)
        so = r.nums("saddle offset:", n=3)
        require(all(abs(so[i] - (c["soff"] or [0]*3)[i]) < 1e-7 for i in R),
                "saddle varies axes %s: %s" % (R, so))
        h = float(np.asarray(sad[1]).reshape(())) - (pdc + prf)
        close_print(r.nums("saddle height:")[:1], [h], 2, "saddle height",
                    atol=1e-10*(abs(pdc) + abs(prf)))
        ctx.label("saddle")
    fdc = s.electrical_potential(x, 1, "dc")[0]
    close_print(r.nums("dc electrical:", "force:")[:3], fdc, 8, "dc force",
                array=True)
    close_print(r.nums("dc electrical:", "force:", plus=1)[:3], fdc/l, 8,
                "dc force in eV/m", array=True)
    hrf = o.expand_reference(s.electrical_potential(x, 2, "rf"), 2)[0]
    frf = 2*co**2*(hrf @ f)
    close_print(r.nums("rf pseudo:", "force:")[:3], frf, 8, "rf force",
                array=True, atol=1e-12*np.abs(frf).max())
    close_print(r.nums("rf pseudo:", "force:", plus=1)[:3], frf/l, 8,
                "rf force in eV/m", array=True, atol=1e-12*np.abs(frf/l).max())
    # modes
    H = s.potential(x[None], 2)[0]
    w, V = np.linalg.eigh(H)
    i = r.find("normal curvatures:")
    close_print(numbers(r.lines[i].split(":", 1)[1])[:3], w, 8,
                "normal curvatures", array=True, atol=1e-11*abs(w).max())
    with np.errstate(invalid="ignore"):
        fpp = np.sqrt(q*w/m)/(2*np.pi*l)
    j = r.find("pseudopotential modes:")
    for k, (fi, wi) in enumerate(zip(fpp, w)):
        v = numbers(r.lines[j + 1 + k].split(":", 1)[1])
        require(len(v) == 4, "mode line %r" % r.lines[j + 1 + k])
        if wi > 1e-9*abs(w).max():
            close_print(v[:1], [fi/1e6], 4, "pseudopotential frequency",
                        atol=1e-9*fpp[-1]/1e6)
        elif wi < -1e-9*abs(w).max():
            require(np.isnan(v[0]), "frequency of an unstable mode: %r" % v[0])
        e = np.array(v[1:])
        check_close(H @ e, wi*e, atol=1e-7*abs(w).max(), what="mode vector")
        check_close(e @ e, 1., atol=1e-7, what="mode vector length")
    # full equation of motion
    dc = o.expand_reference(s.electrical_potential(x, 2, "dc"), 2)[0]
    a = 4*q/(m*l*l*om*om)*dc
    b = 2*q/(m*l*l*om*om)*hrf
    mult = o.floquet_multipliers([a, b], 400)
    grow = np.abs(np.log(np.abs(mult))).max()
    bounded = [t for t in r.lines if "motion is bounded" in t]
    require(len(bounded) == 1, "no boundedness line")
    beta = np.sort(np.abs(np.angle(mult)))[::2]/np.pi
    fm = beta*om/2/(2*np.pi)
    j = r.find("mathieu modes:")
    modes = []
    freqs = []
    for k in range(3):
        v = numbers(r.lines[j + 1 + k].split(":", 1)[1])
        require(len(v) == 4, "mode line %r" % r.lines[j + 1 + k])
        freqs.append(v[0]*1e6)
        modes.append(v[1:])
    freqs, modes = np.array(freqs), np.array(modes)
    if grow > 1e-2:
        require("False" in bounded[0], "%r, multipliers %s" % (
            bounded[0], mult))
        ctx.label("unbounded")
    elif grow < 1e-9 and beta.min() > 1e-3 and beta.max() < .98:
        require("True" in bounded[0], "%r, multipliers %s" % (
            bounded[0], mult))
        close_print(freqs, fm, 4, "frequencies of the rf motion",
                    atol=2e-6*om/(2*np.pi))
        ctx.label("bounded")
        ctx.nontrivial()
    # heating
    un = 1e-9
    E = np.array([[np.asarray(gr)[0, k] for k in range(3)] for gr in
                  s.individual_potential(x, 1)])*un/l
    close_print(r.nums("field-noise psd:")[:3], (E**2).sum(0), 8,
                "field noise", array=True, atol=1e-11*(E**2).sum())
    j = r.find("field-noise psd:")
    sem = ((E @ modes.T)**2).sum(0)
    for k in range(3):
        v = numbers(r.lines[j + 1 + k].split(":", 1)[1])
        t = r.lines[j + 1 + k]
        nd = numbers(t.split("ndot=")[1])[0]
        sf = numbers(t.split("S_E*f=")[1])[0]
        tol = 1e-6*(E**2).sum()
        if freqs[k] > 0:
            close_print([sf], [sem[k]*freqs[k]], 4, "S_E*f",
                        atol=(tol + 1e-3*sem[k])*freqs[k])
            close_print([nd], [sem[k]*q**2/(4*m*HPL*freqs[k])], 4, "ndot",
                        atol=(tol + 1e-3*sem[k])*q**2/(4*m*HPL*freqs[k]))
    two = [i for i, t in enumerate(r.lines) if "two ion modes" in t]
    if c["ions"] != 2:
        require(not two, "multiple ion modes of a single ion")
    else:
        require(len(two) == 1, "no section of two ion modes")
        # energy scale of the crystal in V and how harmonic it is known
        kk = q/(4*np.pi*EPS0*l)
        if x0 is not None and w[0] > 0:
            sep = (2*kk/w[0])**(1/3.)
            if w[1] > 1.15*w[0] and w[0]*sep**2 > 1e-4 and sep > .02 and (
                    np.abs(x - x0).max() < 3*sep):
                _two_ions(r, two[0], s, w, V, sep, m, q, l)
                ctx.label("two ion modes")


def _two_ions(r, i, s, w, V, sep, m, q, l):
    """two ions in a harmonic trap settle along the weakest axis"""
    v = numbers(r.lines[i + 1].split(":", 1)[1])
    require(len(v) == 3, "separation line %r" % r.lines[i + 1])
    check_close(v, [sep, sep*l/1e-6, sep*l/1e-6], rtol=.01 + .0051,
                what="separation of two ions")
    want = [(w[0], V[:, 0], 1), (3*w[0], V[:, 0], -1)]
    for k in (1, 2):
        want += [(w[k], V[:, k], 1), (w[k] - w[0], V[:, k], -1)]
    got = []
    for t in r.lines[i + 2:i + 8]:
        n = numbers(t.split(":", 1)[1])
        require(len(n) == 7, "mode line of two ions %r" % t)
        got.append(n)
    f = np.sort([np.sqrt(q*a/m)/(2*np.pi*l)/1e6 for a, b, c in want])
    got = np.array(got)
    check_close(got[:, 0], f, rtol=.02, what="frequencies of two ions")
    # vectors: eigenvectors of the Hessian (up to the inaccuracy of the
    # equilibrium) with the reported frequencies
    U = np.array([np.r_[b, c*b]/np.sqrt(2) for a, b, c in want]).T
    a = np.array([a for a, b, c in want])
    H = (U*a) @ U.T
    for n in got:
        e = n[1:]
        check_close(e @ e, 1., atol=1e-6, what="length of a two ion mode")
        check_close(H @ e, (2*np.pi*l*n[0]*1e6)**2*m/q*e,
                    atol=.05*abs(a).max(), what="two ion mode")


@st.composite
def _two(draw):
    c = draw(_analysis())
    c.update(trap=False, saddle=False, ions=2, sep=draw(
        st.sampled_from([.03, .05, .1, .3, 1.])), dx=draw(g.vec(-.5, .5)))
    w = c["aniso"]
    w[1], w[2] = [max(i, 1.2*min(w)) for i in w[1:]]
    w[0] = min(w[0], *[i/1.2 for i in w[1:]])
    return c


def check_two(c, ctx):
    m, q = c["m"]*AMU, c["q"]*QE
    om = 2*np.pi*c["o"]*1e6
    # length unit for which the separation is the wanted multiple
    w0 = c["aniso"][0]
    k = (c["beta"]*om/2)**2*m/q*w0          # V/m^2
    sep = (2*q/(4*np.pi*EPS0)/k)**(1/3.)
    c = dict(c, l=sep/c["sep"]*1e6)
    if not k*sep**2 > 2e-4:
        ctx.skip("weak crystal")
    s, x, x0, m, q, l, om, co = build(c)
    x = x0 + .5*c["sep"]*np.array(c["dx"])
    w, V = np.linalg.eigh(s.potential(x[None], 2)[0])
    np.random.seed(c["seed"])
    arg = [x, list(x), tuple(x)][c["form"]]
    r = Report(list(s.analyze_static(arg, m=m, q=q, l=l, o=om, ions=2,
                                     min_off=True)))
    check_close(c["sep"], (2*q/(4*np.pi*EPS0*l)/w[0])**(1/3.), rtol=1e-6)
    try:
        _two_ions(r, r.find("two ion modes"), s, w, V, c["sep"], m, q, l)
    except AssertionError as err:
        require(False, str(err))
    ctx.nontrivial()


SUBS = [
    Sub("two_ions", _two, check_two, 160, 6000,
        "two ions in a harmonic trap with a distinct weak axis", shards=2),
    Sub("modes", _modes, check_modes, 500, 20000,
        "a curvature with different eigenvalues", shards=2),
    Sub("analysis", _analysis, check_analysis, 360, 12000,
        "bounded rf motion whose frequencies are compared", shards=6),
]
