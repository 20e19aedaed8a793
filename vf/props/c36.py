"""C36 voltage adjustment"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from .. import harm
from .. import traps
from ..core import Sub, check_close, check_equal, raises, require


@st.composite
def _op(draw):
    k = draw(st.sampled_from(["propose"]*4 + ["accept"]*4 + ["reject"]*2
                             + ["own", "own", "change", "set", "save",
                                "try"]))
    op = dict(k=k, axis=draw(st.integers(0, 2)), dis=draw(g.num(-.05, .05, 3)),
              l=draw(st.sampled_from([1., 2., .5])),
              method=draw(st.sampled_from(["force", "position", "position"])),
              same=draw(st.booleans()), defaults=draw(st.booleans()),
              dv=draw(g.vec(-.05, .05, 3, 3)),
              which=draw(st.lists(st.integers(0, 6), min_size=1, max_size=3,
                                  unique=True)),
              form=draw(st.sampled_from(["list", "array"])))
    return op


@st.composite
def _case(draw):
    # sizes of the groups of electrodes with the same voltage change
    sizes = draw(st.lists(st.integers(1, 2), min_size=3, max_size=3))
    return dict(sizes=sizes, others=draw(st.integers(0, 2)),
                grad=draw(st.lists(g.vec(-.5, .5, 3, 2), min_size=8,
                                   max_size=8)),
                quad=draw(st.lists(g.vec(-.1, .1, 5, 2), min_size=8,
                                   max_size=8)),
                dcs=draw(g.vec(-.1, .1, 8, 2)), ew=draw(st.permutations([
                    draw(g.num(.6, .9, 2)), draw(g.num(1.05, 1.3, 2)),
                    draw(g.num(1.5, 2, 2))])),
                ang=draw(g.vec(-1, 1, 3, 2)), x0=draw(g.vec(-.3, .3, 3, 2)),
                order=draw(st.sampled_from([None, None, [2, 1, 0],
                                            [1, 2, 0], [0, 1, 2]])),
                scale=draw(st.sampled_from([1., 1e3, 1e3])),
                xm=draw(st.booleans()), tup=draw(st.booleans()),
                saved=draw(st.booleans()),
                ops=draw(st.lists(_op(), min_size=1, max_size=8)))


def check_case(c, ctx):
    from electrode.adjust import Adjust
    # trap of known curvature, and electrodes with fields and little curvature
    sc = c["scale"]
    Q = traps.spd(c["ew"], c["ang"])*sc
    s = traps.quadratic_system(Q, c["x0"], 1., None)
    names, groups, terms = [], [], {}
    n = sum(c["sizes"]) + c["others"]
    G = np.zeros((3, 3))
    k = 0
    owner = [j for j, size in enumerate(c["sizes"]) for _ in range(size)]
    for i in range(n):
        a, q = c["grad"][i % 8], c["quad"][i % 8]
        # mainly one direction for each group
        tt = [[1, m, a[m + 1] + (i < len(owner) and owner[i] == m + 1)]
              for m in (-1, 0, 1)] + [
            [2, m, q[m + 2]] for m in range(-2, 3)]
        if not any(x[2] for x in tt):
            tt.append([1, 0, .5])
        tt = [[l, m, x*sc] for l, m, x in tt]
        nm = "a%d" % i
        terms[nm] = tt
        names.append(nm)
        s.append(harm.Harmonic(tt, list(c["x0"]), name=nm,
                               dc=c["dcs"][i % 8]))
    if c["tup"]:
        s.reverse()
    for size in c["sizes"]:
        groups.append(names[k:k+size])
        k += size

    def gradient(nm, x):
        return np.asarray(harm.evaluate(terms[nm], list(c["x0"]), [x], 1)
                          [0][0], float)

    def coefficients(x):
        return np.array([sum(gradient(nm, x) for nm in gr)
                         for gr in groups]).T
    if np.linalg.svd(coefficients(c["x0"]))[1][-1] < .15*sc:
        ctx.skip("groups do not span all directions")
    everything = [e.name for e in s]

    def dcs():
        return {nm: float(s[nm].dc) for nm in everything}
    rfs = s.rfs.copy()
    adj = Adjust(s)
    require(adj.volts == {nm: [] for nm in everything}, "initial histories")
    # a good start: the minimum, by Newton's method (close to quadratic)
    x = np.array(c["x0"])
    for _ in range(30):
        H = s.potential(x, 2)[0]
        dx = -np.linalg.solve(H, s.potential(x, 1)[0])
        x = x + dx*min(1, .3/max(1e-9, np.abs(dx).max()))
    if np.abs(s.potential(x, 1)).max() > 1e-9*sc or np.abs(x).max() > 3 or \
            np.linalg.eigvalsh(s.potential(x, 2)[0])[0] < .2*sc:
        ctx.skip("no minimum")
    ew, ev = np.linalg.eigh(s.potential(x, 2)[0])
    if np.diff(ew).min() < .05*sc:
        ctx.skip("degenerate modes")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raises(lambda: adj.next_step(), AttributeError, IndexError,
               TypeError)
    adj.set_volts(dcs(), save=True)
    config = [list(gr) for gr in groups]
    kw = {}
    if c["order"] is not None:
        kw["axis_order"] = list(c["order"])
    if c["xm"] or sc > 1:
        # (Newton-CG reports a loss of precision for large potentials)
        kw["xm"] = list(x)
    xm, axes = adj.set_move_init(config, **kw)
    check_close(xm, x, atol=1e-3, what="start")
    B = np.array([v for _, v in axes])
    require([a for a, _ in axes] == ["axial", "radial1", "radial2"],
            "names of the axes")
    ew, ev = np.linalg.eigh(s.potential(np.array(xm, float), 2)[0])
    xs = np.abs(ev[0])
    if c["order"] is not None:
        order = c["order"]
    else:
        order = np.argsort(-xs)
        if np.diff(np.sort(xs)).min() < 1e-3:
            ctx.skip("order of the axes")
    ew, ev = ew[order], ev[:, order].T
    for i in range(3):
        require(min(np.abs(B[i] - ev[i]).max(), np.abs(B[i] + ev[i]).max())
                < 1e-6, "axis %i: %s is not %s" % (i, B[i], ev[i]))
    check_close(adj.curves[0], ew, rtol=1e-9, what="curvatures")
    check_close(adj.basis, B, atol=0, what="basis")

    # model
    hist = {nm: [v] for nm, v in dcs().items()}
    xms, curves = [np.array(xm, float)], [ew]
    now = dcs()
    proposed = None
    accepted = rejected = 0

    def same_state(what):
        check_close([s[nm].dc for nm in everything],
                    [now[nm] for nm in everything], rtol=1e-12, atol=1e-12,
                    what="%s: voltages" % what)
        check_equal(s.rfs, rfs, "rf voltages")
        require(sorted(adj.volts) == sorted(hist), "%s: histories of %s" % (
            what, sorted(adj.volts)))
        for nm in hist:
            check_close(adj.volts[nm], hist[nm], rtol=1e-12, atol=1e-12,
                        what="%s: history of %s" % (what, nm))
        require(len(adj.xms) == len(xms) and len(adj.curves) == len(curves),
                "%s: %i positions and %i curvatures" % (
                    what, len(adj.xms), len(adj.curves)))
        for a, b in zip(list(adj.xms) + list(adj.curves), xms + curves):
            check_close(a, b, atol=0, what="%s: old entries" % what)
        check_close(adj.basis, B, atol=0, what="%s: basis" % what)
        require(adj.E_config == [list(gr) for gr in groups], "configuration")

    def change(op, what):
        """check of a voltage change against the field it makes"""
        ax, l, dis = op["axis"], op["l"], op["dis"]
        xo = xms[-1]
        kw = dict(axis=ax, l=l, dis=dis, method=op["method"])
        if op["same"]:
            kw["same_scale"] = True
        if op["method"] == "force":
            if op["defaults"]:
                kw.pop("method")
            at = xo
            want = B[ax]*curves[0 if op["same"] else -1][ax]*dis/l
        else:
            at = xo + dis/l*B[ax]
            want = -s.potential(at, 1)[0]
        return kw, at, want

    def verify(dv, at, want, what):
        dv = np.asarray(dv, float)
        require(dv.shape == (3,), "voltage changes %s" % (dv,))
        got = coefficients(at).dot(dv)
        check_close(got, want, atol=1e-9*(1 + np.abs(want).max()),
                    what="%s: field of the change" % what)

    def apply(dv):
        t = {nm: hist[nm][-1] for nm in hist}
        t0 = dict(now)
        for gr, v in zip(groups, dv):
            for nm in gr:
                t0[nm] = hist[nm][-1] + v
        return t0

    def newmin(xm, what):
        # within the precision of the search
        H = s.potential(np.array(xm), 2)[0]
        gr = s.potential(np.array(xm), 1)[0]
        d = np.linalg.solve(H, gr)
        # Nelder-Mead ends by steps and changes of the potential of 1e-4, but
        # may also get stuck near where it starts, 0.01 away
        require(d.dot(H).dot(d) < 5e-3 or np.abs(d).max() < 3e-2,
                "%s: %s is no minimum, %s away" % (what, xm, d))

    def modes(xm):
        w, v = np.linalg.eigh(s.potential(np.array(xm), 2)[0])
        m = np.abs(B.dot(v))
        o = m.argmax(axis=1)
        if len(set(o)) < 3 or m.max(axis=1).min() < .8:
            return None
        w, v = w[o], v[:, o].T
        return w, v*np.sign((v*B).sum(1))[:, None]
    settled = True
    for i, op in enumerate(c["ops"]):
        k = op["k"]
        what = "step %i %s" % (i, k)
        if k in ("propose", "change"):
            if op["method"] == "position" and not settled:
                # documented: the proposed voltages are applied
                continue
            kw, at, want = change(op, what)
            if np.linalg.svd(coefficients(at))[1][-1] < .05*sc:
                ctx.skip("groups do not span all directions")
            if k == "change":
                dv = adj.volt_change(**kw)
                verify(dv, at, want, what)
                same_state(what)
                continue
            r = adj.propose_move(**kw)
            dv, (xn, off), df, dvec = r
            verify(dv, at, want, what)
            now = apply(dv)
            settled = False
            proposed = (np.array(dv), np.array(xn))
        elif k == "try":
            dv = np.array(op["dv"])
            r = adj.xm_freq_change(dv)
            now = apply(dv)
            settled = False
            xn, off, w, df, dvec = r
        elif k == "accept":
            if proposed is None:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    raises(lambda: adj.next_step(), AttributeError)
                same_state(what)
                continue
            adj.next_step()
            dv, xn = proposed
            now = apply(dv)
            for nm in hist:
                hist[nm].append(now[nm] if any(nm in gr for gr in groups)
                                else hist[nm][-1])
            xms.append(np.array(adj.xms[-1]))
            curves.append(np.array(adj.curves[-1]))
            same_state(what)
            check_close(xms[-1], xn, atol=0, what="%s: position" % what)
            w = modes(xn)
            if w is None:
                ctx.skip("modes exchanged")
            check_close(curves[-1], w[0], rtol=1e-9, what="%s: curvatures"
                        % what)
            proposed, settled = None, True
            accepted += 1
            continue
        elif k == "own":
            dv = np.array(op["dv"])
            adj.next_step(list(dv) if op["form"] == "list" else dv.copy())
            now = apply(dv)
            for nm in hist:
                hist[nm].append(now[nm] if any(nm in gr for gr in groups)
                                else hist[nm][-1])
            xms.append(np.array(adj.xms[-1]))
            curves.append(np.array(adj.curves[-1]))
            same_state(what)
            newmin(xms[-1], what)
            w = modes(xms[-1])
            if w is None:
                ctx.skip("modes exchanged")
            check_close(curves[-1], w[0], rtol=1e-9, what="%s: curvatures"
                        % what)
            proposed, settled = None, True
            accepted += 1
            continue
        elif k == "reject":
            if op["same"]:
                adj.next_step(accept=False)
            else:
                adj.next_step(list(op["dv"]), False)
            now = {nm: hist[nm][-1] for nm in hist}
            proposed, settled = None, True
            same_state(what)
            rejected += 1
            continue
        else:
            conf = {everything[j % len(everything)]:
                    now[everything[j % len(everything)]] + op["dv"][0]
                    for j in op["which"]}
            if not settled:
                continue
            cp = dict(conf)
            adj.set_volts(conf, save=(k == "save"))
            require(conf == cp, "%s: configuration modified" % what)
            now.update(conf)
            if k == "save":
                for nm in hist:
                    hist[nm].append(now[nm] if nm in conf else hist[nm][-1])
                same_state(what)
            else:
                # temporary voltages, until they are set back
                same_state(what)
                adj.next_step(accept=False)
                now = {nm: hist[nm][-1] for nm in hist}
                proposed = None
                same_state(what)
            continue
        # a change was tried
        same_state(what)
        newmin(xn, what)
        check_close(off, np.array(xn) - xms[-1], atol=1e-12,
                    what="%s: offset" % what)
        m = modes(xn)
        if m is None:
            ctx.skip("modes exchanged")
        if (m[0] < .05*sc).any() or np.diff(np.sort(m[0])).min() < .02*sc:
            ctx.skip("modes")
        check_close(df, np.sqrt(m[0]) - np.sqrt(curves[0]), atol=1e-8*sc,
                    what="%s: change of the frequencies" % what)
        check_close(dvec, m[1] - B, atol=1e-6,
                    what="%s: change of the vectors" % what)
        if k == "propose" and op["method"] == "position" and abs(
                op["dis"]) > 1e-6:
            # the force vanishes where the ion should go
            kw, at, _ = change(op, what)
            check_close(s.potential(at, 1)[0], [0, 0, 0], atol=1e-9*sc,
                        what="%s: force at the new position" % what)
            ctx.label("moved there")
        if k == "propose":
            ctx.label(op["method"])
    if accepted:
        ctx.label("accepted")
    if rejected:
        ctx.label("rejected")
    ctx.label("order" if c["order"] else "default order")
    require(len(set(len(v) for v in adj.volts.values())) == 1,
            "lengths of the histories")
    ctx.nontrivial(accepted > 0 and len(c["ops"]) > 2)


SUBS = [
    Sub("steps", _case, check_case, 400, 10000,
        "accepted at least once among more than two steps", shards=4),
]
