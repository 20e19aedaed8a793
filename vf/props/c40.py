"""C40 adaptive meshing: electrode/adaptive.py with a scripted triangulator"""
import contextlib
import io
import re
import sys
import types

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_close, check_equal, require, finite


def _dispatch(*args, **kw):
    return _dispatch.current(*args, **kw)


def adaptive():
    """the module, with `bem.pytriangle` (not installed) replaced"""
    if "bem.pytriangle" not in sys.modules:
        bem = types.ModuleType("bem")
        bem.pytriangle = types.ModuleType("bem.pytriangle")
        bem.pytriangle.triangulate = _dispatch
        bem.__path__ = []
        sys.modules["bem"] = bem
        sys.modules["bem.pytriangle"] = bem.pytriangle
    import electrode.adaptive
    return electrode.adaptive


def ccw(p):
    a, b, c = p
    return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])


class Mesher(object):
    """plays the triangulator: a fan of triangles per boundary, of which the
    given numbers are bisected before every further call"""
    def __init__(self, paths, splits, rot):
        self.calls, self.meshes = [], []
        self.tris = []
        self.pts = [tuple(p) for q in paths for p in q]
        n = 0
        for q in paths:
            for i in range(1, len(q) - 1):
                self.tris.append([n, n + i, n + i + 1])
            n += len(q)
        self.splits, self.rot = splits, rot

    def bisect(self, k):
        t = self.tris[k]
        p = [np.array(self.pts[i]) for i in t]
        j = int(np.argmax([((p[i] - p[(i + 1) % 3])**2).sum()
                           for i in range(3)]))
        a, b, c = t[j], t[(j + 1) % 3], t[(j + 2) % 3]
        m = len(self.pts)
        new = tuple(.5*(np.array(self.pts[a]) + self.pts[b]))
        if new in self.pts:
            m = self.pts.index(new)
        else:
            self.pts.append(new)
        self.tris[k] = [a, m, c]
        self.tris.append([m, b, c])

    def neighbors(self):
        own = {}
        for i, t in enumerate(self.tris):
            for j in range(3):
                own.setdefault(frozenset((t[j], t[(j + 1) % 3])), []).append(i)
        out = []
        for i, t in enumerate(self.tris):
            # neighbour j is opposite corner j
            row = []
            for j in range(3):
                o = [k for k in own[frozenset((t[(j + 1) % 3],
                                               t[(j + 2) % 3]))] if k != i]
                row.append(o[0] if o else -1)
            out.append(row)
        return out

    def __call__(self, *args, **kw):
        kw = dict(kw)
        opts = kw.pop("opts", None)
        if opts is None:
            opts = args[0]
        self.calls.append((opts, {k: np.array(v) for k, v in kw.items()}))
        require(len(self.calls) <= len(self.splits) + 1,
                "does not stop refining: %i triangles" % len(self.tris))
        if len(self.calls) > 1:
            for k in self.splits[len(self.calls) - 2]:
                self.bisect(k % len(self.tris))
        pts = np.array(self.pts, float)
        tri = np.array(self.tris, np.intc)
        tri = np.array([np.roll(t, self.rot + i) for i, t in enumerate(tri)])
        self.tris = tri.tolist()
        self.meshes.append((pts.copy(), tri.copy(), np.array(
            self.neighbors(), int).reshape(-1, 3)))
        return dict(points=pts, triangles=tri,
                    neighbors=np.array(self.meshes[-1][2], np.intc))


@st.composite
def _mesh(draw):
    nb = draw(st.integers(1, 3))
    paths = []
    for i in range(nb):
        q = [draw(st.tuples(g.num(.5, .9, 2), g.num(.5, .9, 2)))
             for _ in range(4)]
        # one corner in every quarter of a 2x2 square: always convex
        pts = [[-q[0][0], -q[0][1]], [q[1][0], -q[1][1]],
               [q[2][0], q[2][1]], [-q[3][0], q[3][1]]]
        k = draw(st.integers(3, 4))
        paths.append([[x + 2.2*i, y] for x, y in pts[:k]])
    K = draw(st.integers(1, 4))
    splits = [draw(st.lists(st.integers(0, 40), min_size=0, max_size=6))
              for _ in range(K - 1)]
    d = draw(st.sampled_from([0, 0, 1, 5]))
    splits.append(draw(st.lists(st.integers(0, 40), min_size=d + 1,
                                max_size=d + 3)))
    nfix = draw(st.integers(0, 2))
    return dict(paths=paths, splits=splits, d=d, rot=draw(st.integers(0, 2)),
                fixed=[dict(box=draw(g.vec(.2, 1.5, 2)), kind=draw(
                    st.integers(0, 2))) for _ in range(nfix)],
                lists=draw(st.booleans()),
                sym=draw(st.sampled_from([None, None, "mirror", "turn"])),
                thr=draw(st.sampled_from([None, .5, .1, .9, 2.])),
                up=draw(st.sampled_from([None, 2., 8., 1])),
                down=draw(st.sampled_from([None, 2., 8., 3])),
                a=draw(st.sampled_from([None, .5, 2, 7e-3])),
                q=draw(st.sampled_from([None, 25, 15.5])),
                rng=draw(st.sampled_from([[0, 1], [-1, 1], [0, 2.]])),
                x=draw(g.vec(-.8, 3, 2)), z=draw(g.num(.3, 1.2, 2)),
                der=draw(st.sampled_from(["xx", "yy", "zz", "x", "xy", ""])),
                zero=draw(st.sampled_from([None, "y", "z"])),
                cover=draw(st.sampled_from([None, None, 5.])),
                verbose=draw(st.booleans()))


def transformations(kind):
    if kind is None:
        return None
    m, t = np.eye(4), np.eye(4)
    if kind == "mirror":
        # below the boundaries, orientation kept by reversing the order
        t[1, 1], t[1, 3] = -1, -4.
        return [(m, 1), (t, -1)]
    # half a turn around (0, -2)
    t[0, 0] = t[1, 1] = -1
    t[1, 3] = -4.
    return [(m, 1), (t, 1)]


def expected_copies(tr, p):
    if tr is None:
        return [np.array(p)]
    out = []
    for t, sign in tr:
        q = [[t[0, 0]*x + t[0, 1]*y + t[0, 3], t[1, 0]*x + t[1, 1]*y + t[1, 3]]
             for x, y in p]
        out.append(np.array(q if sign > 0 else q[::-1]))
    return out


def same_cycle(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and any(
        np.abs(np.roll(a, k, 0) - b).max() < 1e-12 for k in range(len(a)))


def flag(opts, name):
    """value of an option, None if absent, True without value"""
    m = re.search(name + r"(\d+\.?\d*(?:e[-+]?\d+)?)?", opts)
    if m is None:
        return None
    return float(m.group(1)) if m.group(1) else True


def check_mesh(c, ctx):
    ad = adaptive()
    import electrode
    from electrode import pattern_constraints as pc
    P = electrode.PolygonPixelElectrode
    paths = [np.array(p) for p in c["paths"]]
    m = Mesher(c["paths"], c["splits"], c["rot"])
    # number of triangles of the last mesh to be used
    n0 = len(m.tris)
    ns = n0 + np.cumsum([0] + [len(s) for s in c["splits"]])
    nmax = int(ns[-2]) + c["d"]
    ekw = {} if c["cover"] is None else dict(cover_height=c["cover"])
    fixed, fpaths = [], []
    for i, f in enumerate(c["fixed"]):
        w, h = f["box"]
        y = 1.5 + 2*i
        b = [[-w, y], [w, y], [w, y + h], [-w, y + h]]
        fpaths.append(np.array(b))
        fixed.append([P(name="f%d" % i, paths=[b], **ekw), b,
                      np.array(b)][f["kind"]])
    kw = dict(ekw)
    for k, a in (("thr", "threshold"), ("up", "up"), ("down", "down"),
                 ("a", "a"), ("q", "q")):
        if c[k] is not None:
            kw[a] = c[k]
    thr = .5 if c["thr"] is None else c["thr"]
    up, down = c["up"] or 16., c["down"] or 4.
    tr = transformations(c["sym"])
    if tr is not None:
        kw["symmetry"] = ad.transformer(tr)
    if fixed or c["verbose"]:
        kw["fixed"] = fixed
    x = c["x"] + [c["z"]]

    def cons():
        o = [pc.PatternRangeConstraint(min=c["rng"][0], max=c["rng"][1]),
             pc.PotentialObjective(x=x, derivative=c["der"], value=1)]
        if c["zero"]:
            o.append(pc.PotentialObjective(x=x, derivative=c["zero"],
                                           value=0))
        return o
    arg = [p.tolist() for p in paths] if c["lists"] else paths
    fkeep = list(fixed)

    def reference(k):
        pts, tri, nei = m.meshes[k]
        els = [P(name="r", paths=[p], **ekw) for p in fpaths]
        els += [P(name="r", paths=expected_copies(tr, pts[t]), **ekw)
                for t in tri]
        s = electrode.System(els)
        return s.optimize(cons(), verbose=False)
    # the meshes do not depend on the requests: see what can be solved
    trial = Mesher(c["paths"], c["splits"], c["rot"])
    for i in range(len(c["splits"])):
        trial(opts="")
    m.meshes = trial.meshes
    try:
        refs = [reference(k) for k in range(len(c["splits"]))]
    except ValueError:
        ctx.skip("infeasible objectives")
    m.meshes = []
    _dispatch.current = m
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = ad.adapt_mesh(cons(), arg, nmax=nmax, verbose=c["verbose"], **kw)
    require(len(fixed) == len(fkeep) and all(
        a is b for a, b in zip(fixed, fkeep)), "fixed electrodes modified")
    for p, q in zip(arg, c["paths"]):
        check_equal(np.array(p), np.array(q), "boundaries modified")
    K = len(c["splits"])
    require(len(m.calls) == K + 1, "%d triangulations, expected %d (nmax=%d, "
            "triangles %s)" % (len(m.calls), K + 1, nmax, ns.tolist()))
    # requests
    for i, (opts, kwi) in enumerate(m.calls):
        require(flag(opts, "n") is not None, "no neighbours in %r" % opts)
        require(abs((flag(opts, "q") or 0) - (c["q"] or 20)) < 1e-6,
                "corner angle in %r" % opts)
        require(abs((flag(opts, "a") or 0) - (c["a"] or 1)) < 1e-6,
                "area in %r" % opts)
        for key in ("points",):
            require(kwi[key].dtype == np.double, "points")
    check_start(m.calls[0][1], paths)
    for i in range(1, K + 1):
        pts, tri, nei = m.meshes[i - 1]
        kwi = m.calls[i][1]
        check_close(kwi["points"], pts, atol=1e-14, what="points passed on")
        check_equal(kwi["triangles"], tri, "triangles passed on")
        got = kwi["triangleareas"]
        require(got.shape == (len(tri),), "areas %s" % (got.shape,))
        v = refs[i - 1][0]
        v = np.asarray(v, float).ravel()[len(fixed):]
        for k, t in enumerate(tri):
            area = .5*abs(ccw(pts[t]))
            jump = max([abs(v[k] - v[j]) for j in nei[k] if j >= 0] + [0.])
            if abs(jump - thr) < .02:
                continue
            ctx.label("refined" if jump > thr else "coarsened")
            if np.any(nei[k] < 0) and jump < thr and abs(
                    v[k] - v[-1]) > thr:
                ctx.label("boundary unlike the last triangle")
            check_close(got[k], area/down if jump > thr else area*up,
                        rtol=1e-9, what="area for triangle %d of %d" % (
                            k, len(tri)))
    # result
    s, v, strength = r
    pts, tri, nei = m.meshes[K - 1]
    n = len(tri)
    require(len(s) == len(fixed) + n, "%d electrodes for %d triangles" % (
        len(s), n))
    require(isinstance(s, electrode.System), "not a System")
    for e, p, f in zip(s, fpaths, fixed):
        require(len(e.paths) == 1, "fixed electrode")
        check_equal(np.array(e.paths[0]), p, "fixed electrode")
        if isinstance(f, P):
            require(e is f, "fixed electrode replaced")
    for e, t in zip(list(s)[len(fixed):], tri):
        want = expected_copies(tr, pts[t])
        require(len(e.paths) == len(want) and all(
            same_cycle(a, b) for a, b in zip(e.paths, want)),
            "electrode %s for triangle %s" % (e.paths, want))
        require(e.cover_height == (c["cover"] or P(paths=[want[0]])
                                   .cover_height), "electrode options")
    v = np.asarray(v, float).ravel()
    require(v.shape == (len(s),), "potentials %s" % (v.shape,))
    finite(v, "potentials")
    require(v.min() > c["rng"][0] - 1e-5 and v.max() < c["rng"][1] + 1e-5,
            "potentials outside of the range")
    check_close(strength, refs[K - 1][1], rtol=1e-4,
                atol=1e-6, what="strength")
    # potentials belong to these electrodes
    from .. import oracles
    scale = 0.
    tot = 0.
    for e, vi in zip(s, v):
        e.dc = 1.
        p = _derivative(e, x, c["der"])
        tot += vi*p
        scale += abs(p)
    check_close(tot, strength, atol=1e-4*scale, what="objective realized")
    if c["verbose"]:
        require(all(str(int(i)) in out.getvalue() for i in ns[:-1]),
                "printed %r" % out.getvalue())
    ctx.label("%d rounds" % K)
    ctx.nontrivial(K > 1)


NAMES = {"": (0, 0), "x": (1, 0), "y": (1, 1), "z": (1, 2), "xx": (2, 0),
         "xy": (2, 1), "yy": (2, 3)}


def _derivative(e, x, name):
    x = np.array([x], float)
    if name == "zz":
        r = e.potential(x, 2)[0]
        return -r[0] - r[3]
    d, i = NAMES[name]
    return e.potential(x, d)[0][i]


def check_start(args, paths):
    pts = np.concatenate(paths)
    check_close(args["points"], pts, atol=0, what="points")
    seg, mark = args["segments"], args["segmentmarkers"]
    require(seg.shape == (len(pts), 2) and mark.shape == (len(pts),),
            "segments %s, markers %s" % (seg.shape, mark.shape))
    require(seg.dtype == np.intc and mark.dtype == np.intc, "types")
    n = 0
    want, used = {}, set()
    for p in paths:
        for i in range(len(p)):
            want[frozenset((n + i, n + (i + 1) % len(p)))] = n
        n += len(p)
    got = {}
    for (i, j), k in zip(seg.tolist(), mark.tolist()):
        f = frozenset((i, j))
        require(f in want and f not in got, "segment %d-%d" % (i, j))
        got[f] = k
    groups = {}
    for f, k in got.items():
        groups.setdefault(want[f], set()).add(k)
    ks = [min(k) for k in groups.values()]
    require(all(len(k) == 1 for k in groups.values())
            and len(set(ks)) == len(paths) and min(ks) > 1,
            "segment markers %s" % (mark,))


# ------------------------------------------------------------- helpers

@st.composite
def _parts(draw):
    n = draw(st.integers(1, 5))
    return dict(paths=[draw(st.lists(g.vec(-9, 9, 2), min_size=1, max_size=9))
                       for _ in range(n)],
                form=draw(st.integers(0, 2)),
                tr=draw(st.lists(st.tuples(
                    st.lists(g.vec(-2, 2, 4), min_size=4, max_size=4),
                    st.sampled_from([1, -1])).map(list), max_size=4)))


def check_parts(c, ctx):
    ad = adaptive()
    paths = [np.array(p, float) for p in c["paths"]]
    if c["form"] == 2:
        paths = [np.rint(p).astype(int) for p in paths]
    arg = [p.tolist() for p in paths] if c["form"] == 1 else paths
    longer = [len(p) > 2 for p in paths]
    if all(longer):
        r = ad.paths_to_mesh(arg)
        require(set(r) == set(["points", "segments", "segmentmarkers"]),
                "arguments %s" % sorted(r))
        for k in r:
            require(r[k].flags.c_contiguous, "%s not contiguous" % k)
        require(r["points"].dtype == np.double, "points")
        check_start(r, [np.array(p, float) for p in paths])
    tr = []
    for t, sign in c["tr"]:
        t = np.array(t)
        t[3] = [0, 0, 0, 1]
        tr.append((t, sign))
    p = paths[0]
    for f in (lambda q: ad.transformed_copy(tr, q), ad.transformer(tr)):
        got = f(arg[0])
        require(len(got) == len(tr), "%d copies" % len(got))
        for a, b in zip(got, expected_copies(tr, p)):
            check_close(a, b, atol=1e-12, rtol=1e-12, what="copy")
    check_equal(np.array(arg[0]), p, "input modified")
    ctx.nontrivial(len(tr) > 1 and len(paths) > 1)


SUBS = [
    Sub("mesh", _mesh, check_mesh, 400, 10000,
        "more than one mesh", shards=4),
    Sub("parts", _parts, check_parts, 250, 8000,
        "several boundaries and transformations"),
]
