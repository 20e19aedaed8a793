"""C41 results depend on the present state only (histories against a trap
built afresh)"""
import copy
import pickle
from math import comb
from multiprocessing.pool import ThreadPool

import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_close, check_equal, require

VOLT = st.one_of(g.num(-10, 10, 2), g.num(-10, 10, 2),
                 st.sampled_from([0., 1., -1., 1e-3, 250.]))
NAMES = ["", "a", "b", "rf", "dc", "e 1"]
KINDS = ["poly", "poly", "poly", "point", "cover", "mesh", "grid"]


@st.composite
def electrode(draw):
    k = draw(st.sampled_from(KINDS))
    if k == "poly":
        e = draw(g.polygon_electrode(voltages=False, maxpaths=2,
                                     decorated=False))
    elif k == "point":
        e = draw(g.point_electrode(voltages=False, maxpoints=3))
    elif k == "cover":
        e = dict(kind=k, height=draw(g.num(2, 60, 1)))
    elif k == "mesh":
        n = draw(st.integers(3, 6))
        p = [[np.round(np.cos(2*np.pi*i/n), 3)*2.,
              np.round(np.sin(2*np.pi*i/n), 3)*2.] for i in range(n)]
        e = dict(kind=k, points=p, edges=[[i, (i + 1) % n] for i in range(n)],
                 polygons=[0]*(n - 1) + [0], potentials=[draw(g.nonzero(
                     .5, 2, 1))], cover=draw(g.cover()))
    else:
        e = dict(kind=k, data=draw(st.lists(g.num(-2, 2, 2), min_size=5,
                                            max_size=5)),
                 levels=draw(st.integers(1, 3)), origin=[-6., -6., -6.],
                 spacing=[4., 4., 4.])
    e.update(name=draw(st.sampled_from(NAMES)), dc=draw(VOLT), rf=draw(VOLT))
    return e


def grid_data(e):
    n = 4
    x, y, z = np.mgrid[:n, :n, :n].astype(float)
    a, b, c, d, f = e["data"]
    v = a + b*x + c*y*z + d*z + f*np.sin(x + 2*y + z)
    return [np.stack([v*(i + 1) + i for i in range(2*k + 1)], -1)
            for k in range(e["levels"])]


def make(e):
    import electrode as E
    kw = dict(name=e["name"], dc=e["dc"], rf=e["rf"])
    if e["kind"] == "mesh":
        return E.MeshPixelElectrode(
            points=e["points"], edges=e["edges"], polygons=e["polygons"],
            potentials=e["potentials"], cover_height=e["cover"][0],
            cover_nmax=e["cover"][1], **kw)
    if e["kind"] == "grid":
        return E.GridElectrode(data=grid_data(e), origin=e["origin"],
                               spacing=e["spacing"], **kw)
    return g.build_electrode(e)


def system(spec, coeff):
    import electrode as E
    s = E.System([make(e) for e in spec])
    s.rf_coeff = coeff
    return s


QUERIES = ["potential", "electrical_potential", "individual_potential",
           "pseudo_potential", "time_potential", "modes", "group", "voltages",
           "lookup", "threads", "element"]
IDX = st.integers(0, 7)
SHIFT = st.lists(g.nonzero(.1, 1, 1), min_size=2, max_size=2)


def query():
    return st.tuples(
        st.just("query"), st.sampled_from(QUERIES[:5]*2 + QUERIES[5:]),
        st.integers(0, 3), st.sampled_from(["dc", "rf"]),
        st.sampled_from(["direct", "direct", "direct", "apply", "pool",
                         "shaped"])).map(list)


@st.composite
def _op(draw):
    k = draw(st.sampled_from(
        ["query"]*6 + ["el", "el", "all", "cover", "move", "move", "path",
                       "scale", "scale", "coeff", "append", "delete",
                       "reverse", "copy", "copy", "temporary", "rename",
                       "stranger"]))
    if k == "query":
        return draw(query())
    if k == "el":
        return [k, draw(IDX), draw(st.sampled_from(["dc", "rf"])), draw(VOLT)]
    if k == "all":
        return [k, draw(st.sampled_from(["dc", "rf"])),
                draw(st.lists(VOLT, min_size=8, max_size=8))]
    if k == "cover":
        return [k, draw(IDX), draw(g.cover())]
    if k == "move":
        return [k, draw(IDX), draw(SHIFT), draw(st.booleans())]
    if k == "path":
        return [k, draw(IDX), draw(st.sampled_from(
            ["drop", "add", "add", "flip", "twin", "empty"]))]
    if k == "scale":
        return [k, draw(IDX), draw(st.sampled_from([2., -1., .5])),
                draw(st.booleans())]
    if k == "coeff":
        return [k, draw(st.sampled_from([1., .5, 3.]))]
    if k in ("append", "stranger"):
        return [k, draw(electrode()), draw(IDX)]
    if k == "copy":
        return [k, draw(st.sampled_from(["copy", "deepcopy", "pickle",
                                         "system"]))]
    if k == "temporary":
        return [k, draw(st.lists(VOLT, min_size=8, max_size=8)),
                draw(st.sampled_from(["dc", "rf"])), draw(query()),
                draw(st.booleans())]
    if k == "rename":
        return [k, draw(IDX), draw(st.sampled_from(NAMES))]
    return [k, draw(IDX)]


@st.composite
def _case(draw):
    return dict(spec=draw(st.lists(electrode(), min_size=1, max_size=4)),
                other=draw(electrode()), coeff=draw(st.sampled_from(
                    [1., 2.5])), x=draw(g.points3(1, 2, 5., .3, 4.,
                                                  both=False)),
                ops=draw(st.lists(_op(), min_size=2, max_size=14)))


class Stop(Exception):
    pass


def inplace(a):
    return isinstance(a, np.ndarray) and a.flags.writeable and (
        a.dtype == np.double)


class Run(object):
    def __init__(self, c):
        self.spec = copy.deepcopy(c["spec"])
        self.coeff = c["coeff"]
        self.s = system(self.spec, self.coeff)
        self.x = np.array(c["x"])
        self.asked = set()
        self.kept = []
        self.changed = self.again = 0

    # ------------------------------------------------------------ queries
    def call(self, s, name, args, via):
        import electrode.utils as u
        f = getattr(s, name)
        if via == "apply":
            return u.apply_method(s, name, *args)
        if via == "pool":
            return u.DummyPool().apply_async(f, args).get()
        if via == "shaped" and name in ("potential", "electrical_potential",
                                        "pseudo_potential"):
            n = len(args[0])
            r = u.shaper(f, args[0].T.reshape(3, n, 1), *args[1:])
            require(r.shape[:2] == (n, 1), "shape %s" % (r.shape,))
            return r[:, 0]
        return f(*args)

    def size(self, s, d, typ, x):
        """magnitude of the summed derivatives of order d, at x"""
        t = np.zeros((len(x), 1)) + 1e-300
        for e in s:
            t = t + np.abs(getattr(e, typ)*e.potential(x, d)).max(
                1, keepdims=True)
        return t

    def ask(self, op):
        _, name, d, typ, via = op
        x = self.x
        s, f = self.s, system(self.spec, self.coeff)
        if name not in ("voltages", "lookup", "group") and any(
                e["kind"] == "grid" for e in self.spec):
            # as many orders as are stored; the pseudopotential needs more
            have = min(e["levels"] for e in self.spec if e["kind"] == "grid")
            d = min(d, have - 1)
            if name in ("potential", "pseudo_potential", "time_potential",
                        "threads", "modes"):
                name = "electrical_potential"
        self.asked.add(name)
        if name in ("electrical_potential", "individual_potential",
                    "potential", "pseudo_potential", "time_potential"):
            args = dict(electrical_potential=(x, d, typ)).get(name, (x, d))
            if name == "time_potential":
                args = x, d, 1.7
            xx = x.copy()
            args = (xx,) + args[1:]
            a = np.asarray(self.call(s, name, args, via))
            check_equal(xx, x, "positions modified")
            xx += 1
            args = (x,) + args[1:]
            b = np.asarray(self.call(f, name, args, "direct"))
            if name == "individual_potential":
                tol = 1e-9*np.abs(b).max(-1, keepdims=True)
            else:
                tol = self.size(f, d, "dc", x) + self.size(f, d, "rf", x)
                if name in ("potential", "pseudo_potential"):
                    m = [self.size(f, i + 1, "rf", x) for i in range(d + 1)]
                    tol = tol + 9*self.coeff*sum(
                        comb(d, i)*m[i]*m[d - i] for i in range(d + 1))
                tol = 1e-9*tol.reshape((-1,) + (1,)*(b.ndim - 1))
            check_close(a, b, atol=tol + 1e-300, what="%s%s after the "
                        "history" % (name, args[1:]))
            for k, w in self.kept:
                check_equal(k, w, "an earlier result changed")
            if a.flags.writeable and via != "apply":
                a *= 7      # the caller may do with it what they like
            self.kept.append((a, a.copy()))
        elif name == "modes":
            a, b = [np.asarray(q.modes(x[0], sorted=True)[0])
                    for q in (s, f)]
            m = [self.size(f, i + 1, "rf", x[:1]) for i in range(3)]
            tol = 1e-7*(self.size(f, 2, "dc", x[:1]) + 18*self.coeff*(
                m[0]*m[2] + m[1]**2))
            check_close(a, b, atol=tol[0, 0], what="modes after the history")
        elif name == "group":
            if len(set(e["kind"] for e in self.spec)) > 1 or (
                    self.spec[0]["kind"] != "poly"):
                return
            a, b = s.group([0.]), f.group([0.])
            check_equal([[np.asarray(p).tolist() for p in e.paths]
                         + [e.dc, e.rf, e.cover_height, e.cover_nmax]
                         for e in a],
                        [[np.asarray(p).tolist() for p in e.paths]
                         + [e.dc, e.rf, e.cover_height, e.cover_nmax]
                         for e in b], "groups after the history")
        elif name == "voltages":
            for k in ("names", "dcs", "rfs"):
                check_equal(list(getattr(s, k)), list(getattr(f, k)), k)
        elif name == "lookup":
            for k in NAMES:
                i = [j for j, e in enumerate(self.spec) if e["name"] == k]
                r = s[k]
                require((r is None) == (not i) and (
                    not i or r is s[i[0]]), "lookup of %r" % k)
        elif name == "element":
            i = d % len(self.spec)
            a = s[i].potential(x, min(d, 1), self.spec[i]["dc"])
            b = f[i].potential(x, min(d, 1), self.spec[i]["dc"])
            check_close(a, b, rtol=1e-9, atol=1e-300, what="element")
        elif name == "threads":
            jobs = [(x + [0, 0, .1*j], (d + j) % 3) for j in range(8)]
            p = ThreadPool(4)
            try:
                a = p.map(lambda j: s.electrical_potential(
                    j[0], j[1], typ), jobs, 1)
            finally:
                p.terminate()
            for j, r in zip(jobs, a):
                check_close(r, f.electrical_potential(j[0], j[1], typ),
                            atol=1e-9*self.size(f, j[1], typ, j[0]),
                            what="evaluated in a thread")

    def state(self):
        """the attributes are those that were given"""
        require(len(self.s) == len(self.spec), "electrodes")
        require(self.s.rf_coeff == self.coeff, "rf_coeff %r" % (
            self.s.rf_coeff,))
        for e, w in zip(self.s, self.spec):
            check_equal([e.name, e.dc, e.rf], [w["name"], w["dc"], w["rf"]],
                        "name and voltages")
            if "cover" in w:
                check_equal([e.cover_height, e.cover_nmax], w["cover"],
                            "cover")
            if w["kind"] == "poly":
                check_equal([np.asarray(p).tolist() for p in e.paths],
                            w["paths"], "paths")
            for k in ("points", "areas", "potentials"):
                if k in w:
                    check_equal(np.asarray(getattr(e, k)).tolist(), w[k], k)

    # ------------------------------------------------------------ changes
    def pick(self, i, *kinds):
        j = [k for k, e in enumerate(self.spec) if e["kind"] in kinds]
        return j[i % len(j)] if j else None

    def do(self, op):
        k = op[0]
        s, spec = self.s, self.spec
        n = len(spec)
        if k == "query":
            before = self.changed and op[1] in self.asked
            self.ask(op)
            self.state()
            self.again += bool(before)
            return
        self.changed += 1
        if k == "el":
            setattr(s[op[1] % n], op[2], op[3])
            spec[op[1] % n][op[2]] = op[3]
        elif k == "all":
            setattr(s, op[1] + "s", op[2][:n])
            for e, v in zip(spec, op[2]):
                e[op[1]] = v
        elif k == "rename":
            s[op[1] % n].name = spec[op[1] % n]["name"] = op[2]
        elif k == "cover":
            i = self.pick(op[1], "poly", "point", "mesh")
            if i is not None:
                s[i].cover_height, s[i].cover_nmax = op[2]
                spec[i]["cover"] = list(op[2])
        elif k == "move":
            i = self.pick(op[1], "poly", "point", "mesh", "grid")
            if i is None:
                return
            e, w = s[i], spec[i]
            d = np.array(op[2])
            if w["kind"] == "poly":
                for j, p in enumerate(e.paths):
                    q = np.array(w["paths"][j]) + d
                    if op[3] and inplace(p):
                        p[:] = q
                    else:
                        e.paths = [q if m == j else r for m, r in
                                   enumerate(e.paths)]
                    w["paths"][j] = q.tolist()
            else:
                a = "origin" if w["kind"] == "grid" else "points"
                q = np.array(w[a]) + (np.r_[d, 0]*.5 if a == "origin" else d)
                p = getattr(e, a)
                if op[3] and inplace(p):
                    p[:] = q
                else:
                    setattr(e, a, q)
                w[a] = q.tolist()
        elif k == "path":
            i = self.pick(op[1], "poly")
            if i is None:
                return
            e, w = s[i], spec[i]
            if op[2] == "add":
                p = [[9., 9.], [10.5, 9.], [10.5, 11.]]
                w["paths"].append(p)
                if isinstance(e.paths, list):
                    e.paths.append(np.array(p))
                else:
                    e.paths = list(e.paths) + [np.array(p)]
            elif op[2] == "twin":
                # an electrode made of the patches of another
                import electrode as E
                t = E.PolygonPixelElectrode(
                    paths=e.paths, name="", cover_height=w["cover"][0],
                    cover_nmax=w["cover"][1])
                require(t.paths is not e.paths, "list of patches shared")
                w2 = dict(copy.deepcopy(w), name="", dc=0., rf=0.)
                t.paths = [np.array(p) for p in t.paths] if op[1] % 2 else (
                    t.paths)
                t.paths.append(np.array(w["paths"][0]) + 3.)
                w2["paths"].append((np.array(w["paths"][0]) + 3.).tolist())
                if op[1] % 2:
                    s.append(t)
                    spec.append(w2)
            elif op[2] == "empty":
                # electrodes made of nothing have nothing in common
                import electrode as E
                t, u = (E.PolygonPixelElectrode(), E.PolygonPixelElectrode())
                t.paths.append(np.array(w["paths"][0]))
                require(len(u.paths) == 0 and len(
                    E.PolygonPixelElectrode().paths) == 0, "shared patches")
                t, u = E.System(), E.System()
                t.append(e)
                require(len(u) == 0 and len(E.System()) == 0,
                        "shared electrodes")
            elif op[2] == "drop" and len(w["paths"]) > 1:
                w["paths"].pop()
                e.paths = list(e.paths)[:-1]
            else:
                w["paths"] = [p[::-1] for p in w["paths"]]
                e.paths = [np.array(p) for p in w["paths"]]
        elif k == "scale":
            i = self.pick(op[1], "point", "mesh", "grid", "cover")
            if i is None:
                return
            e, w = s[i], spec[i]
            f = op[2]
            if w["kind"] == "cover":
                w["height"] = e.height = w["height"]*abs(f)
            elif w["kind"] == "grid":
                w["data"] = [v*f for v in w["data"]]
                new = grid_data(w)
                if op[3] and all(inplace(p) for p in e.data):
                    for p, q in zip(e.data, new):
                        p[:] = q
                else:
                    e.data = new
            else:
                a = dict(point="areas", mesh="potentials")[w["kind"]]
                q = np.array(w[a])*f
                p = getattr(e, a)
                if op[3] and inplace(p):
                    p *= f
                else:
                    setattr(e, a, q)
                w[a] = q.tolist()
        elif k == "coeff":
            s.rf_coeff = self.coeff = op[1]
        elif k == "append":
            w = copy.deepcopy(op[1])
            s.insert(op[2], make(w))
            spec.insert(op[2], w)
        elif k == "stranger":
            # another trap is built, used and changed
            w = copy.deepcopy(op[1])
            t = system([w], 7.)
            if w["kind"] != "grid":
                t.potential(self.x, 1)
            t.dcs = [3.]
            del t[0]
        elif k == "delete":
            if n > 1:
                del s[op[1] % n]
                del spec[op[1] % n]
        elif k == "reverse":
            s.reverse()
            spec.reverse()
        elif k == "copy":
            import electrode as E
            old = s
            if op[1] == "copy":
                self.s = copy.copy(s)
            elif op[1] == "system":
                self.s = E.System(s)
                self.s.rf_coeff = self.coeff
            else:
                self.s = copy.deepcopy(s) if op[1] == "deepcopy" else (
                    pickle.loads(pickle.dumps(s)))
                require(not any(a is b for a in s for b in self.s),
                        "deep copy shares electrodes")
            require(type(self.s) is type(s) and self.s is not s, "%s: %r" % (
                op[1], type(self.s)))
            # the original is used for something else
            if op[1] in ("deepcopy", "pickle"):
                for e in old:
                    e.dc, e.rf, e.name = 11., 12., "old"
                    for a in list(getattr(e, "paths", [])) + [
                            getattr(e, b) for b in ("points", "areas")
                            if hasattr(e, b)]:
                        if inplace(a):
                            a += 5
            old.rf_coeff = 99.
            del old[:]
        elif k == "temporary":
            keep = copy.deepcopy(spec)
            try:
                with s.with_voltages(**{op[2] + "s": op[1][:n]}):
                    for e, v in zip(spec, op[1]):
                        e[op[2]] = v
                    self.ask(op[3])
                    self.state()
                    if op[4]:
                        raise Stop()
            except Stop:
                pass
            self.spec = keep
        self.state()


def check_case(c, ctx):
    r = Run(c)
    other = system([c["other"]], 1.)
    x = np.array(c["x"])
    d = 0 if c["other"]["kind"] == "grid" else 2
    before = np.array(other.electrical_potential(x, d, "dc"))
    for op in c["ops"]:
        r.do(op)
        ctx.label(op[0] if op[0] != "query" else "query " + op[1])
        if op[0] == "copy":
            ctx.label(op[1])
    r.do(["query", "electrical_potential", 0, "dc", "direct"])
    r.do(["query", "individual_potential", 2, "dc", "direct"])
    check_close(other.electrical_potential(x, d, "dc"), before, rtol=1e-12,
                atol=1e-300, what="an unrelated trap")
    ctx.nontrivial(r.again > 0)


SUBS = [Sub("history", _case, check_case, 700, 24000,
            "a kind of result asked for again after a change", shards=8)]
