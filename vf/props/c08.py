"""C08 the system as a list; temporary voltages (model based)"""
import numpy as np
from hypothesis import strategies as st

from .. import gens as g
from ..core import Sub, check_equal, require, raises, Violation

NAMES = ["", "a", "b", "c", "rf", "e 1", "dc", "names", "A", "a ", "0", "1",
         "aa", "\u00e9"]


def _names(n):
    return st.lists(st.sampled_from(NAMES), min_size=n, max_size=n)


def _ops(depth):
    i = st.integers(-9, 9)
    v = g.volt()
    name = st.sampled_from(NAMES)
    el = st.tuples(name, v, v).map(list)
    vs = st.lists(v, min_size=8, max_size=8)
    form = st.sampled_from(["list", "array", "tuple", "int", "gen"])
    o = [
        st.tuples(st.just("append"), el),
        st.tuples(st.just("insert"), i, el),
        st.tuples(st.just("pop"), i),
        st.tuples(st.just("remove"), i),
        st.tuples(st.just("reverse")),
        st.tuples(st.just("sort"), st.sampled_from(["name", "dc", "rf"])),
        st.tuples(st.just("extend"), st.lists(el, max_size=2)),
        st.tuples(st.just("set"), i, el),
        st.tuples(st.just("del"), i),
        st.tuples(st.just("delslice"), i, i),
        st.tuples(st.just("rotate")),
        st.tuples(st.just("names"), _names(8), form, st.integers(-2, 2)),
        st.tuples(st.just("dcs"), vs, form, st.integers(-2, 2)),
        st.tuples(st.just("rfs"), vs, form, st.integers(-2, 2)),
        st.tuples(st.just("el"), i, st.sampled_from(["dc", "rf"]), v),
        st.tuples(st.just("rename"), i, name),
        st.tuples(st.just("scribble")),
    ]
    o = [x.map(list) for x in o]
    if depth:
        b = st.fixed_dictionaries(dict(
            dcs=st.none() | vs, rfs=st.none() | vs, form=form,
            fail=st.sampled_from([None, None, None, "dcs", "rfs"]),
            at=st.integers(0, 4),
            exit=st.sampled_from(["ok", "ok", "raise", "return", "break"]),
            body=st.lists(_ops(depth - 1), max_size=5)))
        blk = b.map(lambda b: ["block", b])
        return st.integers(0, 2).flatmap(
            lambda k: blk if k == 0 else st.one_of(*o))
    return st.one_of(*o)


@st.composite
def _case(draw):
    el = st.tuples(st.sampled_from(NAMES), g.volt(), g.volt()).map(list)
    return dict(init=draw(st.lists(el, max_size=5)),
                ops=draw(st.lists(_ops(2), min_size=1, max_size=12)))


class Boom(Exception):
    pass


def shape_values(v, n, form, extra=0):
    """`v` (first n + extra entries) as the requested kind of iterable"""
    v = list(v[:max(0, n + extra)])
    if form == "array":
        return np.array(v)
    if form == "tuple":
        return tuple(v)
    if form == "int":
        return [int(round(i)) if isinstance(i, float) and abs(i) < 100
                else i for i in v]
    if form == "gen":
        return iter(v)
    return v


def failing(v, at):
    for k, i in enumerate(v):
        if k == at:
            raise Boom("bad voltage source")
        yield i


class Model(object):
    def __init__(self):
        import electrode
        self.E = electrode
        self.s = electrode.System()
        self.m = []         # electrode objects in order
        self.val = {}       # id -> [name, dc, rf]
        self.keep = []
        self.stats = dict(blocks=0, raised=0, nested=0)

    def new(self, spec):
        e = self.E.CoverElectrode(name=spec[0], dc=spec[1], rf=spec[2])
        self.val[id(e)] = list(spec)
        self.keep.append(e)
        return e

    def setall(self, k, vals):
        for e, v in zip(self.m, vals):
            self.val[id(e)][k] = v

    def check(self):
        s, m = self.s, self.m
        require(len(s) == len(m) and all(a is b for a, b in zip(s, m)),
                "list contents: %s expected %s" % (list(s), m))
        check_equal(list(s.names), [self.val[id(e)][0] for e in m], "names")
        check_equal(np.asarray(s.dcs).tolist(),
                    [self.val[id(e)][1] for e in m], "dcs")
        check_equal(np.asarray(s.rfs).tolist(),
                    [self.val[id(e)][2] for e in m], "rfs")
        for e in self.keep:
            check_equal([e.name, e.dc, e.rf], self.val[id(e)], "electrode")
        n = len(m)
        for i in range(-n, n):
            require(s[i] is m[i] and s.electrode(i) is m[i]
                    and s[np.int64(i)] is m[i], "lookup of index %d" % i)
        for i in (n, -n - 1, n + 3):
            raises(lambda: s[i], IndexError)
            raises(lambda: s.electrode(i), IndexError)
        for sl in (slice(None), slice(1, 3), slice(-2, None),
                   slice(None, None, -1), slice(0, None, 2), slice(5, 1)):
            a, b = s[sl], m[sl]
            require(len(a) == len(b) and all(p is q for p, q in zip(a, b)),
                    "lookup of %s" % (sl,))
        for name in NAMES + ["missing"]:
            w = [e for e in m if self.val[id(e)][0] == name]
            r = s[name]
            require(r is (w[0] if w else None), "lookup of %r: %r" % (name, r))
            require(s.electrode(name) is r, "electrode(%r)" % name)

    def run(self, op):
        s, m = self.s, self.m
        k = op[0]
        n = len(m)
        if k == "append":
            e = self.new(op[1])
            s.append(e)
            m.append(e)
        elif k == "insert":
            e = self.new(op[2])
            s.insert(op[1], e)
            m.insert(op[1], e)
        elif k == "pop" and n:
            i = op[1] % n
            r, q = s.pop(i), m.pop(i)
            require(r is q, "popped")
        elif k == "remove" and n:
            e = m[op[1] % n]
            s.remove(e)
            m.remove(e)
        elif k == "reverse":
            s.reverse()
            m.reverse()
        elif k == "sort":
            j = ["name", "dc", "rf"].index(op[1])
            s.sort(key=lambda e: getattr(e, op[1]))
            m.sort(key=lambda e: self.val[id(e)][j])
        elif k == "extend":
            es = [self.new(e) for e in op[1]]
            s.extend(es)
            m.extend(es)
        elif k == "set" and n:
            e = self.new(op[2])
            s[op[1] % n] = e
            m[op[1] % n] = e
        elif k == "del" and n:
            del s[op[1] % n]
            del m[op[1] % n]
        elif k == "delslice":
            a, b = sorted((op[1] % (n + 1), op[2] % (n + 1)))
            if b - a <= 2:
                del s[a:b]
                del m[a:b]
        elif k == "rotate" and n:
            s.append(s.pop(0))
            m.append(m.pop(0))
        elif k in ("names", "dcs", "rfs"):
            j = ["names", "dcs", "rfs"].index(k)
            f = op[2]
            if k == "names" and f in ("array", "int"):
                f = "list"
            v = shape_values(op[1], n, f, op[3])
            w = list(v) if f != "gen" else list(op[1][:max(0, n + op[3])])
            setattr(s, k, v)
            self.setall(j, w)
        elif k == "el" and n:
            e = m[op[1] % n]
            setattr(e, op[2], op[3])
            self.val[id(e)][1 + ["dc", "rf"].index(op[2])] = op[3]
        elif k == "rename" and n:
            e = m[op[1] % n]
            e.name = op[2]
            self.val[id(e)][0] = op[2]
        elif k == "scribble" and n:
            # changes to the returned sequences have no effect
            s.names[0] = "zzz"
            d = s.dcs
            d[0] = 99.
            r = s.rfs
            r[0] = 99.
        elif k == "block":
            self.block(op[1])

    def block(self, b):
        s, m = self.s, self.m
        n = len(m)
        kw = {}
        before = list(m), {id(e): list(self.val[id(e)]) for e in m}
        failed = False
        new = {}
        for k in ("dcs", "rfs"):
            if b[k] is not None:
                v = shape_values(b[k], n, b["form"])
                w = [float(i) for i in shape_values(b[k], n, "array")] if (
                    b["form"] != "int") else v
                if b["fail"] == k and n:
                    v = failing(list(b[k][:n]), b["at"] % n)
                    failed = True
                kw[k] = v
                new[k] = w
        self.stats["blocks"] += 1
        entered = []
        try:
            if b["exit"] == "return":
                self._inner(kw, b, entered, new, failed, ret=True)
            elif b["exit"] == "break":
                while True:
                    with s.with_voltages(**kw):
                        self._body(b, entered, new, failed)
                        break
            else:
                self._inner(kw, b, entered, new, failed)
            require(not failed, "error while setting voltages was swallowed")
            require(b["exit"] != "raise", "exception swallowed by the block")
        except Boom as err:
            self.stats["raised"] += 1
            require(failed or b["exit"] == "raise", "unexpected Boom")
        require(failed or entered, "block not executed")
        require(not (failed and entered),
                "block executed although the voltages could not be set")
        for e in before[0]:
            for k, j in (("dcs", 1), ("rfs", 2)):
                if b[k] is not None:
                    self.val[id(e)][j] = before[1][id(e)][j]
        self.check()

    def _inner(self, kw, b, entered, new, failed, ret=False):
        with self.s.with_voltages(**kw):
            self._body(b, entered, new, failed)
            if ret:
                return 1

    def _body(self, b, entered, new, failed):
        entered.append(1)
        if failed:
            return
        for k, j in (("dcs", 1), ("rfs", 2)):
            if k in new:
                self.setall(j, new[k])
        self.check()
        for op in b["body"]:
            if op[0] == "block":
                self.stats["nested"] += 1
            self.run(op)
        self.check()
        if b["exit"] == "raise":
            raise Boom("in the block")


def check_case(c, ctx):
    mo = Model()
    es = [mo.new(e) for e in c["init"]]
    mo.s = mo.E.System(es)
    mo.m = list(es)
    mo.check()
    for op in c["ops"]:
        mo.run(op)
        mo.check()
    st_ = mo.stats
    ctx.label(*[k for k, v in st_.items() if v])
    ctx.nontrivial(st_["blocks"] > 0 and len(c["ops"]) > 1)


SUBS = [Sub("history", _case, check_case, 2400, 80000,
            "a temporary voltage block and another operation", shards=8)]
