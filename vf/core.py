"""Case-based property framework on top of Hypothesis.

A property is a list of `Sub`s.  Each sub has a Hypothesis strategy that
produces a JSON-able *case* and a check function `check(case, ctx)` that
compares the code under test with an oracle and raises `Violation`.

The case is the complete input of the check: replaying a failure is
`check(json.load(replay)["case"])`, without Hypothesis.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The code under test breaks the property on this case."""


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """Collects what a check learned about one case."""
    def __init__(self):
        self.nt = False
        self.labels = []
        self.inconclusive = None

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, *names):
        self.labels.extend(names)

    def skip(self, why):
        """The oracle can not decide this case (counted, never an alarm)."""
        self.inconclusive = why
        raise Skip(why)


class Skip(Exception):
    pass


class Sub(object):
    """One generated check.

    strategy: callable returning a Hypothesis strategy
    check: callable (case, ctx)
    quick, thorough: number of generated cases (over all shards)
    shards: number of parallel processes to split the cases on
    rule: what makes a case non-trivial
    """
    def __init__(self, name, strategy, check, quick, thorough, rule,
                 shards=1, case_timeout=150):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.case_timeout = case_timeout


def pure(sub, quick, thorough, shards=1):
    """the same check without the compiled extensions (the package falls
    back to its interpreted kernels)"""
    return Sub(sub.name + "-pure", sub.strategy, sub.check, quick, thorough,
               sub.rule, shards, sub.case_timeout)


def canonical(case):
    return json.dumps(case, sort_keys=True)


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def derive_seed(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big") >> 1


ORACLE_FILES = ("oracles.py", "gens.py", "core.py")


def _harness_fault(tb):
    """True if the exception comes from the oracle/harness modules rather
    than from the code under test or a check that digests its output."""
    frames = traceback.extract_tb(tb)
    here = os.path.dirname(os.path.abspath(__file__))
    for f in frames:
        if "/electrode/" in f.filename and not f.filename.startswith(here):
            return False
    last = [f for f in frames if f.filename.startswith(here)]
    if not last:
        return False
    return os.path.basename(last[-1].filename) in ORACLE_FILES


def run_case(sub, case):
    """Runs one case.  Returns the Ctx.  Raises Violation or HarnessError."""
    ctx = Ctx()

    def onalarm(signum, frame):
        raise CaseTimeout()
    # processor time, which does not depend on what else runs
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, sub.case_timeout)
    try:
        sub.check(case, ctx)
    except Skip:
        pass
    except Violation:
        raise
    except HarnessError:
        raise
    except CaseTimeout:
        raise Violation("did not terminate within %d s" % sub.case_timeout)
    except KeyboardInterrupt as err:
        raise HarnessError("%r\n%s" % (err, traceback.format_exc()))
    except Exception as err:
        text = "".join(traceback.format_exception(err)[-8:])
        if _harness_fault(err.__traceback__):
            raise HarnessError("harness fault %r on %s\n%s" % (
                err, canonical(case)[:2000], text))
        raise Violation("unexpected %r\n%s" % (err, text))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return ctx


def run_sub(prop, sub, tier, seed, shard, budget, emit, casefile=None):
    """Generates and checks the cases of one shard of a sub.

    Returns a dict with the counts.  `emit` is called with intermediate
    results so that they survive a kill.
    """
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.internal.conjecture.engine as eng
    import hypothesis.internal.conjecture.providers as prov
    eng.MAX_SHRINKING_SECONDS = 30 if tier == "quick" else 120
    # independent draws only: no duplicated parts between cases, and no
    # constants harvested from the sources (generation must not depend on how
    # the code is written)
    eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
    prov._get_local_constants = lambda: prov._local_constants

    total = sub.thorough if tier == "thorough" else sub.quick
    n = total//sub.shards + (1 if shard < total % sub.shards else 0)
    res = dict(sub=sub.name, shard=shard, evaluations=0, inconclusive=0,
               skipped_time=0, nontrivial=[], samples=[], labels={},
               violation=None, error=None, wall=0.)
    if n == 0:
        return res
    t0 = time.time()
    seen = set()
    state = dict(best=None, shrinking=None)

    @hypothesis.seed(derive_seed(seed, prop, sub.name, shard))
    @settings(max_examples=n, database=None, deadline=None,
              derandomize=False, print_blob=False,
              phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck))
    @given(sub.strategy())
    def test(case):
        if state["best"] is None and time.time() - t0 > budget:
            res["skipped_time"] += 1
            return
        if state["shrinking"] and time.time() - state["shrinking"] > (
                40 if tier == "quick" else 150):
            return
        text = canonical(case)
        case = json.loads(text)
        if state["best"] is None:
            res["evaluations"] += 1
        if casefile is not None:
            # survives a crash of this process
            casefile.seek(0)
            casefile.write(text.encode())
            casefile.truncate()
        try:
            ctx = run_case(sub, case)
        except Violation as err:
            msg = str(err)
            if state["best"] is None:
                state["shrinking"] = time.time()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = text, msg
                res["violation"] = dict(case=case, message=msg)
                emit(res)
            # one exception site, so that shrinking sees one bug
            raise Violation("violation")
        if state["best"] is not None:
            return
        if ctx.inconclusive:
            res["inconclusive"] += 1
            k = "inconclusive: " + ctx.inconclusive
            res["labels"][k] = res["labels"].get(k, 0) + 1
            return
        for k in set(ctx.labels):
            res["labels"][k] = res["labels"].get(k, 0) + 1
        if ctx.nt:
            h = digest(text)
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2 or (len(seen) in (7, 23, 61)):
                    if len(text) < 1500:
                        res["samples"].append(case)

    try:
        test()
    except Violation:
        pass
    except HarnessError as err:
        res["error"] = str(err)
    except hypothesis.errors.Unsatisfiable as err:
        res["error"] = "unsatisfiable: %s" % err
    except hypothesis.errors.HypothesisException as err:
        if res["violation"] is None:
            res["error"] = "hypothesis: %r" % err
    except BaseException as err:
        if res["violation"] is None:
            res["error"] = "".join(traceback.format_exception(err))
    res["nontrivial"] = sorted(seen)
    res["wall"] = time.time() - t0
    return res


# ---------------------------------------------------------------- asserts

def finite(a, what):
    import numpy as np
    a = np.asarray(a)
    if not np.all(np.isfinite(a)):
        raise Violation("%s not finite: %r" % (what, a))


def check_close(got, want, rtol=0., atol=0., what="value"):
    """|got - want| <= atol + rtol*max|want|  (elementwise atol allowed)"""
    import numpy as np
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (
            what, got.shape, want.shape))
    if got.size == 0:
        return
    scale = np.max(np.abs(want))
    tol = np.broadcast_to(np.asarray(atol + rtol*scale), want.shape)
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation("%s: got %r expected %r at %s (tolerance %.3g)\n"
                        "got %s\nexpected %s" % (
                            what, got[i].item() if hasattr(got[i], "item")
                            else got[i],
                            want[i].item() if hasattr(want[i], "item")
                            else want[i], i, float(tol[i]),
                            str(got)[:1500], str(want)[:1500]))


def check_equal(got, want, what="value"):
    import numpy as np
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        got_, want_ = np.asarray(got), np.asarray(want)
        if got_.shape != want_.shape or not np.array_equal(got_, want_):
            raise Violation("%s: got %r expected %r" % (what, got, want))
    elif not got == want:
        raise Violation("%s: got %r expected %r" % (what, got, want))


def require(cond, what):
    if not cond:
        raise Violation(what)


def raises(f, *types):
    """Calls f, returns the exception if it is one of types else Violation"""
    try:
        r = f()
    except types as err:
        return err
    raise Violation("expected %s, got %r" % (
        "/".join(t.__name__ for t in types), r))
