#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sub NAME]

Exit 0: the property held on everything explored.
Exit 1: prints "VIOLATION property=<id> replay=<path>".
Exit 2: the machinery failed (no verdict).
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
from vf import overlay  # noqa: E402

FINDINGS = os.path.join(VERIF, "known_findings.json")


def load_prop(prop):
    return importlib.import_module("vf.props." + prop.lower())


def worker(args):
    overlay.activate(args.sub.endswith("-pure"))
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from vf import core
    mod = load_prop(args.prop)
    subs = dict((s.name, s) for s in mod.SUBS)
    sub = subs[args.sub]

    def emit(res):
        tmp = args.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, args.out)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    res = core.run_sub(args.prop, sub, args.tier, args.seed, args.shard,
                       args.budget, emit,
                       open(args.out + ".case", "wb", buffering=0))
    emit(res)


def replay_worker(args):
    with open(args.replay) as f:
        rep = json.load(f)
    overlay.activate(rep["sub"].endswith("-pure"))
    from vf import core
    mod = load_prop(args.prop)
    subs = dict((s.name, s) for s in mod.SUBS)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        core.run_case(subs[rep["sub"]], rep["case"])
    except core.Violation as err:
        out.write("%s\n" % err)
        out.flush()
        raise SystemExit(1)
    finally:
        sys.stdout = out


def list_subs(args):
    overlay.activate()
    mod = load_prop(args.prop)
    out = []
    for s in mod.SUBS:
        out.append(dict(name=s.name, shards=s.shards, rule=s.rule,
                        n=s.thorough if args.tier == "thorough" else s.quick))
    print("SUBS " + json.dumps(out))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("--setup", action="store_true",
                   help="build once and check that the tools are there")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--sub")
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--out")
    p.add_argument("--budget", type=float)
    p.add_argument("--mode", default="main")
    p.add_argument("--jobs", type=int, default=8)
    args = p.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.mode == "worker":
        return worker(args)
    if args.mode == "replay":
        return replay_worker(args)
    if args.mode == "list":
        return list_subs(args)

    t0 = time.time()
    if args.setup:
        top = overlay.build()
        code = subprocess.call(
            [sys.executable, "-c", "import sys; sys.path.insert(0, %r); "
             "from vf import overlay; overlay.activate(); import hypothesis, "
             "scipy, shapely, cvxopt, gdsii; print('ready')" % VERIF],
            env=overlay.environment(top), cwd=top)
        shutil.rmtree(top, ignore_errors=True)
        return code
    if not args.prop:
        p.error("which property?")
    top = overlay.build()
    try:
        if args.replay:
            code = subprocess.call(
                [sys.executable, os.path.join(VERIF, "run.py"), args.prop,
                 "--mode", "replay", "--replay", args.replay],
                env=overlay.environment(top), cwd=top)
            if code == 1 or (code < 0 and code not in (-9, -15)):
                code = 1
                print("VIOLATION property=%s replay=%s" % (
                    args.prop, args.replay))
            return code
        return drive(args, top, t0)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def drive(args, top, t0):
    env = overlay.environment(top)
    me = [sys.executable, os.path.join(VERIF, "run.py"), args.prop,
          "--tier", args.tier, "--seed", str(args.seed)]
    r = subprocess.run(me + ["--mode", "list"], env=env, cwd=top,
                       stdout=subprocess.PIPE)
    lines = [l for l in r.stdout.decode().splitlines()
             if l.startswith("SUBS ")]
    if r.returncode or not lines:
        print("ERROR property=%s can not load the check" % args.prop)
        return 2
    subs = json.loads(lines[0][5:])
    if args.sub:
        subs = [s for s in subs if s["name"] == args.sub]
    # budgets: exceeding them is inconclusive, never a violation
    budget = args.budget or (330. if args.tier == "quick" else 3*3600.)
    hard = budget + (250. if args.tier == "quick" else 1800.)
    rundir = os.path.join(top, "run")
    os.makedirs(rundir)
    todo = []
    for s in subs:
        for k in range(s["shards"]):
            todo.append((s, k))
    # heavily sharded subs first
    todo.sort(key=lambda t: -t[0]["shards"])
    running = []
    results = []
    stop_at = None
    while todo or running:
        while todo and len(running) < args.jobs and stop_at is None:
            s, k = todo.pop(0)
            out = os.path.join(rundir, "%s-%d.json" % (s["name"], k))
            log = open(out + ".log", "wb")
            left = max(5., budget - (time.time() - t0))
            pr = subprocess.Popen(
                me + ["--mode", "worker", "--sub", s["name"], "--shard",
                      str(k), "--out", out, "--budget", str(left)],
                env=env, cwd=top, stdout=log, stderr=log)
            running.append((pr, s, k, out))
        if stop_at is not None:
            todo = []
        time.sleep(.05)
        still = []
        for item in running:
            pr, s, k, out = item
            late = (time.time() - t0 > hard or
                    (stop_at is not None and time.time() > stop_at))
            if pr.poll() is None and late:
                pr.kill()
                pr.wait()
                res = json.load(open(out)) if os.path.exists(out) else dict(
                    sub=s["name"], shard=k, evaluations=0, inconclusive=0,
                    skipped_time=0, nontrivial=[], samples=[], labels={},
                    violation=None, wall=0.,
                    error=None if stop_at is not None else "killed: too slow")
                results.append(res)
            elif pr.poll() is None:
                still.append(item)
            elif pr.returncode < 0 and pr.returncode not in (-9, -15) and (
                    not os.path.exists(out)
                    or not json.load(open(out))["violation"]):
                # the code under test took the process down
                try:
                    case = json.load(open(out + ".case"))
                except ValueError:
                    case = None
                results.append(dict(
                    sub=s["name"], shard=k, evaluations=1, inconclusive=0,
                    skipped_time=0, nontrivial=[], samples=[], labels={},
                    wall=0., error=None if case is not None else
                    "crash %s before the first case" % pr.returncode,
                    violation=None if case is None else dict(
                        case=case, message="process died with signal %d"
                        % -pr.returncode)))
            elif os.path.exists(out):
                res = json.load(open(out))
                if pr.returncode and not res["violation"]:
                    res["error"] = "worker exit %s" % pr.returncode
                results.append(res)
            else:
                txt = open(out + ".log", "rb").read().decode(
                    errors="replace")[-3000:]
                results.append(dict(
                    sub=s["name"], shard=k, evaluations=0, inconclusive=0,
                    skipped_time=0, nontrivial=[], samples=[], labels={},
                    violation=None, wall=0.,
                    error="worker exit %s: %s" % (pr.returncode, txt)))
        running = still
        if stop_at is None and any(r_["violation"] for r_ in results):
            # let shards that are shrinking finish, drop the rest
            stop_at = time.time() + 20.
            todo = []
    return report(args, subs, results, t0)


def load_findings(prop):
    if not os.path.exists(FINDINGS):
        return [], []
    with open(FINDINGS) as f:
        d = json.load(f)
    known = [k for k in d.get("known", []) if k["property"] == prop]
    fixed = [k for k in d.get("fixed", []) if prop in k]
    return known, fixed


def report(args, subs, results, t0):
    prop = args.prop
    known, _ = load_findings(prop)
    code = 0
    errors = [r for r in results if r["error"]]
    viol = [r for r in results if r["violation"]]
    # Known findings are excluded from generation by construction (see
    # DESIGN.md); the line below only reports that they exist.
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # evidence
    nt = set()
    evals = sum(r["evaluations"] for r in results)
    by = {}
    samples = []
    for r in results:
        b = by.setdefault(r["sub"], dict(
            evaluations=0, nontrivial=set(), inconclusive=0,
            skipped_for_time=0, labels={}, wall_s=0.))
        b["evaluations"] += r["evaluations"]
        b["nontrivial"].update(r["nontrivial"])
        b["inconclusive"] += r["inconclusive"]
        b["skipped_for_time"] += r["skipped_time"]
        b["wall_s"] = round(max(b["wall_s"], r["wall"]), 2)
        for k, v in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + v
        nt.update((r["sub"], h) for h in r["nontrivial"])
    for s in subs:
        n = 0
        for r in results:
            if r["sub"] == s["name"] and n < 2:
                for c in r["samples"][:2 - n]:
                    samples.append(dict(sub=s["name"], case=c))
                    n += 1
    for s in subs:
        if s["name"] in by:
            by[s["name"]]["rule"] = s["rule"]
            by[s["name"]]["nontrivial"] = len(by[s["name"]]["nontrivial"])
    mod_rule = ("Each case is drawn by a Hypothesis strategy seeded from "
                "VERIF_SEED and checked against the oracle of its sub-check. "
                "Non-trivial per sub-check: " + "; ".join(
                    "%s: %s" % (s["name"], s["rule"]) for s in subs))
    ev = dict(property=prop, tier=args.tier, seed=args.seed,
              level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nt),
                            rule=mod_rule, samples=samples, subchecks=by),
              assumptions=["floating point comparisons use the tolerances "
                           "stated in DESIGN.md"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not args.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if viol:
        best = min(viol, key=lambda r: len(json.dumps(r["violation"]["case"])))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (
            prop, best["sub"]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, sub=best["sub"], seed=args.seed,
                           case=best["violation"]["case"],
                           message=best["violation"]["message"]), f, indent=1)
        for r in viol[:3]:
            print("--- %s/%s: %s" % (prop, r["sub"],
                                     r["violation"]["message"][:1500]))
            print("    case: %s" % json.dumps(r["violation"]["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors:
        seen = set()
        for r in errors:
            if r["sub"] not in seen:
                print("ERROR %s/%s: %s" % (prop, r["sub"],
                                           r["error"][-1500:]))
            seen.add(r["sub"])
        code = 2
    print("%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (
        prop, args.tier, args.seed, evals, len(nt), time.time() - t0))
    if code == 0 or args.sub:
        for n in sorted(by):
            b = by[n]
            print("   %-28s eval=%d nt=%d inconcl=%d timeskip=%d %.1fs %s" % (
                n, b["evaluations"],
                b["nontrivial"] if isinstance(b["nontrivial"], int)
                else len(b["nontrivial"]),
                b["inconclusive"], b["skipped_for_time"], b["wall_s"],
                json.dumps(b["labels"], sort_keys=True)[:300]))
    return code


if __name__ == "__main__":
    sys.exit(main())
