#!/usr/bin/env python3
"""Decides one property of gojsonpath: check.py Cxx

1. gocv verifies the functions of the property, in /repo's working tree,
   against the contracts in /verif/contracts.
2. The harness looks for a failing input on the real code for a few seconds
   (longer, if an obligation failed): it replays failed obligations and is the
   bounded stand-in for functions beyond the verifier's reach.

Exit 0: no violation. Exit 1: VIOLATION line. Exit 2: no answer.
REPO=dir checks another tree (for development).
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
EVID = os.environ.get("EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
BASE_SECS = 5 if TIER == "quick" else 180
MORE_SECS = 60 if TIER == "quick" else 300
LAST = 800  # no new attempt to find an input after so many seconds

ENV = dict(os.environ)
ENV.update(GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + ENV.get("PATH", "")


def die(msg):
    print("check %s: %s" % (PROP, msg))
    sys.exit(2)


def run(cmd, cwd, timeout):
    """runs a command, and ends its processes when the time is over"""
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = "timeout"
    return code, out.decode(errors="replace"), err.decode(errors="replace")


def build(work):
    gocv, harness = os.path.join(work, "gocv"), os.path.join(work, "harness")
    code, out, err = run(["go", "build", "-o", gocv, "."], os.path.join(VERIF, "gocv"), 300)
    if code != 0:
        die("the verifier does not build: " + err)
    # the harness, with the package from REPO
    src = os.path.join(VERIF, "harness")
    mod = os.path.join(work, "harness.mod")
    text = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(text)
    shutil.copy(os.path.join(src, "go.sum"), os.path.join(work, "harness.sum"))
    code, out, err = run(["go", "build", "-modfile=" + mod, "-o", harness, "."], src, 300)
    if code != 0:
        die("the code does not build: " + err)
    return gocv, harness


def verify(gocv, work, limit):
    out = os.path.join(work, "gocv.json")
    code, so, se = run([gocv, "-repo", REPO, "-spec", os.path.join(VERIF, "contracts"), "-prop", PROP, "-procs", "7", "-limit", str(limit), "-out", out], work, limit + 60)
    if code == 0 and os.path.exists(out):
        r = json.load(open(out))
        return r
    return {"Error": "gocv ended with %s: %s" % (code, (so + se)[-2000:])}


CRASH = 0


def look(harness, work, secs, seed, case=None):
    """looks for a failing input: the failure (or None), and statistics"""
    out, state = os.path.join(work, "harness.json"), os.path.join(work, "state")
    for f in (out, state):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [harness, "-prop", PROP, "-seed", str(seed), "-secs", str(secs), "-out", out, "-state", state]
    if case is not None:
        cmd += ["-case", str(case)]
    code, so, se = run(cmd, work, secs + 60)
    if code in (0, 1) and os.path.exists(out):
        r = json.load(open(out))
        return r.get("Failure"), r
    # the process crashed: which case was it?
    stats = {"Cases": 0, "Skips": 0, "Paths": 0, "Samples": []}
    how = "does not end" if code == "timeout" else "crashes"
    first = {"Property": PROP, "What": how, "Seed": seed, "Case": -1 if case is None else case, "Path": "", "Doc": "",
             "Got": (so + se)[:1500], "Want": "a result"}
    if case is not None:
        return first, stats
    cands = []
    if os.path.exists(state):
        cands = sorted({int(x) for x in open(state).read().replace("\0", " ").split() if x.isdigit()})
    for c in cands[:16]:
        f, _ = look(harness, work, 5, seed, c)
        if f:
            return f, stats
    return None, stats


def short(f):
    return {"function": f["Name"], "contract": f["Contract"] or "safety"}


def main():
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="check-%s-" % PROP)
    try:
        return decide(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work):
    gocv, harness = build(work)
    failure, stats = look(harness, work, BASE_SECS, SEED)
    # with a failing input there is less to decide
    v = verify(gocv, work, 200 if failure else 500)
    prim, deps, aux = [v.get(k) or [] for k in ("Primary", "Deps", "Aux")]
    dropped = set(v.get("Dropped") or [])
    aux = [f for f in aux if f["Name"] not in dropped]
    lemmas = v.get("Lemmas") or []

    def failed(f):
        return [o for o in f["Obls"] or [] if not o["OK"] and o["Solver"] != "skipped"]

    # What matters to the property
    kinds = v.get("Kinds") or []

    def matters(o):
        return not kinds or o["Kind"] in kinds

    # Functions with auxiliary contracts are inlined into their callers where
    # these contracts do not hold: then the callers decide
    soft = set(v.get("Soft") or [])
    hard = [f for f in prim + deps if f["Name"] not in soft]
    decided = bool(hard) and not v.get("Error") and all(not failed(f) and not f["Unsupported"] and not f["Vacuous"] for f in hard)
    inlined = [f for f in prim + deps if decided and f["Name"] in soft and (f["Name"] in dropped or f.get("Missing")) and (failed(f) or f["Unsupported"] or f["Vacuous"])]
    prim, deps = [[f for f in l if f not in inlined] for l in (prim, deps)]
    prim_failed = [f for f in prim if any(matters(o) for o in failed(f))]
    deps_failed = [f for f in deps if failed(f)]
    undecided = [f for f in prim if failed(f) and f not in prim_failed]
    undecided += [f for f in prim + deps if not failed(f) and (f["Unsupported"] or f["Vacuous"])]
    bad_lemmas = [l["Name"] for l in lemmas if not l["OK"]]
    all_ok = not (v.get("Error") or prim_failed or deps_failed or undecided or bad_lemmas)

    runs = [stats]
    k = 0
    while not failure and not all_ok and time.time() - T0 < LAST:
        k += 1
        if k > 2:
            break
        failure, stats = look(harness, work, MORE_SECS / 2, SEED + 1000 * k)
        runs.append(stats)

    def reason(f):
        return "vacuous" if f["Vacuous"] else f["Unsupported"][:300] or "its contract is not proved: " + failed(f)[0]["What"]

    # the report
    replay = os.path.join(EVID, "replay", PROP + ".json")
    violation = None
    obls = [{"function": f["Name"], "contract": f["Contract"] or "safety", "kind": o["Kind"], "obligation": o["What"], "path": o["Path"], "solver": o["Solver"]}
            for f in prim_failed + deps_failed for o in failed(f)]
    if failure:
        json.dump({"property": PROP, "Failure": failure, "failed_obligations": obls,
                   "how": "check.py builds /verif/harness against the code; `harness -replay <this file>` runs the case again"},
                  open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (PROP, replay)
    elif prim_failed:
        json.dump({"property": PROP, "failed_obligations": obls,
                   "note": "these obligations are not discharged, and no failing input was found in %d cases" % sum(r["Cases"] for r in runs)},
                  open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay)
    elif os.path.exists(replay):
        os.unlink(replay)

    fns = prim + deps + aux
    nobl = sum(len(f["Obls"] or []) for f in fns)
    nok = sum(1 for f in fns for o in f["Obls"] or [] if o["OK"])
    backends = {}
    for f in fns:
        for o in f["Obls"] or []:
            if o["OK"]:
                backends[o["Solver"]] = backends.get(o["Solver"], 0) + 1
    ext = sorted({e for f in fns for e in f["External"] or []})
    cov = {
        "obligations": nobl + len(lemmas),
        "discharged": nok + len(lemmas) - len(bad_lemmas),
        "checker_cmd": "gocv -repo /repo -spec /verif/contracts -prop " + PROP,
        "back_ends": backends,
        "solver_s": round(sum(f["SolverMs"] for f in fns) / 1000, 1),
        "functions_primary": [dict(short(f), obligations=len(f["Obls"] or []), returns=f["Returns"]) for f in prim if not f["Unsupported"]],
        "functions_dependencies": [dict(short(f), obligations=len(f["Obls"] or [])) for f in deps + aux if not f["Unsupported"]],
        "functions_inlined": sorted({n for f in fns for n in f["Inlined"] or []}),
        "recursive_closures": sorted({n for f in fns for n in f["Roles"] or []}),
        "lemmas": len(lemmas),
        "lemmas_not_proved": bad_lemmas,
        "undecided": [dict(short(f), reason=reason(f)) for f in undecided],
        "contracts_left_out": (v.get("Notes") or []) + sorted(dropped),
        "trusted_base": ["gocv (/verif/gocv): translation of Go SSA, memory model, loop cutting", "golang.org/x/tools/go/ssa", "z3 / cvc5"]
            + ["axiom " + a for a in v.get("Axioms") or []] + ["assumed contract " + a for a in v.get("Assumed") or []]
            + ["library function " + e for e in ext],
        "evaluations": sum(r["Cases"] for r in runs),
        "distinct_nontrivial": max(r["Paths"] for r in runs),
        "rule": "bounded search for a failing input, not counted as proved: random paths and documents of the property's kind, compared with a reference interpreter; distinct path texts are counted",
        "samples": runs[0]["Samples"] or [],
        "explanation": "contracts on the functions of /repo, discharged function by function from its SSA form on this run; undecided functions are only covered by the bounded search",
    }
    if v.get("Error"):
        cov["verifier_error"] = v["Error"][:2000]
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED,
        "level": "proof" if all_ok or prim_failed or deps_failed else "exploration",
        "coverage": cov,
        "assumptions": [
            "documents are finite trees: recursion over children terminates (partial correctness)",
            "DocModel methods are deterministic and do not change the document (pure), lengths fit an int",
            "floats are uninterpreted, with commutativity of + and *, and order axioms",
            "strconv, fmt.Sprint, strings, math functions are pure functions of their arguments",
            "slices have fewer than 2^62 elements; the callback is not nil",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)

    print("check %s (%s): %d of %d obligations discharged, %d functions, %d lemmas; %d cases tried; %.0f s" % (
        PROP, TIER, cov["discharged"], cov["obligations"], len(fns), len(lemmas), cov["evaluations"], time.time() - T0))
    if v.get("Error"):
        print("verifier:", v["Error"][:1000])
    for f in undecided:
        print("undecided (bounded search only): %s: %s" % (f["Name"], reason(f)[:200]))
    if bad_lemmas:
        print("lemmas not proved:", bad_lemmas)
    for f in prim_failed + deps_failed:
        for o in failed(f)[:2]:
            print("obligation failed: %s: %s %s (path %s)" % (f["Name"], o["Kind"], o["What"], o["Path"]))
    if failure:
        print("failing input: %s\n  path: %s\n  document: %s\n  got:  %s\n  want: %s" % tuple(str(failure[k])[:400] for k in ("What", "Path", "Doc", "Got", "Want")))
    known(PROP)
    if violation:
        print(violation)
        return 1
    return 0


def known(prop):
    """findings which are recorded, not repaired"""
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING:" + l[len("finding:"):].rstrip())


if __name__ == "__main__":
    sys.exit(main())
