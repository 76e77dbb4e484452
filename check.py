#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides property ID on the current tree of /repo.

1. vcgen generates the proof obligations of every contract which property ID
   rests on from the source in /repo and has z3 discharge them.
2. The harness drives the real code on generated inputs: the bounded stand-in
   for code which is out of reach of the verifier, and the search for a
   failing input once an obligation is not discharged.

exit 0: every obligation discharged, no failing input. exit 1: a line
VIOLATION property=ID replay=PATH [no-failing-input-found].
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod",
           GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
RACE = {"C24"}


def run(cmd, cwd=None, timeout=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -1, out.decode("utf-8", "replace") + "\n[timed out]"


def build_vcgen(tmp):
    exe = os.path.join(tmp, "vcgen")
    d = os.path.join(tmp, "vcsrc")
    shutil.copytree(os.path.join(HERE, "vcgen"), d)
    rc, out = run(["go", "build", "-o", exe, "."], cwd=d, timeout=300)
    return (exe if rc == 0 else None), out


def build_harness(tmp, prop):
    exe = os.path.join(tmp, "harness")
    d = os.path.join(tmp, "hsrc")
    shutil.copytree(os.path.join(HERE, "harness"), d)
    # the dependencies are the ones of the code under test
    mod = open(os.path.join(REPO, "go.mod")).read().replace("module github.com/vito/booklit", "module vharness", 1)
    mod = mod.replace("go 1.18", "go 1.24", 1)
    mod += "\nrequire github.com/vito/booklit v0.0.0\nreplace github.com/vito/booklit => %s\n" % REPO
    open(os.path.join(d, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    cmd = ["go", "build"] + (["-race"] if prop in RACE else []) + ["-o", exe, "."]
    rc, out = run(cmd, cwd=d, timeout=400)
    return (exe if rc == 0 else None), out


def setup():
    """Builds everything once, to fail early and to warm the build cache."""
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        vc, out = build_vcgen(tmp)
        if vc is None:
            print(out)
            return 1
        h, out = build_harness(tmp, "")
        if h is None:
            print(out)
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        return decide(prop, tier, seed, start, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(h, prop, tier, seed, tmp, deep):
    hout = os.path.join(tmp, "harness.json")
    scratch = os.path.join(tmp, "scratch")
    os.makedirs(scratch, exist_ok=True)
    env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER=tier, TMPDIR=scratch, GORACE="halt_on_error=1 exitcode=66",
               VERIF_DEEP=deep, VERIF_REPO=REPO)
    rc, out = run([h, prop, hout], cwd=scratch, timeout=200 if tier == "quick" else 1500, env=env)
    try:
        hres = json.load(open(hout))
    except Exception:
        hres = {}
    if rc != 0 and not hres.get("failure"):
        cur = ""
        try:
            cur = open(hout + ".case").read()
        except Exception:
            pass
        hres["failure"] = {"case": cur, "message": ("the program hangs" if rc == -1 else "the program crashes (exit %d)" % rc) + "\n" + out[-6000:]}
    return hres


def decide(prop, tier, seed, start, tmp):
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", prop + "-replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    if not os.environ.get("VERIF_SKIP_PROOF"):
        vc, out = build_vcgen(tmp)
        if vc is None:
            print(out[-3000:])
            print("the verifier could not be built")
            return 2
    # ---- the real code ----
    hres, herr = {}, None
    h, out = build_harness(tmp, prop)
    if h is None:
        # the tree compiles (build.sh), so an interface the harness uses is gone
        herr = "the harness does not build against this tree:\n" + out[-3000:]
    else:
        hres = drive(h, prop, tier, seed, tmp, "")
    # ---- the proof ----
    rep_file = os.path.join(tmp, "report.json")
    if os.environ.get("VERIF_SKIP_PROOF"):
        rep, rc, out = {"obligations": [{"result": "proved", "task": "skipped", "kind": "", "name": "", "pos": ""}], "tasks": []}, 0, ""
    else:
        cmd = [vc, "-repo", REPO, "-spec", os.path.join(HERE, "contracts"), "-prop", prop, "-json", rep_file, "-models",
               "-budget", "60" if hres.get("failure") else "420" if tier == "quick" else "600"]
        rc, out = run(cmd, timeout=560 if tier == "quick" else 1800)
        try:
            rep = json.load(open(rep_file))
        except Exception:
            rep = {"error": out[-2000:] or "the verifier gave no answer"}
    obls = rep.get("obligations") or []
    missing = rep.get("missing") or []
    unproved = [o for o in obls if o["result"] != "proved"]
    broken = None
    if rep.get("error"):
        broken = rep["error"]
    elif rc not in (0, 1):
        broken = out[-2000:] or "the verifier gave no answer"
    elif not obls and entry.get("level") == "proof":
        broken = "no obligation was generated"
    proof_ok = not unproved and not missing and not broken
    if h and not proof_ok and not hres.get("failure"):
        # a proof is missing: search longer
        hres = drive(h, prop, tier, seed, tmp, "1")
    failure = hres.get("failure")
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    violation = None
    if failure:
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif not proof_ok or herr:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if violation:
        json.dump(dict(property=prop, tier=tier, seed=seed, failing_input=failure,
                       how_to_replay="VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (seed, tier, HERE, prop),
                       failed_obligations=[dict(o) for o in unproved], missing_functions=missing,
                       verifier_error=broken, harness_error=herr),
                  open(replay, "w"), indent=1)
    for o in unproved[:40]:
        print("NOT PROVED: %s | %s | %s | %s (%s)" % (o["kind"], o["task"], o["name"], o["pos"], o["result"]))
    for m in missing:
        print("NOT PROVED: function under contract is gone:", m)
    if broken:
        print("NOT PROVED:", broken[:1500])
    if herr:
        print(herr)
    if failure:
        print("FAILING INPUT:", str(failure.get("case"))[:3000])
        print("  ", str(failure.get("message"))[:3000])
    evidence(prop, tier, seed, start, entry, rep, obls, unproved, missing, broken, hres, violation)
    print("%s: %d obligations, %d discharged; harness: %s evaluations; %.1fs" %
          (prop, len(obls), len(obls) - len(unproved), hres.get("evaluations"), time.time() - start))
    if violation:
        print(violation)
        return 1
    return 0


def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                res.append(l.split(" ", 2)[2])
    except OSError:
        pass
    return res


def evidence(prop, tier, seed, start, entry, rep, obls, unproved, missing, broken, hres, violation):
    kinds, backends = {}, {}
    for o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        backends[o.get("backend", "")] = backends.get(o.get("backend", ""), 0) + 1
    cov = dict(
        obligations=len(obls), discharged=len(obls) - len(unproved),
        checker_cmd="vcgen -repo /repo -spec /verif/contracts -prop %s (z3-new 5.3.2, re-run from source every time)" % prop,
        trusted_base=sorted(set((rep.get("externs") or []) + ["axiom " + a for a in rep.get("axioms") or []]))
                     + ["vcgen: the translation of Go SSA to obligations", "golang.org/x/tools/go/ssa", "z3-new 5.3.2"],
        functions_under_contract=[t["name"] for t in rep.get("tasks") or []],
        obligations_by_kind=kinds, obligations_by_backend=backends,
        inlined_functions=rep.get("inlined") or [],
        lemmas=rep.get("lemmas") or [],
        solver_queries=rep.get("queries", 0), solver_seconds=round(rep.get("solver_secs", 0) or 0, 2),
        missing_functions=missing,
        bounded_standin=dict(label="bounded: generated inputs on the real code, not counted as proved",
                             evaluations=hres.get("evaluations", 0),
                             distinct_nontrivial=hres.get("distinct_nontrivial", 0),
                             rule=hres.get("rule", ""), samples=hres.get("samples", [])),
    )
    level = entry.get("level", "proof")
    if level != "proof":
        cov.update(evaluations=hres.get("evaluations", 0), distinct_nontrivial=hres.get("distinct_nontrivial", 0),
                   rule=hres.get("rule", ""), samples=hres.get("samples", []) or [""])
        cov["explanation"] = entry.get("level_note", "")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(set(rep.get("assumptions") or [])) + ([entry["level_note"]] if entry.get("level_note") else []),
              wall_s=round(time.time() - start, 2), violations=1 if violation else 0)
    if broken:
        ev["coverage"]["verifier_error"] = broken
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
