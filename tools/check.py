#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property on /repo's current tree.
   check.py --replay FILE               -- run a recorded counterexample against the real code
   check.py --setup                     -- build the engine and the code of /repo"""
import hashlib, json, os, re, subprocess, sys, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild as b
from concurrent.futures import ThreadPoolExecutor

V = b.VERIF


def config():
    import checks
    return checks.CHECKS


def known_findings():
    """known-findings.txt: 'PROPERTY<TAB>label<TAB>description'; 'fixed:' lines are a record only"""
    r = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            prop, label, desc = l.split("\t", 2)
            r.setdefault(prop, {})[label] = desc
    return r


def rel(p):
    return os.path.relpath(p, b.REPO) if p.startswith(b.REPO + "/") else "gen/" + os.path.basename(p)


def build(h, defs):
    """compile harness h (with defs) and the sources of /repo it needs; link; returns executable, info"""
    t0 = time.time()
    so, rt = b.ensure_engine()
    gen = b.ensure_parser()
    fl = b.base_flags(gen)
    srcs = b.sources("parser") + [gen + "/hlasmparser.cpp"]
    if h.get("server"):
        srcs += b.sources("server")
    srcs += [s for s in b.sources("utils") if os.path.basename(s) in ("platform.cpp", "native_path.cpp")]
    name = os.path.basename(h["file"])[:-4]
    hfl = fl + ["-I" + V + "/harness"] + ["-D" + d for d in defs]
    own = [(os.path.join(V, "harness", h["file"]), hfl), (V + "/engine/models.cpp", fl)]
    for x in h.get("extra", []):
        own.append((os.path.join(V, x), hfl))
    pre = h.get("pre", [])  # flags for the language server's sources (a forced include)
    pfl = [p.replace("@V", V) for p in pre]
    own[0] = (own[0][0], own[0][1] + pfl)
    dfl = [p.replace("@V", V) for p in h.get("pre_debugger", [])]  # the same for the debugger's sources

    def comp(ss):
        jobs = own + [(s, fl + pfl if "/language_server/src/" in s else fl + dfl if "/debugging/" in s else fl) for s in sorted(ss, key=lambda s: -os.path.getsize(s))]
        with ThreadPoolExecutor(b.JOBS) as ex:
            res = list(ex.map(lambda j: b.compile_tu(j[0], j[1], so), jobs))
        return [o for o, _ in res[:len(own)]], [o for o, _ in res[len(own):]], sum(1 for _, c in res if c)

    tag = name + "-" + b.hstr(" ".join(defs))[:6]
    oo, lo, compiled = comp(srcs)
    ss = sorted(srcs, key=lambda s: -os.path.getsize(s))
    exe, used = b.link_archive(tag, oo, lo, rt)
    sel = [s for s, o in zip(ss, lo) if o in used]
    return exe, {"tus": len(sel), "compiled": compiled, "build_s": round(time.time() - t0, 1)}


def replay_once(exe, hexin, timeout):
    """concrete run; returns (failed, text)"""
    try:
        r = subprocess.run([exe, "--replay", hexin, "--path-timeout", str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    m = [l for l in r.stdout.splitlines() if l.startswith("REPLAY:")]
    return r.returncode not in (0, 3), (m[0] if m else r.stdout[-300:])


def run(prop, tier):
    t0 = time.time()
    cfg = config()[prop]
    known = known_findings().get(prop, {})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "violations": 0}
    cov = {"technique": "solver-based checking: exhaustive symbolic execution of the real code (LLVM IR of /repo's current tree), Z3 QF_BV",
           "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "queries": 0, "queries_sat": 0, "queries_unsat": 0,
           "queries_unknown": 0, "solver_s": 0.0, "assertions_checked": 0, "assertions_symbolic": 0, "exhaustive": True, "samples": [],
           "functions_encoded": [], "harnesses": []}
    rc = 0
    violations = []
    problems = []
    fns = set()
    os.makedirs(V + "/evidence", exist_ok=True)
    for h in cfg["harnesses"]:
        for variant in h[tier] if isinstance(h[tier], list) else [h[tier]]:
            defs = variant.get("defs", [])
            exe, info = build(h, defs)
            js = "/tmp/sx-%s-%d.json" % (prop, os.getpid())
            cmd = [exe, "--json", js, "--budget", str(variant.get("budget", 60)), "--jobs", str(b.JOBS)] + variant.get("args", [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                res = json.load(open(js))
                os.remove(js)
            except Exception:
                problems.append("%s: engine produced no result (exit %d): %s" % (h["file"], r.returncode, r.stdout[-800:]))
                continue
            hs = {"harness": h["file"], "defs": defs, "bounds": variant.get("bounds", h.get("bounds", "")), "build": info}
            for k in ("paths", "completed", "assume_stopped", "failed", "crashed", "timeouts", "lost", "internal", "pending", "exhaustive", "branch_events",
                      "max_events_on_a_path", "queries", "unknown", "cap_hits", "diverged", "concretizations", "concretized_in", "covers", "assertion_sites", "wall_s",
                      "solver_s"):
                hs[k] = res[k]
            cov["harnesses"].append(hs)
            cov["states"] += res["paths"]
            cov["transitions"] += res["branch_events"]
            cov["queries"] += res["queries"]
            cov["queries_sat"] += res["sat"]
            cov["queries_unsat"] += res["unsat"]
            cov["queries_unknown"] += res["unknown"]
            cov["solver_s"] = round(cov["solver_s"] + res["solver_s"], 3)
            cov["assertions_checked"] += res["assertions"]
            cov["assertions_symbolic"] += res["symbolic_assertions"]
            cov["exhaustive"] &= res["exhaustive"]
            cov["samples"] += [h["file"] + ": " + s for s in res["samples"][:6]]
            fns.update(f for f in res["functions"])
            # validate sample paths: re-run them concretely (no symbolic state), expecting the same verdict
            for hx in res.get("sample_inputs", [])[:8]:
                bad, txt = replay_once(exe, hx, 60)
                cov["traces_validated_against_impl"] += 1
                if bad and not res["failures"]:
                    problems.append("sample %s fails concretely but not symbolically: %s" % (hx, txt))
            for f in res["failures"]:
                lim = 60
                bad, txt = replay_once(exe, f["bytes"], lim)
                cov["traces_validated_against_impl"] += 1
                if not bad:
                    if "time limit" in f["what"]:
                        continue  # slow under instrumentation only
                    problems.append("counterexample not confirmed by the concrete run: %s | %s | %s" % (f["what"], f["input"], txt))
                    continue
                violations.append((h, defs, f, txt))
            kn = {k[6:]: n for k, n in res["covers"].items() if k.startswith("known:")}
            for k in kn:
                if k in known:
                    print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
                else:
                    problems.append("harness refers to an unlisted finding %s" % k)
            if not res["failures"]:
                missing = [c for c in variant.get("covers", h.get("covers", [])) if not res["covers"].get(c)]
                if missing:
                    problems.append("%s: required situations not reached: %s" % (h["file"], ", ".join(missing)))
                if res["paths"] and not res["completed"]:
                    problems.append("%s: no path completed" % h["file"])
            if res["lost"] or res["internal"]:
                problems.append("%s: %d paths lost, %d internal errors: %s" % (h["file"], res["lost"], res["internal"], r.stdout[-500:]))
            if violations and tier == "quick":
                break
        if violations and tier == "quick":
            break
    os.makedirs(V + "/replays", exist_ok=True)
    for h, defs, f, txt in violations:
        hid = hashlib.sha256((f["what"] + f["bytes"]).encode()).hexdigest()[:10]
        p = os.path.join(V, "replays", "%s-%s.json" % (prop, hid))
        json.dump({"property": prop, "harness": h["file"], "defs": defs, "bytes": f["bytes"], "what": f["what"], "input": f["input"], "replay": txt,
                   "how": "python3 %s/tools/check.py --replay %s" % (V, p)}, open(p, "w"), indent=1)
        print("  %s | %s" % (f["what"], f["input"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    cov["functions_encoded"] = sorted(f for f in fns if "hlasm_plugin" in f)[:400]
    cov["functions_encoded_count"] = len([f for f in fns if "hlasm_plugin" in f])
    cov["bounds"] = cfg.get("bounds", "")
    cov["outside_bounds"] = cfg.get("outside", "")
    cov["problems"] = problems
    ev["coverage"] = cov
    ev["assumptions"] = cfg.get("assumptions", []) + ["clang -O1 lowering of /repo's sources; engine and library models of /verif/engine (DESIGN.md)"]
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    if rc == 0 and problems:
        for p in problems:
            print("PROBLEM: " + p)
        rc = 2
    print("%s %s: %s, %d paths, %d queries (%.1f s solver), exhaustive=%s, %.1f s" %
          (prop, tier, {0: "holds", 1: "VIOLATED", 2: "no answer"}[rc], cov["states"], cov["queries"], cov["solver_s"], cov["exhaustive"], time.time() - t0))
    return rc


def main():
    # what harnesses write lies in a scratch folder
    scratch = tempfile.mkdtemp(prefix="sx-scratch-")
    os.environ["SX_SCRATCH"] = scratch
    try:
        return main2()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main2():
    a = sys.argv[1:]
    if a[0] == "--replay":
        j = json.load(open(a[1]))
        h = [h for h in config()[j["property"]]["harnesses"] if h["file"] == j["harness"]][0]
        exe, _ = build(h, j["defs"])
        bad, txt = replay_once(exe, j["bytes"], 120)
        print(txt)
        sys.exit(1 if bad else 0)
    if a[0] == "--setup":
        b.build_lib("parser")
        for c in config().values():
            for h in c["harnesses"]:
                for v in h["quick"]:
                    build(h, v.get("defs", []))
        return
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(run(a[0], tier))
    except b.BuildError as e:
        print("BUILD FAILED: " + str(e)[-3000:])
        sys.exit(2)


if __name__ == "__main__":
    main()
