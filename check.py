#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's working tree, executes it symbolically
(engine/), replays what the solver returned against the native code, writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough] [--only HARNESS] [--no-build]
exit 0: held on everything explored (NOT-EXPLORED lines and the evidence name what within the bounds was not: time, solver); 1: violated (VIOLATION line); 2: no answer."""
import argparse, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec

W = os.path.join(V, "work")
EV = os.path.join(V, "evidence")
FAILING = ("fail", "panic", "memory", "alloc", "abort", "loop")


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def native(h, model, params, kind, timeout=20):
    """runs the native harness on a model; returns (status, detail, labels, observed)"""
    mf = os.path.join(W, "replay.%d.bin" % os.getpid())
    open(mf, "wb").write(bytes.fromhex(model))
    env = dict(os.environ, RUST_BACKTRACE="0", **{"PARAM_" + k: str(v) for k, v in params.items()})
    cmd = [os.path.join(W, "h"), h, mf]
    mem = 6 << 30
    if kind == "memory":
        cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes"] + cmd
        mem, timeout = 24 << 30, 120
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=limits(mem if kind != "alloc" else 1 << 30))
        out, err, rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        return "hang", "does not end within %d s" % timeout, [], ""
    finally:
        os.unlink(mf)
    labels = [l[6:] for l in out.split("\n") if l.startswith("REACH ")]
    obs = "".join(l[4:] for l in out.split("\n") if l.startswith("OBS "))
    if rc == 0 and "DONE" in out:
        return "ok", "", labels, obs
    if rc == 77:
        return "assume", "", labels, obs
    if rc == 99:
        return "fail", [l for l in out.split("\n") if l.startswith("FAIL ")][-1][5:], labels, obs
    if rc == 98:
        m = re.search(r"==\d+== (Invalid|Conditional|Use of|Argument|Mismatched|Process)[^\n]*", err)
        return "memory", m.group(0) if m else "valgrind error", labels, obs
    msg = " ".join(err.strip().split("\n")[:3])[:400]
    return "crash", "rc=%d %s" % (rc, msg), labels, obs


T0 = time.time()
# a quick check answers within 900 s, whatever the tree does to it
DEADLINE = 800


def run_harness(hs, tier, seed):
    h = hs["name"]
    params = dict(hs.get("params", {}))
    if tier == "thorough":
        params.update(hs.get("thorough", {}))
    out = os.path.join(W, "out.%s.%d.json" % (h, os.getpid()))
    budget = hs.get("time", 240) if tier == "quick" else hs.get("time_thorough", max(1800, hs.get("time", 0)))
    if tier == "quick":
        left = DEADLINE - (time.time() - T0)
        if left < 10:
            return {"harness": h, "error": "no time left"}, params
        budget = min(budget, int(left))
    cmd = [os.path.join(W, "llsym"), "--ll", os.path.join(W, "h.ll"), "--harness", h, "--out", out,
           "--workers", str(hs.get("workers", 8)), "--time", str(budget), "--max-fail", "12",
           "--max-steps", str(hs.get("max_steps", 30000000)), "--alloc-limit", str(hs.get("alloc_limit", 64 << 20))]
    for k, v in params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    for r in hs.get("replace", []):
        cmd += ["--replace", r]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0 or not os.path.exists(out):
        return {"harness": h, "error": "engine rc=%d %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-600:])}, params
    d = json.load(open(out))
    os.unlink(out)
    d["wall_s"] = time.time() - t0
    return d, params


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def demangle(names):
    keep = [n for n in names if "clickhouse" in n or n.startswith("c") or "City" in n or n.startswith("LZ4")]
    res = set()
    for n in keep:
        if not n.startswith("_R") and not n.startswith("_ZN"):
            res.add(n)
            continue
        parts = re.findall(r"(?<![0-9])([1-9][0-9]?)_?([A-Za-z_].*)", n)
        toks, i = [], 2
        while i < len(n):
            m = re.match(r"([1-9][0-9]{0,2})_?", n[i:])
            if m and i + m.end() + int(m.group(1)) <= len(n) and re.match(r"[A-Za-z_]\w*$", n[i + m.end():i + m.end() + int(m.group(1))] or "-"):
                toks.append(n[i + m.end():i + m.end() + int(m.group(1))])
                i += m.end() + int(m.group(1))
            else:
                m2 = re.match(r"(s|Cs|B)[0-9a-zA-Z]*_", n[i:])
                i += m2.end() if m2 and m2.end() < 18 else 1
        toks = [t for t in toks if t != "h"]
        if "clickhouse_rs" in toks:
            k = toks.index("clickhouse_rs")
            t = toks[k:]
            if "verif_hooks" not in t[:2]:
                res.add("::".join(t[:6]))
    return sorted(res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sp = spec.PROPS[a.prop]
    os.makedirs(W, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    if not a.no_build:
        p = subprocess.run([os.path.join(V, "build.sh"), W], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            print(p.stdout.decode("utf8", "replace")[-3000:])
            print("NO-ANSWER property=%s: the harness does not build against /repo" % a.prop)
            return 2
    t_build = time.time() - t0
    shutil.rmtree(os.path.join(EV, "replay", a.prop), ignore_errors=True)
    violations, inconclusive, unexplored, findings, runs, funcs = [], [], [], [], [], set()
    tot = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instructions=0, asserts_folded=0, asserts_proved=0, cache_hits=0, forks=0, byte_tables=0)
    validated = 0
    samples = []
    labels_seen = set()
    for hs in sp["harnesses"]:
        if a.only and hs["name"] != a.only:
            continue
        if tier == "quick" and hs.get("thorough_only"):
            continue
        d, params = run_harness(hs, tier, seed)
        h = hs["name"]
        if "error" in d:
            inconclusive.append("%s: %s" % (h, d["error"]))
            continue
        n_ok = d["counts"].get("ok", 0)
        bad = [p for p in d["paths"] if p["kind"] in FAILING]
        soft = {k: d["counts"].get(k, 0) for k in ("unsupported", "unknown")}
        confirmed = False
        for p in bad:
            st, det, lab, obs = native(h, p["model"], params, p["kind"])
            good = st in ("fail", "crash", "memory") or (st == "hang" and p["kind"] in ("loop", "alloc", "memory"))
            if p["kind"] == "fail" and st == "fail" and det != p["msg"]:
                good = True
            sig = "%s: %s" % (p["kind"], p["msg"])
            if not good:
                inconclusive.append("%s: counterexample not reproduced natively (native: %s %s): %s" % (h, st, det, sig[:300]))
                continue
            kf = next((k for k in known() if k.get("status") == "known" and k["property"] == a.prop and k["harness"] == h and k["kind"] == p["kind"] and re.search(k["match"], p["msg"]) and all(l in p["labels"] for l in k.get("labels", []))), None)
            if kf:
                if kf["what"] not in findings:
                    findings.append(kf["what"])
                confirmed = True
                continue
            confirmed = True
            rp = os.path.join(EV, "replay", a.prop)
            os.makedirs(rp, exist_ok=True)
            k = len(violations)
            base = os.path.join(rp, "%s.%d" % (h, k))
            open(base + ".bin", "wb").write(bytes.fromhex(p["model"]))
            json.dump({"property": a.prop, "harness": h, "params": params, "symbolic": sig, "native": "%s %s" % (st, det), "labels": p["labels"], "model": p["model"], "trace": p.get("trace", ""),
                       "how": "build.sh, then: %s work/h %s %s.bin" % (" ".join("PARAM_%s=%s" % kv for kv in params.items()), h, base)}, open(base + ".json", "w"), indent=1)
            violations.append({"harness": h, "what": sig, "native": "%s %s" % (st, det), "replay": base + ".json"})
        # what was explored held; what was not is named, and is an answer as long as it is the smaller part
        part = unexplored if n_ok > 0 and sum(soft.values()) <= n_ok and all(l in d["labels"] for l in hs.get("reach", [])) else inconclusive
        if d["dropped"] and not bad:
            part.append("%s: time budget ran out with %d states unexplored" % (h, d["dropped"]))
        if d["worker_died"]:
            inconclusive.append("%s: a worker died" % h)
        for k, n in soft.items():
            if n:
                msg = next((p["msg"] for p in d["paths"] if p["kind"] == k), "")
                part.append("%s: %d paths %s: %s" % (h, n, k, msg[:400]))
        for l in hs.get("reach", []):
            if l not in d["labels"] and not bad:
                inconclusive.append("%s: vacuous: '%s' not reached" % (h, l))
        if n_ok == 0 and not bad:
            inconclusive.append("%s: no path completes" % h)
        oks = [p for p in d["paths"] if p["kind"] == "ok"]
        nv = 0
        for p in oks[: hs.get("validate", 6)]:
            st, det, lab, obs = native(h, p["model"], params, "ok")
            if st != "ok" or lab != p["labels"] or (obs != p["observed"] and not hs.get("loose_obs")):
                inconclusive.append("%s: native run of an explored path differs: %s %s %s vs %s" % (h, st, det, lab[:6], p["labels"][:6]))
                break
            nv += 1
            if nv == 1:
                samples.append({"harness": h, "model": p["model"][:400], "labels": p["labels"][:12], "instructions": p["steps"]})
        validated += nv
        fns = demangle(d["functions"])
        funcs.update(fns)
        for k in tot:
            tot[k] += d.get(k, 0) if k != "paths" else sum(v for kk, v in d["counts"].items() if kk != "killed")
        labels_seen.update("%s:%s" % (h, l) for l in d["labels"])
        runs.append({"harness": h, "bounds": hs["bounds"], "params": params, "paths": d["counts"], "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "solver_s": round(d["solver_s"], 3),
                     "max_query_s": d["max_query_s"], "wall_s": round(d["wall_s"], 2), "instructions": d["instructions"], "asserts_by_simplification": d["asserts_folded"], "asserts_by_query": d["asserts_proved"],
                     "labels": d["labels"], "native_validated": nv, "stubs": hs.get("replace", [])})
        if a.v:
            print("  %-28s %6.1fs paths=%s q=%d solver=%.1fs asserts=%d+%d labels=%s" % (h, d["wall_s"], d["counts"], d["queries"], d["solver_s"], d["asserts_folded"], d["asserts_proved"], d["labels"]))
            for p in d["paths"]:
                if p["kind"] not in ("ok",):
                    print("     ", p["kind"], p["msg"][:700], "labels", p["labels"], "model", p["model"][:160])
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "states": tot["paths"], "transitions": tot["forks"], "states_are": "states: explored symbolic paths (each stands for every input that satisfies its path condition); transitions: symbolic branch decisions with both sides feasible",
            "samples": samples[:12], "violation_details": violations,
            "harnesses": runs, "paths_total": tot["paths"], "instructions": tot["instructions"],
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "decided_by_truth_table_of_one_byte": tot["byte_tables"],
            "solver_time_s": round(tot["solver_s"], 3), "asserts_by_simplification": tot["asserts_folded"], "asserts_by_query": tot["asserts_proved"],
            "traces_validated_against_impl": validated, "bounds": [r["harness"] + ": " + r["bounds"] for r in runs],
            "inconclusive": inconclusive, "not_explored": unexplored, "known_findings": findings,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": spec.COMMON_ASSUMPTIONS + sp.get("assumptions", []),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(EV, a.prop + ".json"), "w"), indent=1)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f))
    for i in unexplored:
        print("NOT-EXPLORED", i)
    for i in inconclusive:
        print("INCONCLUSIVE", i)
    for v in violations:
        print("  %s: %s | native: %s" % (v["harness"], v["what"][:500], v["native"][:300]))
    print("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d+%d asserts, %d native replays, build %.0fs, total %.0fs" % (
        a.prop, tier, len(runs), tot["paths"], tot["queries"], tot["solver_s"], tot["asserts_folded"], tot["asserts_proved"], validated, t_build, time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (a.prop, violations[0]["replay"]))
        return 1
    if inconclusive:
        print("NO-ANSWER property=%s" % a.prop)
        return 2
    return 0


sys.exit(main())
