#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
import props
V = os.path.dirname(os.path.abspath(__file__))
def hook_commits():
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().split("\n")
    return [l.split(" ", 1)[0] for l in o if " verif:" in l]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P + props.NA:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement")}
        q["quantifier"] = {"over": p["over"], "text": p["quant"]}
        q["why_tests_cant"] = p["why"]
        q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": p.get("hook", "cfg(clickhouse_verif): src/verif_hooks.rs")}
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "cfg(clickhouse_verif)", "enable": "RUSTFLAGS='--cfg clickhouse_verif' (build.sh)", "source_commits": hook_commits()},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": "symbolic execution of the compiled crate's LLVM IR with an SMT solver (z3), counterexamples replayed natively",
                 "level": "model_checking", "level_note": p["note"]} for p in props.P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
