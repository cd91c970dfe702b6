#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and props.json"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
cfg = json.load(open(os.path.join(H, "props.json")))
NA = {
    "C30": "liveness: a contract speaks of one call; progress needs fairness of the scheduler, the timers and the network, which no pre/postcondition of these functions expresses",
    "C31": "a claim on executions of several nodes: it needs an inductive invariant over the whole cluster's history and the message soup; the per-node guarantees it rests on are claimed one by one (C01-C13, C17), their composition is not expressible as a contract on the code of one node",
    "C32": "liveness of async tasks and channels (tokio), outside the verifier's reach: async, select! and oneshot/mpsc have no contracts in Verus",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification of the real code (Verus on functions extracted from /repo on every run); failing inputs searched by evaluating the same contracts on the compiled code",
            "level": c.get("level", "proof"),
            "level_note": c.get("note") or ("The functions under contract only; what joins them (tasks, channels, storage order) is covered by a bounded check: a seeded simulation of whole nodes. " if "cluster" in c["areas"] else "") + "Every obligation of the contracted functions is discharged by Verus/Z3 for all inputs; assumes the std contracts, rewrites T1-T19 and the trusted contracts that the evidence lists.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet under contract")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/vx.py --build-only",
    "hooks": {"guard": "cfg openraft_verif", "enable": "RUSTFLAGS='--cfg openraft_verif' with OPENRAFT_VERIF_HARNESS naming the file to include",
              "source_commits": [subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()[-1]]},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
