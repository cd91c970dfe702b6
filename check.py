#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property of /repo's current working tree.

Stage 1 (decides): the functions named in contracts/*.vc are extracted from /repo's source and Verus is asked to
discharge every obligation of their contracts.  Stage 2: the same contracts, executable, are evaluated on the real
code (compiled into the crate through the guarded hook) over enumerated and random inputs: it turns a failed
obligation into a failing input, and stands in (bounded, never counted as proved) for a function stage 1 cannot take.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vx  # noqa: E402

BUILD = os.path.join(HERE, "build")
REPO = vx.REPO
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def rust_env():
    """the toolchain /repo is built with"""
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.partition(b"=")
            if k and k not in (b"PWD", b"OLDPWD", b"SHLVL", b"_"):
                env[k.decode()] = v.decode(errors="replace")
    except Exception:
        pass
    return env


class Harness:
    """the executable contracts, compiled into openraft"""

    def __init__(self, pid, areas):
        self.pid, self.areas = pid, list(areas)
        self.bin = None
        self.err = ""
        self.dropped = []
        self.thread = None

    def root(self, areas):
        h = os.path.join(HERE, "harness", "hook")
        s = ['// generated by check.py']
        s.append(f'pub mod common {{ include!("{h}/common.rs"); }}')
        for a in areas:
            s.append(f'#[allow(unused, dead_code)] pub mod {a} {{ use super::common::*; include!("{h}/{a}.rs"); }}')
        s.append("pub fn run(which: &str, seed: u64, thorough: bool) -> i32 {")
        s.append("    let mut cx = common::Cx::new(which, seed, thorough);")
        for a in areas:
            s.append(f"    {a}::run(&mut cx);")
        s.append("    cx.finish()\n}\n")
        return "\n".join(s)

    def build(self):
        areas = list(self.areas)
        env = rust_env()
        tgt = os.path.join(BUILD, "vxh")
        root = os.path.join(BUILD, f"hook_{self.pid}.rs")
        for _ in range(4):
            new = self.root(areas)
            open(root, "w").write(new)
            env.update(CARGO_TARGET_DIR=tgt, OPENRAFT_VERIF_HARNESS=root, CARGO_NET_OFFLINE="true",
                       RUSTFLAGS="--cfg openraft_verif --cap-lints allow")
            env.pop("CARGO_BUILD_TARGET_DIR", None)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=os.path.join(HERE, "harness"),
                               env=env, capture_output=True, text=True)
            if r.returncode == 0:
                b = os.path.join(tgt, "debug", "openraft-verif-harness")
                self.bin = os.path.join(BUILD, f"harness_{self.pid}")
                shutil.copy2(b, self.bin)
                return
            self.err = r.stderr
            bad = {m for m in re.findall(r"harness/hook/(\w+)\.rs:\d+", "\n".join(
                b for b in re.split(r"\n(?=error|warning)", r.stderr) if b.startswith("error")))}
            if "store" in bad:
                bad |= {"load", "cluster"}
            if "sim" in bad:
                bad |= {"cluster"}
            bad &= set(areas)
            if not bad or bad == set(areas):
                return
            self.dropped += sorted(bad)
            areas = [a for a in areas if a not in bad]

    def start(self):
        self.thread = threading.Thread(target=self.build)
        self.thread.start()

    def run(self, seed, thorough, timeout):
        self.thread.join()
        if not self.bin:
            return {"built": False, "err": self.err[-3000:], "fails": [], "stats": {}}
        cmd = [self.bin, self.pid, str(seed)] + (["thorough"] if thorough else [])
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=BUILD)
            out, rc = r.stdout, r.returncode
            err = r.stderr
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
            rc, err = -9, "timeout"
        fails, stats = [], {}
        for l in out.splitlines():
            if l.startswith("FAIL "):
                try:
                    fails.append(json.loads(l[5:]))
                except Exception:
                    fails.append({"contract": "?", "input": l})
            elif l.startswith("STATS "):
                stats = json.loads(l[6:])
        complete = bool(stats)
        if not complete and rc not in (0, -9):
            # the process died: a crash of the code under test (stack overflow, abort) is a failing input
            last = [l for l in out.splitlines() if l.startswith("AT ")]
            fails.append({"contract": "no crash", "input": (last[-1] if last else "?") + " rc=" + str(rc) + " " + err[-500:]})
        return {"built": True, "fails": fails, "stats": stats, "wall": time.time() - t, "complete": complete, "cmd": cmd, "stderr": err[-2000:]}


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def prove(pid, modules, work, only={}):
    """stage 1; returns a report"""
    rep = {"verified": 0, "errors": 0, "failed": [], "undecided": {}, "fns": [], "smt_ms": 0, "trusted": [], "runs": 0,
           "notes": {}, "cmd": "", "types": [], "ok": False, "breakdown": 0, "rlimit": 0}
    binary = vx.build_extractor(BUILD)
    mods = vx.load_contracts()
    excluded = {}
    for attempt in range(12):
        gen, meta, order = vx.extract(binary, mods, modules, work, excluded=sorted(excluded))
        for e in meta["errors"]:
            excluded.setdefault(e.get("item") or e.get("source"), json.dumps(e))
        newly = False
        for f in meta["fns"]:
            if f["lost"] and f["key"] not in excluded:
                excluded[f["key"]] = "; ".join(f["lost"])
                newly = True
        if newly:
            continue
        r = vx.run_verus(gen, modules, ["--time-expanded"], timeout=700)
        rep["runs"] += 1
        rep["cmd"] = " ".join(r["cmd"]).replace(gen, "gen.rs")
        if r["timeout"]:
            rep["undecided"]["*"] = "verus timed out"
            break
        errs = [(vx.classify(e), e) for e in vx.parse_errors(r["stderr"], meta, gen)]
        errs = [x for x in errs if x[0] != "trailer"]
        comp = [e for c, e in errs if c == "compile"]
        if comp:
            fns = {k for e in comp for k in e["fns"]}
            fns = {k for k in fns if k not in excluded}
            if not fns:
                rep["undecided"]["*"] = "the extracted text does not compile: " + comp[0]["text"][:1500]
                break
            for k in fns:
                excluded[k] = "outside the verifier's reach: " + [e for e in comp if k in e["fns"]][0]["text"][:600]
            continue
        js = r["json"]
        if js is None:
            rep["undecided"]["*"] = "no answer of the verifier: " + r["stderr"][-800:]
            break
        bad = {}
        for c, e in errs:
            if c in ("obligation", "resource"):
                for k in (e["fns"][:1] or ["?"]):
                    bad.setdefault(k, []).append((c, e))
        if bad:
            # a proof that failed is tried again with more resources and other seeds before it counts as failed
            for seed in (7, 23):
                r2 = vx.run_verus(gen, modules, ["--time-expanded", "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"],
                                  rlimit=40, timeout=300)
                rep["runs"] += 1
                if r2["timeout"] or r2["json"] is None:
                    continue
                errs2 = [(vx.classify(e), e) for e in vx.parse_errors(r2["stderr"], meta, gen)]
                if any(c == "compile" for c, _ in errs2):
                    continue
                keep = {(e["fns"] or ["?"])[0] for c, e in errs2 if c in ("obligation", "resource")}
                bad = {k: v for k, v in bad.items() if k in keep}
                if not bad:
                    r, js = r2, r2["json"]
                    break
        vr = js.get("verification-results", {})
        rep["verified"], rep["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        smt = js.get("times-ms", {}).get("smt", {})
        rep["smt_ms"] = smt.get("smt-run", 0)
        rep["rlimit"] = smt.get("rlimit-run", 0)
        rep["functions_smt"] = [
            {"function": f["function"], "ms": round(f["time-micros"] / 1000, 1), "ok": f["success"]}
            for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
        for k, es in bad.items():
            m = next((f["module"] for f in meta["fns"] if f["key"] == k), None)
            if m in only and k not in only[m]:
                rep.setdefault("failed_elsewhere", []).append(k)  # decides other properties
                continue
            if all(c == "resource" for c, _ in es):
                rep["undecided"][k] = "resource limit of the solver"
            else:
                rep["failed"].append({"fn": k, "obligations": [{"msg": e["msg"], "text": e["text"][:3000]} for c, e in es if c == "obligation"]})
        rep["ok"] = True
        break
    for k, why in excluded.items():
        rep["undecided"][k] = why
    own = set(modules)
    for f in meta["fns"]:
        if f["module"] in own and f["module"] in only and f["key"] not in only[f["module"]]:
            rep.setdefault("deps", []).append(f["key"])
        elif f["module"] in own:
            d = {"fn": f["key"], "source": f"{f['source']}:{f['line']}", "rewrites": f["notes"]}
            if f["trusted"]:
                rep["trusted"].append(f["key"])
                d["trusted"] = True
            if f["excluded"]:
                d["undecided"] = True
            rep["fns"].append(d)
            for n, c in f["notes"].items():
                rep["notes"][n] = rep["notes"].get(n, 0) + (c if isinstance(c, int) else 1)
        elif f["module"] not in own:
            rep.setdefault("deps", []).append(f["key"])
    rep["modules"] = modules
    rep["order"] = order
    # scan of what is assumed in the generated text
    text = open(gen).read()
    rep["assumed"] = sorted(set(re.findall(r"assume_specification[^\[]*\[\s*([^\]]*\S)\s*\]", text)))
    rep["external_body"] = text.count("external_body")
    rep["axioms"] = sorted(set(re.findall(r"axiom fn (\w+)", text)))
    rep["assumes"] = len(re.findall(r"\bassume\s*\(", text)) + len(re.findall(r"\badmit\s*\(", text))
    return rep, gen, meta


def vacuity(gen, modules, work, thorough):
    """Guards against vacuous proofs: with the same prelude, axioms and lemmas in scope, `assert(false)` must fail."""
    text = open(gen).read()
    mods = [m for m in modules]
    p = os.path.join(work, "canary.rs")
    # the module's own broadcast uses are repeated in the canary
    out = []
    for m in mods:
        bm = re.search(r"pub mod %s \{(.*?)\n\} // mod" % re.escape(m), text, re.S)
        uses = re.findall(r"^broadcast use [^;]+;", bm.group(1), re.M) if bm else []
        out.append(f"pub mod vx_canary_{m} {{ use super::*; use super::{m}::*; verus! {{\n" + 
                   f"\npub proof fn canary_{m}() {{\n" + "\n".join(sorted(set(uses))) + "\nassert(false); }\n} }")
    open(p, "w").write(text + "\n" + "\n".join(out))
    r = vx.run_verus(p, [f"vx_canary_{m}" for m in mods], timeout=200)
    vr = (r["json"] or {}).get("verification-results", {})
    if not vr or vr.get("encountered-vir-error") or vr.get("verified", 0) + vr.get("errors", 0) == 0:
        return {"ok": None, "why": r["stderr"][-500:]}
    return {"ok": vr.get("errors", 0) == len(mods), "canaries": len(mods), "rejected": vr.get("errors", 0)}


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = json.load(open(os.path.join(HERE, "props.json")))
    P = props[pid]
    work = os.path.join(BUILD, f"work_{pid}")
    os.makedirs(work, exist_ok=True)
    harness = Harness(pid, P["areas"])
    harness.start()
    rep, gen, meta = None, None, None
    perr = None
    try:
        rep, gen, meta = prove(pid, P["modules"], work, P.get("only", {}))
    except Exception as e:  # extractor or contract trouble: undecided by proof
        perr = f"{type(e).__name__}: {e}"
        log("proof stage:", perr[:2000])
    vac = {"ok": None}
    if rep and rep["ok"] and not rep["failed"]:
        vac = vacuity(gen, P["modules"], work, thorough)
    budget = 780 - (time.time() - T0)
    if thorough:
        budget = 3 * 3600
    hr = harness.run(seed, thorough, max(60, budget))
    proved = bool(rep and rep["ok"] and not rep["failed"] and not rep["undecided"] and (rep["errors"] == 0 or rep.get("failed_elsewhere")) and rep["verified"] > 0)
    if rep:
        log(f"{pid}: proof: {rep['verified']} verified, {rep['errors']} errors, {len(rep['fns'])} functions under contract, "
            f"undecided {sorted(rep['undecided'])}, smt {rep['smt_ms']} ms, vacuity {vac}")
        for k, why in rep["undecided"].items():
            log(f"  undecided {k}: {why[:400]}")
        for f in rep["failed"]:
            log(f"  FAILED obligation in {f['fn']}:")
            for o in f["obligations"]:
                log("    " + o["text"].replace("\n", "\n    "))
    if hr["built"]:
        log(f"{pid}: executable contracts: {hr['stats'].get('evals', 0)} evaluations, {len(hr['fails'])} failures, {hr['wall']:.1f} s"
            + ("" if hr["complete"] else " (incomplete)") + (f", areas not built: {harness.dropped}" if harness.dropped else ""))
    else:
        log(f"{pid}: executable contracts did not build: {hr['err'][-1500:]}")

    rc = 0
    violations = 0
    replay = os.path.join(BUILD, f"replay_{pid}.json")
    kf = known_findings(pid)
    fails = []
    for f in hr["fails"]:
        k = next((k for k in kf if k["match"] in f["contract"] + " " + f["input"]), None)
        if k:
            log(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            fails.append(f)
    if fails:
        json.dump({"property": pid, "kind": "failing input", "fails": fails[:20], "failed_obligations": rep["failed"] if rep else [],
                   "replay": " ".join(hr["cmd"])}, open(replay, "w"), indent=1)
        log("  failing input: " + json.dumps(fails[0])[:2000])
        log(f"VIOLATION property={pid} replay={replay}")
        rc, violations = 1, len(fails)
    elif rep and rep["failed"]:
        json.dump({"property": pid, "kind": "failed obligation", "failed_obligations": rep["failed"],
                   "verifier": rep["cmd"], "note": "the executable form of the contracts found no failing input"}, open(replay, "w"), indent=1)
        for f in rep["failed"]:
            log(f"  obligation of {f['fn']}: {f['obligations'][0]['msg']}")
        log(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        rc, violations = 1, len(rep["failed"])
    elif not proved:
        # decided by the bounded stand-in only, if it ran
        if not (hr["built"] and hr["complete"] and not harness.dropped):
            log(f"{pid}: neither the verifier nor the bounded stand-in could decide")
            rc = 2
    if vac.get("ok") is False:
        log(f"{pid}: vacuity guard: assert(false) was accepted")
        rc = rc or 2

    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": P.get("level", "proof"), "wall_s": round(time.time() - T0, 1), "violations": violations,
        "coverage": {
            "obligations": (rep["verified"] + rep["errors"]) if rep else 0,
            "discharged": rep["verified"] if rep else 0,
            "checker_cmd": rep["cmd"] if rep and rep["cmd"] else "verus (not reached)",
            "trusted_base": [
                "Verus 0.2026.09.13 with its Z3, vstd",
                "vxtract (syn): the rewrites T1-T19 listed in tools/vxtract/src/main.rs and DESIGN.md",
            ] + ([f"assumed std contract: {a}" for a in rep["assumed"]] + [f"axiom: {a}" for a in rep["axioms"]]
                 + [f"trusted contract (body not verified): {a}" for a in rep["trusted"]] if rep else []),
            "back_end": "Z3 (Verus)",
            "proof_complete": proved,
            "functions_under_contract": rep["fns"] if rep else [],
            "contracts_of_dependencies_used": rep.get("deps", []) if rep else [],
            "undecided": rep["undecided"] if rep else {"*": perr},
            "solver_ms": rep["smt_ms"] if rep else 0,
            "solver_rlimit": rep["rlimit"] if rep else 0,
            "per_function": rep.get("functions_smt", []) if rep else [],
            "rewrites_used": rep["notes"] if rep else {},
            "vacuity": vac,
            "assume_or_admit_in_generated_text": rep["assumes"] if rep else None,
            "executable_contracts_bounded": {
                "built": hr["built"], "complete": hr.get("complete"), "areas": P["areas"], "areas_not_built": harness.dropped,
                **hr["stats"], "wall_s": round(hr.get("wall", 0), 1),
            },
        },
        "assumptions": P.get("assumptions", []) + [
            "NodeId = u64 and one application configuration stand for every RaftTypeConfig (T4)",
            "addition of indexes, terms, lengths and times in functions marked `math` does not overflow (T11)",
            "async functions are verified as if each await returned at once (T7); tracing, metrics and formatting are dropped (T2, T9)",
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    log(f"{pid}: exit {rc}, {time.time() - T0:.1f} s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
