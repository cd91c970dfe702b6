#!/usr/bin/env python3
"""Driver of the deductive stage: contracts (*.vc) + extractor (vxtract) + Verus.

Library and command line:   vx.py MODULE... [--keep DIR] [--features a,b]
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")


class ContractError(Exception):
    pass


def parse_vc(path):
    """Parse a contract file into a module description."""
    mod = {"name": None, "items": [], "names": [], "deps": [], "file": path}
    source = ""
    substall = {}
    cur = None        # current item
    sub = ("spec",)   # where text goes
    buf = []

    def flush():
        nonlocal buf
        text = "\n".join(buf).strip("\n")
        buf = []
        if cur is None:
            return
        if not text.strip():
            return
        if cur["kind"] == "raw":
            cur["text"] = cur.get("text", "") + text
            return
        k = sub[0]
        if k == "spec":
            cur["spec"] = cur.get("spec", "") + text
        elif k == "loop":
            l = cur.setdefault("loops", {}).setdefault(sub[1], {})
            l[sub[2]] = l.get(sub[2], "") + text
        elif k in ("proof_start", "proof_end", "proof_return"):
            cur[k] = cur.get(k, "") + text
        elif k in ("proof_after", "proof_before"):
            cur.setdefault(k, []).append([sub[1], text])
        elif k == "closure":
            cur.setdefault("closures", {})[sub[1]] = text
        else:
            raise ContractError(f"{path}: text in {sub}")

    for ln, line in enumerate(open(path), 1):
        line = line.rstrip("\n")
        m = re.match(r"\s*//@(\w+)\s*(.*)$", line)
        if not m:
            buf.append(line)
            continue
        d, rest = m.group(1), m.group(2).strip()
        if d in ("module", "source", "deps", "names", "type", "raw", "fn", "loop", "proof", "closure", "substall"):
            flush()
        if d == "module":
            mod["name"] = rest
            cur = None
        elif d == "deps":
            mod["deps"] += rest.split()
        elif d == "noglob":
            mod["noglob"] = True
            cur = None
        elif d == "names":
            mod["names"] += rest.split()
        elif d == "source":
            source = rest
            cur = None
        elif d == "substall":
            # applies to the items that follow; `//@substall` alone clears
            if not rest:
                substall = {}
            else:
                a, b = [x.strip() for x in rest.split("=>")]
                substall = dict(substall, **{a: b})
        elif d == "raw":
            cur = {"kind": "raw", "source": "", "text": ""}
            sub = ("spec",)
            mod["items"].append(cur)
        elif d == "type":
            parts = rest.split()
            cur = {"kind": "type", "key": parts[0], "source": source, "derive": [], "subst": dict(substall)}
            for p in parts[1:]:
                k, _, v = p.partition("=")
                if k in ("derive", "opaque_fields", "drop_fields", "keep_variants", "drop_bounds"):
                    cur[k] = v.split(",")
                else:
                    raise ContractError(f"{path}:{ln}: {p}")
            sub = ("spec",)
            mod["items"].append(cur)
        elif d == "fn":
            # key may contain spaces (`Trait for Type::name`); options after ` | `
            key, _, opts = rest.partition(" | ")
            cur = {"kind": "fn", "key": key.strip(), "source": source, "subst": dict(substall)}
            for p in opts.split():
                k, _, v = p.partition("=")
                if k in ("trusted", "math", "nounfold", "shim", "trymatch", "inline_async"):
                    cur[k] = True
                elif k in ("ret", "rename", "as", "retty"):
                    cur[k] = v
                elif k == "drop_bounds":
                    cur[k] = v.split(",")
                elif k == "props":
                    cur["props"] = v.split(",")
                else:
                    raise ContractError(f"{path}:{ln}: option {p}")
            sub = ("spec",)
            mod["items"].append(cur)
        elif d == "loop":
            parts = rest.split()
            k = parts[0]
            where = "spec"
            for p in parts[1:]:
                if p.startswith("iter="):
                    cur.setdefault("loops", {}).setdefault(k, {})["iter"] = p[5:]
                elif p in ("start", "end", "before", "after", "spec"):
                    where = p
                else:
                    raise ContractError(f"{path}:{ln}: {p}")
            cur.setdefault("loops", {}).setdefault(k, {})
            sub = ("loop", k, where)
        elif d == "proof":
            if rest in ("start", "end", "return"):
                sub = ("proof_" + rest,)
            else:
                m2 = re.match(r"(after|before)\s+`(.*)`$", rest)
                if not m2:
                    raise ContractError(f"{path}:{ln}: proof {rest}")
                sub = ("proof_" + m2.group(1), m2.group(2))
        elif d == "closure":
            sub = ("closure", rest)
        elif d == "rewrite":
            m2 = re.match(r"`(.*)`\s*=>\s*`(.*)`$", rest)
            if not m2:
                raise ContractError(f"{path}:{ln}: rewrite {rest}")
            cur.setdefault("rewrites", []).append([m2.group(1), m2.group(2)])
        elif d == "argty":
            a, b = [x.strip() for x in rest.split("=>")]
            cur.setdefault("argty", {})[a] = b
        elif d == "subst":
            a, b = [x.strip() for x in rest.split("=>")]
            cur.setdefault("subst", {})[a] = b
        elif d == "attrs":
            cur["attrs"] = cur.get("attrs", "") + rest
        elif d == "retty":
            cur["retty"] = rest
        elif d == "emit":
            cur["as"] = rest
        else:
            raise ContractError(f"{path}:{ln}: unknown directive {d}")
    flush()
    if not mod["name"]:
        raise ContractError(f"{path}: no module")
    return mod


def load_contracts(variant="default"):
    mods = {}
    for dirpath, _, files in os.walk(CONTRACTS):
        for f in sorted(files):
            if f.endswith(".vc"):
                m = parse_vc(os.path.join(dirpath, f))
                m["variants"] = None
                mods[m["name"]] = m
    return mods


def closure_of(mods, names):
    """modules needed, dependencies first"""
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        if n not in mods:
            raise ContractError(f"unknown module {n}")
        for d in mods[n]["deps"]:
            go(d)
        out.append(n)
    for n in names:
        go(n)
    return out


def build_extractor(scratch):
    """cargo build of tools/vxtract (offline); returns the path of the binary"""
    tgt = os.path.join(scratch, "vxt")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="", RUSTC_WRAPPER="")
    env.pop("CARGO_TARGET_DIR", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", tgt],
                       cwd=os.path.join(VERIF, "tools/vxtract"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vxtract does not build: " + r.stderr[-3000:])
    return os.path.join(tgt, "debug", "vxtract")


def global_cfg():
    return json.load(open(os.path.join(CONTRACTS, "global.json")))


def extract(binary, mods, names, scratch, features=("tokio-rt",), excluded=()):
    order = closure_of(mods, names)
    g = global_cfg()
    prelude = open(os.path.join(CONTRACTS, "prelude.rs")).read()
    uses = "".join(f"pub use {n}::*;\n" for n in order if not mods[n].get("noglob"))
    cfg = {
        "root": REPO,
        "mono": g["mono"], "type_map": g["type_map"], "expr_map": g["expr_map"], "drop_params": g["drop_params"],
        "unwrap_types": g["unwrap_types"], "features": list(features), "rename": g.get("rename", {}),
        "known_names": sorted({n for m in mods.values() for n in m["names"]} |
                              {i["key"].rsplit("::", 1)[-1] for m in mods.values() for i in m["items"] if i["kind"] == "fn"}),
        "excluded": list(excluded),
        "no_unfold": g.get("no_unfold", []), "drop_assoc": g.get("drop_assoc", []), "drop_bounds": g.get("drop_bounds", []), "shims": g.get("shims", []), "shim_paths": g.get("shim_paths", {}), "drop_args": g.get("drop_args", {}),
        "prelude": prelude + "\n" + uses,
        "epilogue": "\nfn main() {}\n",
        "modules": [{k: v for k, v in mods[n].items() if k in ("name", "items", "names")} for n in order],
    }
    cj, out, meta = (os.path.join(scratch, x) for x in ("cfg.json", "gen.rs", "meta.json"))
    json.dump(cfg, open(cj, "w"))
    r = subprocess.run([binary, cj, out, meta], capture_output=True, text=True)
    if r.returncode != 0:
        raise ContractError("extractor failed: " + r.stderr[-3000:])
    return out, json.load(open(meta)), order


ERR_RE = re.compile(r"^(error|warning)(\[E\d+\])?: (.*)$")


def run_verus(gen, modules=None, extra=(), rlimit=None, timeout=800, threads=8):
    cmd = ["verus", gen, "--output-json", "--time", "--num-threads", str(threads), "--multiple-errors", "4"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    for m in modules or []:
        cmd += ["--verify-only-module", m]
    cmd += list(extra)
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(gen), env=env)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        return {"timeout": True, "stdout": "", "stderr": "", "rc": -1, "wall": time.time() - t, "cmd": cmd, "json": None}
    j = None
    try:
        j = json.loads(out)
    except Exception:
        pass
    return {"timeout": False, "stdout": out, "stderr": err, "rc": rc, "wall": time.time() - t, "cmd": cmd, "json": j}


def parse_errors(stderr, meta, gen):
    """list of {msg, line, fn, text, compile}: one per error block"""
    lines = stderr.splitlines()
    errs = []
    i = 0
    name = os.path.basename(gen)
    while i < len(lines):
        m = ERR_RE.match(lines[i])
        if m and m.group(1) == "error":
            msg = m.group(3)
            code = m.group(2)
            blk = [lines[i]]
            j = i + 1
            while j < len(lines) and not ERR_RE.match(lines[j]) and not re.match(r"^(note|help): ", lines[j]):
                blk.append(lines[j])
                j += 1
            allblk = "\n".join(blk)
            locs = [int(x) for x in re.findall(re.escape(name) + r":(\d+):\d+", allblk)]
            # secondary spans: numbered source lines inside the block
            nums = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", allblk, re.M)]
            errs.append({"msg": msg, "code": code, "locs": locs, "nums": nums, "text": allblk})
            i = j
        else:
            i += 1
    for e in errs:
        cand = e["locs"] + e["nums"]
        e["fns"] = []
        for c in cand:
            for l in meta["lines"]:
                if l["start"] <= c <= l["end"] and l["key"] not in e["fns"]:
                    e["fns"].append(l["key"])
    return errs


SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic", "decreases not satisfied", "possible division by zero", "unable to prove", "recommendation",
            "possible bit shift", "loop invariant", "failed this", "assert", "requirement")
RESOURCE = ("Resource limit", "rlimit", "timed out")


def classify(err):
    m = err["msg"]
    if any(x in m for x in RESOURCE):
        return "resource"
    if m.startswith("aborting due to"):
        return "trailer"
    if err["code"]:
        return "compile"
    if any(m.startswith(x) or x in m for x in SEMANTIC):
        return "obligation"
    return "compile"


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("modules", nargs="*")
    ap.add_argument("--keep", default="/tmp/vxwork")
    ap.add_argument("--features", default="tokio-rt")
    ap.add_argument("--all", action="store_true", help="verify dependency modules as well")
    ap.add_argument("--fn")
    ap.add_argument("--exclude", default="")
    ap.add_argument("--extract-only", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.build_only:
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        print(build_extractor(os.path.join(VERIF, "build")))
        return
    os.makedirs(a.keep, exist_ok=True)
    b = os.environ.get("VXTRACT") or build_extractor("/tmp")
    mods = load_contracts()
    names = a.modules or list(mods)
    gen, meta, order = extract(b, mods, names, a.keep, a.features.split(","), [x for x in a.exclude.split(",") if x])
    for e in meta["errors"]:
        print("EXTRACT", e)
    for f in meta["fns"]:
        if f["lost"]:
            print("LOST", f["key"], f["lost"])
    if a.extract_only:
        return
    extra = []
    if a.fn:
        extra += ["--verify-function", a.fn]
    r = run_verus(gen, None if a.all else names, extra)
    errs = parse_errors(r["stderr"], meta, gen)
    for e in errs:
        print("-----", classify(e), e["fns"])
        print(e["text"])
    # trailing non-error diagnostics
    if r["json"] is None or not errs and r["rc"] != 0:
        print(r["stderr"][-6000:])
        print(r["stdout"][-2000:])
    if r["json"]:
        print(json.dumps(r["json"].get("verification-results")), "wall", round(r["wall"], 1))


if __name__ == "__main__":
    main()
