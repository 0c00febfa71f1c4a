#!/usr/bin/env python3
"""check.py ID -- decide one property on /repo's current working tree.

1. kx extracts the functions named in the property's units from /repo and splices in
   the contracts (units/*.vx); Verus must accept every obligation.
2. Every function under contract is re-submitted with `assert(false)` at its start and
   must be rejected (a contradictory precondition would make the proof empty).
3. A search for a concrete failing input runs against the real code: briefly when the
   proof went through, longer when it did not.

Exit 0: the property held.  Exit 1 with a VIOLATION line: it does not.
See DESIGN.md, "Outcomes".
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
KX = os.path.join(B, "kx", "debug", "kx")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
PROPS = json.load(open(os.path.join(V, "props.json")))
KNOWN = os.path.join(V, "known-findings")
ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV.pop("RUSTFLAGS", None)
RLIMIT = 100


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env or ENV, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\ntimeout"


# ---------------------------------------------------------------- building
def build_kx():
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "kx"))
    rc, o, er = run(["cargo", "build", "--offline", "--quiet"], 600, e, os.path.join(V, "kx"))
    return rc == 0, er


def src_files():
    out = []
    for d in sorted(glob.glob(os.path.join(REPO, "keramics-*"))):
        for r, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".yaml", ".json", ".pest")):
                    out.append(os.path.join(r, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    return sorted(out)


def src_digest():
    h = hashlib.sha256()
    for f in src_files():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


STUB = """use keramics_core::ErrorTrace;
#[derive(Default)]
pub struct LzxpressContext {}
impl LzxpressContext {
    pub fn new() -> Self { Self {} }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("LZXPRESS is not part of this source tree"))
    }
}
#[derive(Default)]
pub struct LzxpressHuffmanContext {}
impl LzxpressHuffmanContext {
    pub fn new() -> Self { Self {} }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("LZXPRESS is not part of this source tree"))
    }
}
"""
WS_MEMBERS = ["checksums", "compression", "core", "datetime", "encodings", "formats", "hashes",
              "layout-map", "layout-map-derive", "sigscan", "types", "vfs", "path"]


def sync_ws():
    """Mirror of the crates the formats harness needs (keramics-compression does not
    compile in this source tree: its module lzxpress is missing; a stub that always
    returns an error stands in for that one module when the file is absent)."""
    ws = os.path.join(B, "ws")
    os.makedirs(ws, exist_ok=True)
    want = {}
    members = [m for m in WS_MEMBERS if os.path.exists(os.path.join(REPO, "keramics-" + m, "Cargo.toml"))]
    for m in members:
        base = os.path.join(REPO, "keramics-" + m)
        for r, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", "tests", "test_data")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".yaml", ".json", ".pest")):
                    p = os.path.join(r, f)
                    with open(p, "rb") as fh:
                        want[os.path.relpath(p, REPO)] = fh.read()
    lz = "keramics-compression/src/lzxpress.rs"
    if lz not in want:
        want[lz] = STUB.encode()
    # The mirror of keramics-formats has its modules and module-level functions public, so
    # that the search reaches them.
    for f in want:
        if f.startswith("keramics-formats/src/") and f.endswith(".rs"):
            t = want[f].decode("utf-8", "surrogateescape")
            t = re.sub(r"\bpub\((super|crate)\)", "pub", t)
            t = re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", t)
            want[f] = t.encode("utf-8", "surrogateescape")
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    root = re.sub(r"(?s)\nmembers\s*=\s*\[.*?\]", "\nmembers = [" + ", ".join('"keramics-%s"' % m for m in members) + "]", root, count=1)
    want["Cargo.toml"] = root.encode()
    have = set()
    for r, ds, fs in os.walk(ws):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            have.add(os.path.relpath(os.path.join(r, f), ws))
    for f in have - set(want):
        if f != "Cargo.lock":
            os.unlink(os.path.join(ws, f))
    for f, data in want.items():
        p = os.path.join(ws, f)
        old = None
        if f in have:
            with open(p, "rb") as fh:
                old = fh.read()
        if old != data:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data)


def build_harness(name):
    """Build harness/<name> against the current sources; rebuilt whenever their content
    differs from the last build (file times are not trusted)."""
    tgt = os.path.join(B, "wit-" + name)
    os.makedirs(tgt, exist_ok=True)
    if name in ("formats", "compression"):
        sync_ws()
    dig = src_digest()
    stamp = os.path.join(tgt, "digest")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != dig:
        for d in glob.glob(os.path.join(tgt, "release", ".fingerprint", "*")):
            if os.path.basename(d).startswith(("keramics", "wit-", "kx-")):
                shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    e = dict(ENV, CARGO_TARGET_DIR=tgt)
    rc, o, er = run(["cargo", "build", "--offline", "--release"], 800, e, os.path.join(V, "harness", name))
    if rc != 0:
        return None, er[-3000:]
    with open(stamp, "w") as f:
        f.write(dig)
    return os.path.join(tgt, "release", "wit-" + name), ""


# ---------------------------------------------------------------- proof
PROOF_ERR = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not prove termination|"
    r"index out of bounds|assert_by|assertion not satisfied|loop invariant|unreachable|ensures not satisfied|"
    r"possible overflow|requires not satisfied|may be out of range|bit-vector")


def skel(js):
    return {f["fn"]: f["skeleton"] for f in js["functions"]}


def verify_unit(unit):
    """-> dict(status=proved|failed|undecided, ...)"""
    vx = os.path.join(V, "units", unit + ".vx")
    gen = os.path.join(B, "gen")
    os.makedirs(gen, exist_ok=True)
    out = os.path.join(gen, unit + ".rs")
    r = {"unit": unit, "status": "undecided", "reason": "", "verified": 0, "errors": 0, "functions": [],
         "trusted": [], "smt_ms": 0, "failed": [], "canaries": 0, "output": "", "rewrites": []}
    rc, o, er = run([KX, REPO, vx, out], 60)
    if rc != 0:
        r["reason"] = "extraction: " + er.strip()[-500:]
        return r
    js = json.load(open(out + ".json"))
    js["functions"] = [f for f in js["functions"] if not f.get("external")]
    r["functions"] = ["%s (%s)" % (f["fn"], f["file"]) for f in js["functions"]]
    r["rewrites"] = sorted({w for f in js["functions"] for w in f["rewrites"]})
    r["skeleton"] = skel(js)
    text = open(out).read()
    # mechanical scan for everything that is assumed rather than proved
    tr = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l:
            j = i + 1
            while j < len(lines) and not re.search(r"\b(fn|struct|enum)\b", lines[j]):
                j += 1
            m = j < len(lines) and re.search(r"\b(?:fn|struct|enum)\s+(\w+)", lines[j])
            if m and len(re.findall(r"\b%s\b" % m.group(1), text)) >= 2:
                pu = re.search(r"// contract proved in unit (\w+)", l)
                tr.append(("contract used here, proved in unit %s: " % pu.group(1) if pu else "external_body: ") + lines[j].strip()[:160])
        elif "assume_specification" in l:
            tr.append("assume_specification: " + l.strip()[:160])
        elif re.search(r"\bassume\s*\(|\badmit\s*\(", l):
            tr.append("assume: " + l.strip()[:160])
    r["trusted"] = tr
    rc, o, er = run(["verus", out, "--output-json", "--time-expanded", "--rlimit", str(RLIMIT), "--num-threads", "4",
                     "--multiple-errors", "3"], 600)
    try:
        d = json.loads(o)
        vr = d["verification-results"]
    except Exception:
        r["reason"] = "verifier gave no result: " + (er.strip()[-1500:] or "timeout")
        return r
    for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r["smt_ms"] += f.get("time", 0)
            if not f.get("success", True):
                r["failed"].append(f["function"])
    r["failed"] = sorted(set(r["failed"]))
    r["verified"] = vr.get("verified", 0)
    r["errors"] = vr.get("errors", 0)
    r["output"] = er[-6000:]
    if vr.get("encountered-vir-error") or "verified" not in vr:
        r["reason"] = "generated file rejected before verification: " + er.strip()[:1500]
        return r
    if vr.get("success") and r["errors"] == 0 and r["verified"] > 0:
        # canary run
        cout = os.path.join(gen, unit + "_canary.rs")
        rc, o2, er2 = run([KX, REPO, vx, cout, "--canary"], 60)
        cj = json.load(open(cout + ".json"))
        rc, o2, er2 = run(["verus", cout, "--rlimit", "15", "--num-threads", "4"], 600)
        ct = open(cout).read().split("\n")
        hit = set()
        for m in re.finditer(r"error: assertion failed\s+-->\s+\S+?:(\d+):", er2):
            n = int(m.group(1))
            if "assert(false)" in ct[n - 1]:
                hit.add(n)
        r["canaries"] = len(hit)
        want = sum(1 for l in ct if "assert(false);" in l and "kx canary" in l) or cj["canaries"]
        # one that only ran out of resources was not shown contradictory either
        if len(hit) + len(re.findall(r"Resource limit", er2)) < want:
            r["reason"] = "vacuous: %d of %d reachability canaries were refuted" % (len(hit), want)
            return r
        r["status"] = "proved"
        return r
    if re.search(r"rlimit|Resource limit", er) and not PROOF_ERR.search(er):
        r["reason"] = "verifier resource limit: " + ", ".join(r["failed"])
        return r
    if r["errors"] > 0 and PROOF_ERR.search(er):
        r["status"] = "failed"
        r["reason"] = "; ".join(re.findall(r"error: ([^\n]+)", er)[:6])
        pinned = json.load(open(os.path.join(V, "units", "skeleton.json"))).get(unit)
        if pinned != r["skeleton"]:
            r["status"] = "undecided"
            r["reason"] = "obligation failed, but the code's loop structure or signatures differ from those the contracts were written for: " + r["reason"]
        return r
    r["reason"] = "verifier: " + er.strip()[:800]
    return r


# ---------------------------------------------------------------- kani
def verify_kani(crate, harnesses):
    """cargo kani on /verif/kani/<crate>; each harness is loop-free over full-domain
    symbolic inputs or labelled bounded in its name (…_bounded)."""
    r = {"unit": "kani/" + crate, "status": "undecided", "reason": "", "verified": 0, "errors": 0, "functions": [],
         "trusted": ["kani 0.68 / CBMC"], "smt_ms": 0, "failed": [], "canaries": 0, "output": "", "rewrites": []}
    tgt = os.path.join(B, "kani-" + crate)
    os.makedirs(tgt, exist_ok=True)
    dig = src_digest()
    stamp = os.path.join(tgt, "digest")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != dig:
        for d in glob.glob(os.path.join(tgt, "**", ".fingerprint", "*"), recursive=True):
            if os.path.basename(d).startswith("keramics"):
                shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(dig)
    cmd = ["cargo", "kani", "--target-dir", tgt, "-j", "8", "--output-format", "terse"]
    for h in harnesses:
        cmd += ["--harness", h]
    e = dict(ENV)
    e.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    rc, o, er = run(cmd, 600, e, os.path.join(V, "kani", crate))
    r["smt_ms"] = int(1000 * (time.time() - t0))
    ok = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    r["functions"] = ["kani harness " + h for h in harnesses]
    if not ok:
        r["reason"] = "kani gave no result: " + (o + er)[-1500:]
        return r
    r["verified"], r["errors"] = int(ok.group(1)), int(ok.group(2))
    r["output"] = o[-6000:]
    if r["errors"] == 0 and int(ok.group(3)) >= len(harnesses):
        r["status"] = "proved"
    elif "CBMC failed" in o or "out of memory" in o.lower() or "unwinding assertion" in o:
        r["reason"] = "kani: " + o[-800:]
    else:
        r["status"] = "failed"
        r["failed"] = re.findall(r"Verification failed for - (\S+)", o)
        r["reason"] = "; ".join(re.findall(r"Failed Checks: ([^\n]+)", o)[:6])
    return r


# ---------------------------------------------------------------- search
def search(binary, pid, ms, out, seed=None):
    rc, o, er = run([binary, pid, str(SEED if seed is None else seed), str(ms), out, KNOWN], ms / 1000 + 120, ENV, B)
    res = {"witness": None, "known": [], "result": None, "raw": o[-2000:]}
    for l in o.split("\n"):
        if l.startswith("WITNESS "):
            res["witness"] = l[8:]
        elif l.startswith("KNOWN "):
            res["known"].append(l[6:])
        elif l.startswith("RESULT "):
            res["result"] = json.loads(l[7:])
    if rc is not None and rc < 0 and not res["witness"]:
        res["witness"] = "the process died with signal %d (stack overflow or abort) while running the real code" % -rc
        cur = out + ".current"
        with open(out, "w") as f:
            json.dump({"property": pid, "seed": SEED, "call": res["witness"],
                       "input": open(cur).read() if os.path.exists(cur) else "rerun the search with this seed",
                       "stderr": er[-1500:]}, f)
    return res


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    t0 = time.time()
    for d in ("build", "evidence", "replay"):
        os.makedirs(os.path.join(V, d), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    replay = os.path.join(V, "replay", pid + ".json")
    if os.path.exists(replay):
        os.unlink(replay)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hb = ex.submit(build_harness, cfg["search"]) if cfg.get("search") else None
        ok, er = build_kx()
        futs = []
        if ok:
            futs = [ex.submit(verify_unit, u) for u in cfg.get("units", [])]
        kres = []
        res = [f.result() for f in futs]
        for k in cfg.get("kani", []):
            kres.append(verify_kani(k["crate"], k["harnesses"]))
        binary, berr = hb.result() if hb else (None, "")
    res += kres
    if not ok:
        res.append({"unit": "kx", "status": "undecided", "reason": "kx did not build: " + er[-500:], "verified": 0,
                    "errors": 0, "functions": [], "trusted": [], "smt_ms": 0, "failed": [], "canaries": 0,
                    "output": "", "rewrites": []})

    all_proved = bool(res) and all(r["status"] == "proved" for r in res)
    failed = [r for r in res if r["status"] == "failed"]
    undecided = [r for r in res if r["status"] == "undecided"]
    for r in res:
        log("unit %s: %s (%d verified, %d errors, %d canaries refuted)%s" %
            (r["unit"], r["status"], r["verified"], r["errors"], r["canaries"], " -- " + r["reason"] if r["reason"] else ""))

    ms = {"quick": 8000, "thorough": 240000}[TIER] if all_proved else {"quick": 90000, "thorough": 400000}[TIER]
    if all_proved is False and not res:
        ms = {"quick": 30000, "thorough": 300000}[TIER]
    s = None
    if binary:
        s = search(binary, pid, ms, replay)
    elif hb:
        log("search: harness did not build: " + berr[-800:])

    violations, lines = 0, []
    if s and s["witness"]:
        violations = 1
        log("search: " + s["witness"])
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
        if failed:
            try:
                d = json.load(open(replay))
                d["failed_obligations"] = [{"unit": r["unit"], "functions": r["failed"], "reason": r["reason"]} for r in failed]
                json.dump(d, open(replay, "w"), indent=1)
            except Exception:
                pass
    elif failed:
        violations = 1
        with open(replay, "w") as f:
            json.dump({"property": pid, "failed_obligations": [
                {"unit": r["unit"], "functions": r["failed"], "reason": r["reason"], "verifier_output": r["output"]}
                for r in failed], "search": (s or {}).get("result")}, f, indent=1)
        for r in failed:
            log("failed obligation in %s: %s: %s" % (r["unit"], ", ".join(r["failed"]), r["reason"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))

    level = cfg.get("level", "proof")
    if level == "proof" and not all_proved:
        level = "exploration"
    obligations = sum(r["verified"] + r["errors"] for r in res)
    cov = {
        "obligations": obligations,
        "discharged": sum(r["verified"] for r in res),
        "checker_cmd": "verus 0.2026.09.13 on build/gen/{%s}.rs, extracted from %s by kx on this run%s" % (
            ",".join(cfg.get("units", [])), REPO, "; cargo kani 0.68" if cfg.get("kani") else ""),
        "trusted_base": sorted({t for r in res for t in r["trusted"]}) + [
            "Verus and Z3; rustc; kx's extraction (rewrites listed under extraction_rewrites)"],
        "functions_under_contract": [f for r in res for f in r["functions"]],
        "units": [{k: r[k] for k in ("unit", "status", "verified", "errors", "canaries", "smt_ms", "reason")} for r in res],
        "solver_time_ms": sum(r["smt_ms"] for r in res),
        "extraction_rewrites": sorted({w for r in res for w in r["rewrites"]}),
        "not_proved": cfg.get("bounded", []),
        "rule": "search cases are generated around the boundaries named in the contract and at random from the seed; a case is counted once per distinct input",
        "evaluations": (s or {}).get("result", {}).get("evaluations", 0) if s and s["result"] else 0,
        "distinct_nontrivial": (s or {}).get("result", {}).get("distinct_nontrivial", 0) if s and s["result"] else 0,
        "samples": (s["result"]["samples"] if s and s["result"] else []) or ["proof obligations of " + ", ".join(cfg.get("units", []))],
    }
    if level == "exploration" and cfg.get("level", "proof") == "proof":
        cov["explanation"] = "the proof did not go through on this tree (see units); the bounded search over the real code stood in for it"
    elif cfg.get("explanation"):
        cov["explanation"] = cfg["explanation"]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in (s["known"] if s else []):
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    if undecided and not violations:
        log("note: undecided units: the bounded search stood in for them (%d cases, none failing)" % cov["evaluations"])
    for l in lines:
        log(l)
    log("%s: %s in %.1f s" % (pid, "violated" if violations else "held", time.time() - t0))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:  # a defect of the check itself is not a verdict about the code
        import traceback
        traceback.print_exc()
        print("check error: no verdict")
        sys.exit(2)
