#!/usr/bin/env python3
"""check.py <property-id>: extraction -> Verus -> vacuity check -> replay harness -> evidence.

Deciding step: Verus accepts every obligation generated from /repo's current source.
See DESIGN.md for what the outcomes mean.
"""
import json, os, re, signal, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GEN = os.path.join(BUILD, "gen")
ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    "LANG": "C.UTF-8", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
})
RUSTFLAGS = "--cfg vp_hooks -A unexpected_cfgs -A warnings"


def sh(cmd, timeout, env=None, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # only the group this call started
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return 124, o.decode("utf8", "replace"), e.decode("utf8", "replace") + "\nTIMEOUT", time.time() - t


def build_extractor():
    e = dict(ENV); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "extract")
    rc, o, err, _ = sh(["cargo", "build", "--offline", "--locked"], 600, e, os.path.join(VERIF, "extract"))
    return rc == 0, err


def build_harness(binname):
    e = dict(ENV); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "harness"); e["RUSTFLAGS"] = RUSTFLAGS
    rc, o, err, _ = sh(["cargo", "build", "--offline", "--bin", binname], 700, e, os.path.join(VERIF, "harness"))
    return rc == 0, err


def run_harness(binname, seed, tier, out, timeout):
    if os.path.exists(out):
        os.remove(out)
    rc, o, err, w = sh([os.path.join(BUILD, "harness", "debug", binname), "--seed", str(seed), "--tier", tier, "--out", out], timeout,
                       cwd=os.path.join(VERIF, "harness"))
    if os.path.exists(out):
        try:
            r = json.load(open(out)); r["wall_s"] = w; return r
        except Exception as ex:
            return {"error": "unreadable report: %s" % ex}
    if rc in (134, 139, 136, 132, -6, -11, -4, -8):
        # stack overflow / abort inside the code under test
        return {"property": binname, "evaluations": 0, "distinct": 0, "groups": {}, "samples": [], "wall_s": w,
                "failures": [{"group": "crash", "what": "the code under test aborted the process (status %d): %s" % (rc, err[-400:])}]}
    return {"error": "harness ended with status %s: %s" % (rc, err[-400:])}


HARD = ["postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
        "arithmetic underflow/overflow", "division by zero", "decreases not satisfied", "bit shift", "unreachable",
        "failed precondition", "cannot show", "termination"]


def fn_at(src, line):
    """name of the extracted function (or lemma) around a line of the generated file"""
    for i in range(line - 1, -1, -1):
        m = re.match(r"\s*// VPFN (\S+) (\S+)", src[i])
        if m:
            return m.group(1) + " (" + m.group(2) + ")"
        if src[i].startswith("// VPEND"):
            break
    for i in range(line - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", src[i])
        if m:
            return "lemma " + m.group(1)
    return "?"


def verus(path, rlimit, timeout):
    rc, o, e, w = sh(["verus", path, "--output-json", "--time", "--multiple-errors", "4", "--rlimit", str(rlimit), "--num-threads", "4"],
                     timeout, env=dict(ENV, RUST_MIN_STACK="1000000000"), cwd=GEN)  # functions with large tables nest deeply
    js = None
    i = o.find("{")
    if i >= 0:
        try:
            js = json.loads(o[i:])
        except Exception:
            js = None
    return rc, js, o, e, w


def parse_errors(stderr, src):
    """[(message, function, line text)]"""
    out = []
    lines = stderr.splitlines()
    for i, l in enumerate(lines):
        m = re.match(r"error(?:\[\w+\])?: (.*)", l)
        if not m or l.startswith("error: aborting"):
            continue
        msg = m.group(1)
        ln = None
        for j in range(i + 1, min(i + 4, len(lines))):
            mm = re.match(r"\s*--> .*?:(\d+):\d+", lines[j])
            if mm:
                ln = int(mm.group(1)); break
        # several spans: the failing one may be printed before; the first `-->` is the primary span
        txt = src[ln - 1].strip() if ln and ln <= len(src) else ""
        out.append({"message": msg, "function": fn_at(src, ln) if ln else "?", "clause": txt})
    return out


def run_unit(unit, tier):
    """extract + verify one template"""
    tpl = os.path.join(VERIF, "specs", unit + ".vt")
    gen = os.path.join(GEN, unit + ".rs")
    rep = os.path.join(GEN, unit + ".json")
    r = {"unit": unit, "status": None, "functions": [], "errors": [], "verified": 0, "smt_s": 0.0}
    vpx = os.path.join(BUILD, "extract", "debug", "vpx")
    rc, o, e, w = sh([vpx, REPO, tpl, os.path.join(VERIF, "specs", "prelude.rs"), gen, rep], 60)
    if rc != 0:
        r["status"] = "lost"; r["reason"] = e.strip()[-2000:]
        return r
    r["functions"] = json.load(open(rep))
    src = open(gen).read().splitlines()
    rlim, limit = (60, 330) if tier == "quick" else (150, 900)
    # vacuity: `assert(false)` at the entry of every contracted function must fail (runs beside the proof)
    vac = os.path.join(GEN, unit + "_vac.rs")
    e2 = dict(ENV); e2["VPX_VACUITY"] = "1"
    vrc, _, _, _ = sh([vpx, REPO, tpl, os.path.join(VERIF, "specs", "prelude.rs"), vac, rep + ".vac"], 60, e2)
    with ThreadPoolExecutor(1) as ex:
        vf = ex.submit(verus, vac, rlim, limit) if vrc == 0 else None
        rc, js, so, se, w = verus(gen, rlim, limit)
        vres = vf.result() if vf else None
    if rc == 124:
        r["wall_s"] = w; r["output"] = se[-12000:]; r["status"] = "undecided"; r["reason"] = "the verifier did not finish within %d s" % limit
        return r
    r["wall_s"] = w
    r["output"] = (se[-12000:])
    if js is None or "verification-results" not in js:
        r["status"] = "unsupported"; r["reason"] = "Verus did not accept the extracted text: " + se[-1500:]
        return r
    vr = js["verification-results"]
    r["verified"] = vr.get("verified", 0); r["nerrors"] = vr.get("errors", 0)
    try:
        r["smt_s"] = js["times-ms"]["smt"]["total"] / 1000.0
    except Exception:
        pass
    if vr.get("encountered-vir-error") or (rc != 0 and vr.get("errors", 0) == 0):
        r["status"] = "unsupported"; r["reason"] = "Verus did not accept the extracted text: " + se[-1500:]
        return r
    errs = parse_errors(se, src)
    r["errors"] = errs
    if vr.get("errors", 0) > 0 or rc != 0:
        hard = [x for x in errs if any(h in x["message"] for h in HARD)]
        if hard:
            r["status"] = "failed"; r["errors"] = hard
        else:
            r["status"] = "undecided"; r["reason"] = "; ".join(x["message"] for x in errs)[:1500]
        return r
    if vres:
        _, js, _, se, w = vres
        r["wall_s"] = max(r["wall_s"], w)
        vsrc = open(vac).read().splitlines()
        hit = set(x["function"] for x in parse_errors(se, vsrc) if "assertion failed" in x["message"])
        want = set(f["fn"].replace("const:", "") + " (" + f["file"] + ")" for f in r["functions"])
        r["vacuous"] = sorted(want - hit)
        r["reachability_checks"] = len(want)
        if js is None or "verification-results" not in js:
            r["vacuous"] = ["(the reachability run did not work)"]
    else:
        r["vacuous"] = ["(the reachability extraction did not work)"]
    if r["vacuous"]:
        r["status"] = "undecided"; r["reason"] = "vacuity check: entry not shown reachable in " + ", ".join(r["vacuous"])
    else:
        r["status"] = "proved"
    return r


def trusted(unit):
    """every external_body / assume / admit of the generated file, by name"""
    p = os.path.join(GEN, unit + ".rs")
    if not os.path.exists(p):
        return [], []
    t = open(p).read()
    names = re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof |broadcast proof )?(?:fn|struct) (\w+)", t)
    lits = [n for n in names if n.startswith("rl_")]
    names = [n for n in names if not n.startswith("rl_")]
    bad = re.findall(r"\b(assume|admit)\s*\(", t)
    return sorted(set(names)) + (["%d float literals read as exact decimals" % len(lits)] if lits else []), bad


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == pid]


def main():
    pid = sys.argv[1]
    if pid == "setup":
        os.makedirs(GEN, exist_ok=True)
        ok, err = build_extractor()
        e = dict(ENV); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "harness"); e["RUSTFLAGS"] = RUSTFLAGS
        rc, o, err2, _ = sh(["cargo", "build", "--offline", "--bins"], 1500, e, os.path.join(VERIF, "harness"))
        print("extractor:", "ok" if ok else err[-1000:]); print("harness:", "ok" if rc == 0 else err2[-1000:])
        sys.exit(0 if ok and rc == 0 else 2)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    os.makedirs(GEN, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    t0 = time.time()
    binname = cfg.get("bin", pid.lower())
    with ThreadPoolExecutor(8) as ex:
        hlimit = 700 if tier == "quick" else 3000
        def harness():
            ok, err = build_harness(binname)
            return ok, err, run_harness(binname, seed, tier, os.path.join(GEN, pid + ".h.json"), hlimit) if ok else None
        fh = ex.submit(harness)
        ok, err = build_extractor()
        if not ok:
            print("extractor does not build:\n" + err[-3000:]); sys.exit(2)
        units = list(ex.map(lambda u: run_unit(u, tier), cfg["units"]))
        hok, herr, hrep = fh.result()
    if not hok:
        hrep = {"error": "harness does not build against the current /repo: " + herr[-1500:]}
    failed = [u for u in units if u["status"] == "failed"]
    lost = [u for u in units if u["status"] in ("lost", "unsupported", "undecided")]
    fails = hrep.get("failures", []) if hrep else []
    # an obligation fails and no failing input yet: search harder
    searched = None
    if failed and not fails and hok:
        left = max(60, 780 - (time.time() - t0))
        searched = run_harness(binname, seed + 7919, "thorough", os.path.join(GEN, pid + ".h2.json"), left)
        if "failures" in searched:
            fails = searched["failures"]
    known = known_findings(pid)
    kf, new = [], []
    for f in fails:
        m = [k for k in known if k["group"] == f["group"] and (k.get("match", "") in f["what"])]
        (kf if m else new).append((f, m))
    for k in {m[0]["what"] for f, m in kf}:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    viol = []
    if new:
        path = os.path.join(VERIF, "evidence", "replay", pid + ".json")
        json.dump({
            "property": pid,
            "failing_inputs": [f for f, _ in new],
            "how_to_replay": "VERIF_SEED=%d python3 /verif/check.py %s %s   (or: /verif/.build/harness/debug/%s --seed %d --tier %s --group <group>)" % (
                seed, pid, tier, binname, seed if searched is None else seed + 7919, tier if searched is None else "thorough"),
            "failed_obligations": [{"unit": u["unit"], "errors": u["errors"]} for u in failed],
            "verifier_output": "\n".join(u.get("output", "") for u in failed)[-20000:],
            "undecided_units": [{"unit": u["unit"], "reason": u.get("reason")} for u in lost],
        }, open(path, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif failed:
        path = os.path.join(VERIF, "evidence", "replay", pid + ".json")
        json.dump({
            "property": pid,
            "failed_obligations": [{"unit": u["unit"], "errors": u["errors"]} for u in failed],
            "verifier_output": "\n".join(u.get("output", "") for u in failed)[-20000:],
            "search": "no failing input found by the replay harness" if hok else herr[-2000:],
        }, open(path, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    # ------------------------------------------------------------ evidence
    proved = [u for u in units if u["status"] == "proved"]
    tb, bad = set(), []
    for u in units:
        a, b = trusted(u["unit"]); tb.update(a); bad += b
    all_proved = len(proved) == len(units) and units
    cov = {
        "obligations": sum(u.get("verified", 0) + (u.get("nerrors") or 0) for u in units),
        "discharged": sum(u.get("verified", 0) for u in units),
        "checker_cmd": "verus <generated>.rs --rlimit N (one file per unit: %s); back end z3 as shipped with Verus" % ", ".join(cfg["units"]),
        "trusted_base": sorted(tb),
        "assume_or_admit": len(bad),
        "functions_under_contract": [f["fn"] + " (" + f["file"] + ":" + str(f["line"]) + ")" for u in units for f in u["functions"]],
        "helpers_inlined": sorted({h for u in units for f in u["functions"] for h in f["inlined"]}),
        "extraction_rewrites": sorted({h for u in units for f in u["functions"] for h in f["rewrites"]}),
        "units": [{"unit": u["unit"], "status": u["status"], "verified": u.get("verified", 0), "smt_s": u.get("smt_s", 0), "wall_s": round(u.get("wall_s", 0), 2),
                   "reachability_checks": u.get("reachability_checks", 0), "reason": u.get("reason")} for u in units],
        "solver_time_s": round(sum(u.get("smt_s", 0) for u in units), 3),
        "bounded_stand_ins": cfg.get("bounded", []),
        "evaluations": hrep.get("evaluations", 0) if hrep else 0,
        "distinct_nontrivial": hrep.get("distinct", 0) if hrep else 0,
        "rule": "replay harness: the same contracts evaluated on the compiled code; cases per group below; distinct by input text (bounded, not counted as proved)",
        "groups": hrep.get("groups", {}) if hrep else {},
        "samples": (hrep.get("samples", []) if hrep else [])[:20],
    }
    if hrep and "error" in hrep:
        cov["harness_error"] = hrep["error"]
    if lost:
        cov["fallback"] = "bounded: units %s could not be decided by the verifier on this source (%s); the replay harness stands in for them" % (
            ", ".join(u["unit"] for u in lost), "; ".join((u.get("reason") or "")[:300] for u in lost))
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "proof" if (all_proved or failed) else "exploration",
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + [
            "machine floating point is read as exact real arithmetic in the proofs (no rounding, NaN or infinity); the replay harness runs the compiled f64 code with stated tolerances",
            "the extraction (vpx) preserves meaning; what it rewrites or drops is listed in extraction_rewrites",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for u in units:
        print("unit %-6s %-11s functions=%d verified=%d errors=%d smt=%.2fs %s" % (
            u["unit"], u["status"], len(u["functions"]), u.get("verified", 0), len(u["errors"]), u.get("smt_s", 0), (u.get("reason") or "")[:300]))
        for x in u["errors"][:6]:
            print("   failed obligation: %s in %s: %s" % (x["message"], x["function"], x["clause"][:160]))
    if hrep:
        print("harness: %s" % (hrep.get("error") or "%d evaluations, %d distinct, %d failures" % (hrep["evaluations"], hrep["distinct"], len(hrep["failures"]))))
        for f in fails[:6]:
            print("   failing input [%s] %s" % (f["group"], f["what"][:400]))
    for v in viol:
        print(v)
    if viol:
        sys.exit(1)
    if not hok and lost:
        # nothing could be decided at all
        print("neither the verifier nor the harness could decide this source"); sys.exit(2)
    sys.exit(0)


main()
