#!/usr/bin/env python3
"""Assemble a unit from /repo's current source, run Verus on it, classify the outcome."""
import json, os, re, subprocess, sys, time, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# kinds of failed obligation that mean "the contract of this function no longer holds".
# The others (loop invariants, ghost assertions, termination measures) fail when a proof no
# longer fits a rewritten body: they leave the function undecided.
HARD = ("postcondition not satisfied", "possible arithmetic underflow/overflow", "precondition not satisfied",
        "possible division by zero", "unable to prove assertion safe", "index out of bounds",
        "recommendation not met")
SOFT = ("invariant not satisfied", "assertion failed", "decreases not satisfied", "could not prove termination",
        "loop invariant", "assert_by", "assertion not satisfied", "loop ensures")


def run_verus(path, timeout=300, extra=("--multiple-errors", "4")):
    m = re.search(r"^// edition (\d+)", open(path).read(), re.M)
    edition = m.group(1) if m else "2024"
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    try:
        p = subprocess.run(["verus", "--edition=" + edition, path, "--output-json", "--time-expanded",
                            "--error-format=json", "--rlimit", "20", *extra],
                           capture_output=True, text=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(status="timeout", wall=time.time() - t0, diags=[], fns=[], smt_ms=0)
    diags = []
    for l in p.stderr.splitlines():
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    try:
        j = json.loads(p.stdout)
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    fns, smt = [], 0
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fns.append((f["function"], f["success"], f.get("time-micros", 0)))
            smt += f.get("time-micros", 0)
    return dict(status="ok" if vr.get("success") else ("vir" if (vr.get("encountered-vir-error") or not vr) else "errors"),
                wall=time.time() - t0, diags=diags, fns=fns, smt_ms=smt / 1000.0,
                verified=vr.get("verified", 0), errors=vr.get("errors", 0), raw=p.stderr[-6000:])


ASSUME_PATTERNS = [(r"#\[verifier::external_body\]", "external_body"), (r"\bassume_specification\b", "assume_specification"),
                   (r"\bassume\s*\(", "assume"), (r"\badmit\s*\(", "admit"), (r"\baxiom\s+fn\b", "axiom"),
                   (r"#\[verifier::external_type_specification\]", "external_type"), (r"\buninterp\s+spec\b", "uninterpreted spec")]


def scan_assumptions(text):
    out = []
    lines = text.split("\n")
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        for pat, kind in ASSUME_PATTERNS:
            if re.search(pat, code):
                ctx = " ".join(x.strip() for x in lines[n:n + 3])
                m = re.search(r"(?:fn|struct|enum|type)\s+(\w+)|assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]*)\]", ctx)
                nm = (m.group(1) or m.group(2)) if m else ctx[:60]
                note = l.split("//", 1)[1].strip() if "//" in l else ""
                out.append(f"{kind}: {nm}" + (f" ({note})" if note else ""))
    return out


def run_unit(unit, repo, workdir, do_canary=True, timeout=300):
    """-> dict(status in proved|failed|undecided, ...)"""
    path = os.path.join(VERIF, "units", unit + ".vrs")
    res = dict(unit=unit, status="undecided", reason="", failed=[], soft=[], functions=[], verified=0,
               obligations=0, assumptions=[], rewrites=[], smt_ms=0, wall=0, raw="")
    os.makedirs(workdir, exist_ok=True)
    u = rustx.Unit(path, repo)
    try:
        text = u.build()
    except rustx.ExtractError as e:
        res["reason"] = f"extraction: {e}"
        return res
    fns = u.fns
    res["functions"] = fns
    res["rewrites"] = sorted(u.rewrites)
    res["assumptions"] = scan_assumptions(text)
    out = os.path.join(workdir, unit + ".rs")
    open(out, "w").write(text)
    can_thread, can = None, {}
    if do_canary:
        ctext = rustx.Unit(path, repo).build(canary=True)
        cout = os.path.join(workdir, unit + "_canary.rs")
        open(cout, "w").write(ctext)

        def go():
            can.update(run_verus(cout, timeout, ("--multiple-errors", "0")))
        can_thread = threading.Thread(target=go)
        can_thread.start()
    r = run_verus(out, timeout)
    if can_thread:
        can_thread.join()
    res.update(smt_ms=r["smt_ms"], wall=r["wall"], raw=r.get("raw", ""), verified=r.get("verified", 0),
               obligations=r.get("verified", 0) + r.get("errors", 0), fn_results=[(f, ok) for f, ok, _ in r["fns"]])
    if r["status"] == "timeout":
        res["reason"] = "verus timed out"
        return res
    if r["status"] == "vir":
        m = [d["message"] for d in r["diags"]]
        res["reason"] = "verus does not accept the extracted text: " + "; ".join(m[:3])
        return res
    # canaries: every extracted function's entry must be reachable
    if do_canary and r["status"] == "ok" and can.get("status") == "timeout":
        res["canaries"] = "not decided in time"
    elif do_canary and r["status"] == "ok":
        hit = set()
        for d in can.get("diags", []):
            for s in d.get("spans", []):
                if s.get("is_primary"):
                    for x in s.get("text", []):
                        pass
                    hit.add(s["line_start"])
        clines = ctext.split("\n")
        # a canary that ran out of resources was not proved either: the error is put on the function's header
        for d in can.get("diags", []):
            if "rlimit" in d.get("message", "") or "Resource limit" in d.get("message", ""):
                for x in [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]:
                    nxt = next((n for n in range(x, len(clines) + 1) if re.search(r"// canary \d+$", clines[n - 1])), None)
                    if nxt:
                        hit.add(nxt)
        missing = []
        for n, l in enumerate(clines, 1):
            m = re.search(r"// canary (\d+)$", l)
            if m and n not in hit:
                missing.append(fns[int(m.group(1))]["name"])
        res["canaries"] = len(fns) - len(missing)
        if missing:
            res["reason"] = "vacuous precondition (canary verified) in: " + ", ".join(missing)
            return res
        if not fns or not res["obligations"]:
            res["reason"] = "no obligations were generated"
            return res
    if r["status"] == "ok":
        res["status"] = "proved"
        return res
    # verification errors: attribute to functions
    lines = text.split("\n")
    rlimit = False
    for d in r["diags"]:
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        locs = [s["line_start"] for s in d.get("spans", [])]
        owner = None
        for f in fns:
            if any(f["lo"] <= l <= f["hi"] for l in locs):
                owner = f
        where = owner["origin"] if owner else "lemma/unit text"
        clause = ""
        for s in d.get("spans", []):
            if s.get("label") and "failed" in s["label"]:
                clause = " ".join(x["text"].strip() for x in s.get("text", []))
        if "rlimit" in msg or "resource limit" in msg.lower():
            rlimit = True
            res["soft"].append(dict(message="rlimit exceeded", function=where, clause="", rendered=d.get("rendered", "")[:1500]))
            continue
        rec = dict(message=msg, function=where, clause=clause, rendered=d.get("rendered", "")[:1500])
        if owner and any(h in msg for h in HARD):
            res["failed"].append(rec)
        else:
            res["soft"].append(rec)
    # a function whose loop invariants / ghost steps fail as well no longer fits its proof:
    # its other failures are not attributed to the code
    soft_fns = {s["function"] for s in res["soft"]}
    hard = [f for f in res["failed"] if f["function"] not in soft_fns]
    if hard:
        res["status"] = "failed"
        res["failed"] = hard
    else:
        res["reason"] = ("rlimit exceeded: " if rlimit else "") + "proof does not fit the current text: " + "; ".join(
            f"{s['message']} in {s['function']}" for s in res["soft"][:3])
    return res


if __name__ == "__main__":
    import shutil
    wd = tempfile.mkdtemp(prefix="vu_")
    repo = os.environ.get("REPO", "/repo")
    bad = 0
    for u in sys.argv[1:]:
        r = run_unit(u, repo, os.environ.get("VWORK", wd))
        print(f"{u}: {r['status']} verified={r['verified']}/{r['obligations']} fns={len(r['functions'])} "
              f"canaries={r.get('canaries')} smt={r['smt_ms']:.0f}ms wall={r['wall']:.1f}s {r['reason']}")
        if r["status"] != "proved":
            bad = 1
            if os.environ.get("V"):
                raw = r["raw"]
                for l in raw.splitlines():
                    if l.startswith("{"):
                        try:
                            print(json.loads(l)["rendered"])
                        except Exception:
                            print(l[-800:])
                    else:
                        print(l[:500])
            for f in r["failed"]:
                print("  FAILED", f["message"], "|", f["function"], "|", f["clause"])
            for f in r["soft"]:
                print("  soft", f["message"], "|", f["function"], "|", f["rendered"][:400])
    shutil.rmtree(wd, ignore_errors=True)
    sys.exit(bad)
