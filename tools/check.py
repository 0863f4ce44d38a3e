#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

1. every unit of the property is assembled from /repo's current source and given to Verus
   (plus a vacuity canary per function);
2. the executable twin of the same contracts (harness/) searches for a concrete input on the
   code as built: it replays counterexamples, and stands in, bounded, for what no unit covers.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check has no answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import verus_run
from props import PROPS
from catalogue import CATALOGUE

REPO = os.environ.get("VERIF_REPO", "/repo")


def cargo_env():
    env = dict(os.environ)
    env["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + env.get("PATH", "")
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=os.path.join(VERIF, "target"))
    for k in ("FILECHECK_OPTS", "LITCHECK_TRACE", "LITCHECK_TRACE_TIMING", "LIT_FILTER", "LIT_FILTER_OUT", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build_harness(need_bin):
    """-> (ok, message). The harness crate path-depends on /repo's crates."""
    env = cargo_env()
    cmds = [["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")]]
    if need_bin:
        cmds.append(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "litcheck"])
    for i, c in enumerate(cmds):
        e = dict(env)
        if i == 0:  # the hooks of /repo are for the harness only; the binary is built as users build it
            e["RUSTFLAGS"] = "--cfg litcheck_verif"
        p = subprocess.run(c, capture_output=True, text=True, env=e)
        if p.returncode:
            return False, "\n".join(l for l in p.stderr.splitlines() if not l.startswith("   Compiling"))[-3000:]
    return True, ""


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) case=`(.*?)` (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def dictionary(prop):
    """string, character and number literals of the property's files (tests left out)"""
    out = set()
    for p in CATALOGUE:
        if p["id"] != prop:
            continue
        files = []
        for f in p["files"]:
            f = os.path.join(REPO, f)
            if os.path.isdir(f):
                files += [os.path.join(d, x) for d, _, xs in os.walk(f) for x in xs if x.endswith(".rs")]
            elif os.path.exists(f):
                files.append(f)
        for f in files:
            t = open(f, encoding="utf-8", errors="replace").read()
            t = re.split(r"\n#\[cfg\(test\)\]\s*mod ", t)[0]
            t = re.sub(r"(?m)^\s*//.*$", "", t)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"|b?\'((?:[^\'\\\n]|\\[^u]|\\u\{\w+\}|\\x\w\w))\'', t):
                x = m.group(1) if m.group(1) is not None else m.group(2)
                x = re.sub(r"\\u\{(\w+)\}", lambda k: chr(int(k.group(1).replace("_", ""), 16)), x)
                x = re.sub(r"\\x(\w\w)", lambda k: chr(int(k.group(1), 16)), x)
                x = x.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\0", "\0").replace('\\"', '"').replace("\\'", "'").replace("\\\\", "\\")
                if x and len(x) <= 24 and " {" not in x:
                    out.add("s " + "".join({"\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c if ord(c) > 31 else "\\x%02x" % ord(c)) for c in x))
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?=\D)", t):
                try:
                    out.add("n %d" % int(m.group(1).replace("_", ""), 0))
                except ValueError:
                    pass
            for m in re.finditer(r"\b([iu])(8|16|32|64)::(MAX|MIN)", t):
                b = int(m.group(2))
                out.add("n %d" % (2 ** b - 1 if m.group(1) == "u" else 2 ** (b - 1) - 1))
    return "\n".join(sorted(out)) + "\n"


def run_harness(prop, budget, seed, kn, scratch):
    kf = os.path.join(scratch, "known")
    open(kf, "w", encoding="utf-8").write("".join(k + "\n" for k, _ in kn))
    out = os.path.join(scratch, "harness.json")
    exe = os.path.join(VERIF, "target/debug/vharness")
    env = cargo_env()
    env["VH_SCRATCH"] = scratch
    env["VH_DICT"] = os.path.join(scratch, "dict")
    open(env["VH_DICT"], "w", encoding="utf-8").write(dictionary(prop))
    env["VH_LITCHECK"] = os.path.join(VERIF, "target/debug/litcheck")

    def go(extra, timeout):
        return subprocess.run([exe, "search", prop, "--budget", str(budget), "--seed", str(seed), "--out", out, "--known", kf, *extra],
                              capture_output=True, text=True, env=env, timeout=timeout, cwd=scratch)
    try:
        p = go([], budget + 420)
        if p.returncode == 0:
            return json.load(open(out)), None
        if p.returncode == 3:
            return None, "harness error: " + p.stderr[-800:]
        # the process died: find the case that kills it
        tr = os.path.join(scratch, "trace")
        p2 = go(["--trace", tr, "--threads", "1"], budget * 8 + 120)
        if p2.returncode != 0 and os.path.exists(tr):
            t = open(tr, encoding="utf-8").read()
            line = re.search(r"^case: (.*)$", t, re.M).group(1)
            det = f"the process ended with status {p2.returncode}: {p2.stderr[-300:]}"
            if line in [k for k, _ in kn]:
                det = "KNOWN " + det
            return dict(evaluations=0, distinct_nontrivial=0, skipped=0, fixed=0, wall=0, rule="", samples=[],
                        failures=[dict(line=line, detail=det, replay=t, case=[])]), None
        return None, f"harness ended with status {p.returncode}: {p.stderr[-500:]}"
    except subprocess.TimeoutExpired:
        return None, "harness timed out"


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vchk_{prop}_")
    try:
        return decide(prop, cfg, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, cfg, tier, seed, t0, scratch):
    units = cfg["units"]
    results = {}
    b = {}

    def do_build():
        b["ok"], b["msg"] = build_harness(cfg.get("bin", False))
    bt = threading.Thread(target=do_build)
    bt.start()
    sem = threading.Semaphore(3)

    def one(u):
        with sem:
            results[u] = verus_run.run_unit(u, REPO, os.path.join(scratch, u), timeout=420 if tier == "quick" else 900)
    ts = [threading.Thread(target=one, args=(u,)) for u in units]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    bt.join()
    kn = known(prop)
    har, herr = (None, "harness does not build: " + b["msg"])
    res = [results[u] for u in units]
    for r in res:  # a unit holds more than this property: failures in what belongs to the others are not its own
        if r["status"] == "failed" and "scope" in cfg:
            mine = [f for f in r["failed"] if any(re.search(x, f["function"]) for x in cfg["scope"])]
            if not mine:
                r["status"], r["reason"] = "undecided", "failed obligations of other properties: " + "; ".join(sorted({f["function"] for f in r["failed"]}))
            r["failed"] = mine
    budget = cfg.get("budget", 25) if tier == "quick" else cfg.get("thorough", 240)
    if b["ok"]:
        har, herr = run_harness(prop, budget, seed, kn, scratch)
        if har and not har["failures"] and tier == "quick" and any(r["status"] != "proved" for r in res):
            # the proof did not go through: look harder for an input
            har2, _ = run_harness(prop, 120 if any(r["status"] == "failed" for r in res) else 60, seed + 1000003, kn, scratch)
            if har2:
                for k in ("evaluations", "distinct_nontrivial", "skipped", "wall"):
                    har2[k] += har[k]
                har = har2

    for r in res:
        print(f"unit {r['unit']}: {r['status']}: {r['verified']}/{r['obligations']} obligations, {len(r['functions'])} functions of /repo under contract, "
              f"{r['smt_ms']:.0f} ms solver time{' -- ' + r['reason'] if r['reason'] else ''}")
    if har:
        print(f"search: {har['evaluations']} cases ({har['distinct_nontrivial']} distinct non-trivial) in {har['wall']:.1f} s")
    else:
        print("search:", herr)

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations, lines = [], []
    if har:
        for f in har["failures"]:
            if f["detail"].startswith("KNOWN "):
                note = dict(kn).get(f["line"], f["detail"])
                lines.append(f"KNOWN-FINDING: property={prop} {note}")
                continue
            path = os.path.join(rdir, f"{prop}-input.txt")
            txt = f["replay"] + f"\nrun: {VERIF}/target/debug/vharness replay {path}\n"
            open(path, "w", encoding="utf-8").write(txt)
            if not violations:
                violations.append((path, ""))
            print("failing input:", f["line"][:600])
            print("  ", f["detail"][:1200])
    failed = [r for r in res if r["status"] == "failed"]
    for r in failed:
        for f in r["failed"]:
            print(f"obligation failed: {f['message']} | {f['function']} | {f['clause']}")
    if failed and not violations:
        path = os.path.join(rdir, f"{prop}-obligation.txt")
        with open(path, "w", encoding="utf-8") as o:
            o.write(f"property: {prop}\n")
            for r in failed:
                o.write(f"unit: {r['unit']} (rebuild: python3 tools/verus_run.py {r['unit']})\n")
                for f in r["failed"]:
                    o.write(f"failed obligation: {f['message']}\n  function: {f['function']}\n  clause: {f['clause']}\n{f['rendered']}\n")
        violations.append((path, " no-failing-input-found"))

    # ---- evidence
    proved = [r for r in res if r["status"] == "proved"]
    all_proved = bool(res) and len(proved) == len(res)
    obligations = sum(r["obligations"] for r in res)
    discharged = sum(r["verified"] for r in res)
    trusted = ["Verus 0.2026.09.13 and its Z3, vstd specifications of core/alloc",
               "tools/rustx.py: extraction of the functions' text from /repo (rewrites listed)"]
    trusted += sorted({a for r in res for a in r["assumptions"]})
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="verus --edition=<crate edition> <unit assembled by tools/rustx.py from /repo>",
        trusted_base=trusted,
        functions_under_contract=[f["origin"] for r in res for f in r["functions"]],
        units=[dict(unit=r["unit"], status=r["status"], reason=r["reason"], verified=r["verified"], obligations=r["obligations"],
                    canaries_refuted=r.get("canaries", 0), solver_ms=round(r["smt_ms"], 1), back_end="z3 (Verus)",
                    rewrites=r["rewrites"]) for r in res],
        solver_ms=round(sum(r["smt_ms"] for r in res), 1),
        bounded=dict(note="bounded search on the code as built; never counted as proved: " + cfg.get("bounded", "replays the contracts on concrete inputs"),
                     error=herr),
    )
    if har:
        cov.update(evaluations=har["evaluations"], distinct_nontrivial=har["distinct_nontrivial"], rule=har["rule"],
                   samples=[[x[:400] for x in s] for s in har["samples"][:4]])
        cov["bounded"].update(outside_domain=har["skipped"], enumerated_first=har["fixed"], seconds=har["wall"])
    ev = dict(property=prop, tier=tier, seed=seed,
              level="proof" if all_proved else "exploration",
              coverage=cov,
              assumptions=sorted({a for r in res for a in r["assumptions"]}) + cfg.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if ev["level"] == "exploration":
        cov["explanation"] = "a unit was not accepted on this tree, so this run is the bounded search only: " + "; ".join(
            f"{r['unit']}: {r['status']} {r['reason']}" for r in res if r["status"] != "proved")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for l in lines:
        print(l)
    for path, tail in violations:
        print(f"VIOLATION property={prop} replay={path}{tail}")
    if violations:
        return 1
    if not har and not all_proved:
        print("no answer: neither the proof nor the search ran to an end")
        return 2
    if not har and cfg.get("bounded_required", False):
        print("no answer: " + herr)
        return 2
    print(f"{prop}: held on everything explored" + ("" if all_proved else " (bounded only on this tree)"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
