#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property on /repo's current tree.

1. extract every module under contract from /repo/src (tools/vx.py), prove every obligation with Verus;
2. run the property's executable statement against the real crate (bounded stand-in for what is
   outside the verifier's reach, and the search for a failing input when an obligation fails).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.
"""
import json, os, re, subprocess, sys, threading, time, fnmatch, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vx
import props

REPO = vx.REPO
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
SPEC = os.path.join(HERE, "contracts", "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode("utf8", "replace"), (t.stderr or b"").decode("utf8", "replace")


# --- proof ---------------------------------------------------------------------

def modules():
    return sorted(f[:-3] for f in os.listdir(vx.CONTRACTS) if f.endswith(".rs"))


def specs():
    a = [os.path.join(SPEC, "vx.rs")]
    return a + sorted(f for f in glob.glob(os.path.join(SPEC, "*.rs")) if f not in a)


def run_verus(path, extra=(), timeout=420):
    cmd = ["verus", path, "--crate-type=lib", "--num-threads", "8", "--triggers-mode", "silent",
           "--multiple-errors", "4", "--output-json", "--time-expanded"] + list(extra) + ["--", "--error-format=json"]
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout, cwd=os.path.dirname(path))
    res = {"rc": rc, "cmd": " ".join(cmd), "wall": time.time() - t, "errors": [], "verified": 0, "failed": 0, "vir": False, "raw": err}
    for l in err.splitlines():
        if not l.startswith("{"):
            if "panicked" in l:
                res["vir"] = True
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            res["errors"].append({"message": d["message"], "code": (d.get("code") or {}).get("code"),
                                  "spans": [(s["line_start"], s["line_end"], s["is_primary"], s.get("label"),
                                             " ".join(x["text"].strip() for x in s.get("text", [])[:3])) for s in d["spans"]],
                                  "rendered": d.get("rendered", "")})
    try:
        j = json.loads(out)
        v = j["verification-results"]
        res["verified"], res["failed"] = v.get("verified", 0), v.get("errors", 0)
        # nothing verified at all: the text was not accepted (a syntax error, for example)
        res["vir"] = res["vir"] or v.get("encountered-vir-error", False) or not v.get("verified")
        res["functions"] = []

        def walk(o):
            if isinstance(o, dict):
                if "function" in o and "success" in o:
                    res["functions"].append(o)
                for x in o.values():
                    walk(x)
            elif isinstance(o, list):
                for x in o:
                    walk(x)
        walk(j.get("times-ms", {}))
        sm = j.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = sm.get("total") or sum(f.get("time", 0) for f in res["functions"])
    except (ValueError, KeyError):
        res["vir"] = True
    return res


def top_modules(text):
    """The modules at the top of the extracted crate (None if that is not clear)."""
    t = re.sub(r"//[^\n]*|\"(?:\\\\.|[^\"\\\\])*\"|'(?:\\\\[^']+|[^\\\\'])'", " ", text)
    depth, mods = 0, []
    for m in re.finditer(r"\bmod\s+(\w+)\s*\{|[{}]", t):
        if m.group(0) == "}":
            depth -= 1
        else:
            if m.group(1) and depth == 0:
                mods.append(m.group(1))
            depth += 1
    return mods if depth == 0 and len(mods) == len(set(mods)) else None


# One function is much the longest to verify, and takes a third of the time with another case split heuristic.
APART = {"compress": ["--smt-option", "smt.case_split=1"]}


def verify(path, text, timeout):
    """All modules of the crate, in parts that together are everything."""
    mods = top_modules(text)
    if not mods or not set(APART) < set(mods):
        return run_verus(path, timeout=timeout)
    parts = [[x for m in mods if m not in APART for x in ("--verify-module", m)]]   # nothing is outside the modules
    parts += [["--verify-module", m] + o for m, o in APART.items()]
    res = [None] * len(parts)

    def go(i):
        res[i] = run_verus(path, parts[i], timeout)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(parts))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for x in res:
        if x["vir"] and x["rc"] != 124:
            return x
    r = dict(res[0])
    for x in res[1:]:
        r["rc"] = 124 if 124 in (r["rc"], x["rc"]) else max(r["rc"], x["rc"])
        r["cmd"] += " && " + x["cmd"]
        r["wall"] = max(r["wall"], x["wall"])
        r["errors"] = r["errors"] + x["errors"]
        r["verified"], r["failed"] = r["verified"] + x["verified"], r["failed"] + x["failed"]
        r["vir"] = r["vir"] or x["vir"]
        r["raw"] += x["raw"]
        r["functions"] = r.get("functions", []) + x.get("functions", [])
        r["smt_ms"] = r.get("smt_ms", 0) + x.get("smt_ms", 0)
    return r


VERIF_MSG = re.compile(r"precondition not satisfied|postcondition not satisfied|invariant not satisfied|assertion failed|"
                       r"overflow|underflow|decreases not satisfied|termination|index out of bounds|possible division by zero|"
                       r"requires not satisfied|recommendation|resource limit|rlimit|cannot show|might not|"
                       r"unable to prove|forall|constant evaluation|out of range|must have a decreases|bit shift|expression simplifies", re.I)


def prove():
    """Extract and verify. Functions Verus cannot take are stubbed (contract kept, body undecided)."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "proof")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "out.rs")
    stub, log, res = set(), [], None
    r = {"ok": False, "stub": [], "failures": [], "log": log, "report": None, "verus": None, "reason": None}
    t0 = time.time()
    for rnd in range(8):
        try:
            text, rep, lmap = vx.extract(modules(), path, specs(), stub)
        except Exception as e:          # a construct the extractor does not know
            r["reason"] = "extraction failed: %s: %s" % (type(e).__name__, e)
            return r
        r["report"], r["text"] = rep, text
        res = verify(path, text, max(60, 480 - (time.time() - t0)))
        r["verus"] = res
        where = lambda e: next((lmap[l][0] for l, _, p, _, _ in sorted(e["spans"], key=lambda s: not s[2]) if l in lmap), None)
        if not res["vir"]:
            break
        # translation errors: leave out the bodies they are in
        bad = {where(e) for e in res["errors"]} - {None}
        fns = {b for b in bad if not b.startswith("spec::") and not b.endswith("(ghost)")}
        log.append({"round": rnd, "stubbed": sorted(fns - stub), "errors": [e["message"] for e in res["errors"]][:6]})
        if not fns - stub or time.time() - t0 > 300:
            r["reason"] = "not accepted by the verifier front end: " + "; ".join(e["message"] for e in res["errors"][:3])
            r["stub"] = sorted(stub)
            return r
        stub |= fns
    r["stub"] = sorted(stub)
    if res["rc"] == 124:
        r["reason"] = "verifier timed out"
        return r
    for e in res["errors"]:
        r["failures"].append({"function": where(e) or "?", "message": e["message"],
                              "clause": next((s[4] for s in e["spans"] if s[3] and "failed" in s[3]), None) or
                              next((s[4] for s in e["spans"] if s[2]), ""),
                              "rendered": e["rendered"]})
    if not r["failures"] and (res["failed"] or res["verified"] == 0):
        r["reason"] = "verifier gave no verdict"
        return r
    r["ok"] = not r["failures"] and not stub
    return r


def changed_items(rep):
    return {p: ops for p, ops, _ in rep.changed} if rep else {}


def definite(f, r):
    """Is the failed obligation a statement about the code, rather than about a proof that no longer fits it?"""
    rep = r["report"]
    fn = f["function"]
    if fn == "?" or "resource limit" in f["message"].lower() or "rlimit" in f["message"].lower():
        return False
    ch = changed_items(rep)
    structural = {x[0] for x in rep.lost} | {x[0] for x in rep.subst_lost} | set(rep.new) | set(rep.gone) | set(r["stub"])
    if fn in structural or any(s.startswith(fn.rsplit("::", 1)[0]) for s in rep.new):
        return False
    if fn not in ch:
        # the function itself is unchanged: something it uses by definition (a constant, a type) changed
        return bool(ch) and not structural
    n = sum(max(len(a.split()), len(b.split())) for _, a, b in ch[fn])
    loops = lambda s: sum(s.split().count(k) for k in ("for", "while", "loop"))
    if any(loops(a) != loops(b) for _, a, b in ch[fn]):
        return False
    return n <= 30


# --- bounded stand-in and search --------------------------------------------------

def build_harness(out):
    tgt = os.path.join(BUILD, "harness")
    base = ["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"), "--target-dir", tgt]
    env = {"RUSTFLAGS": "--cfg deflate_verif"}
    rc, o, e = sh(base + ["--bin", "unit"], timeout=600, env=env)
    out["unit"] = os.path.join(tgt, "release", "unit") if rc == 0 else None
    if rc:
        out["unit_log"] = e[-2000:]
    rc, o, e = sh(base + ["--bin", "api"], timeout=600, env=env)
    if rc:
        rc, o, e = sh(base + ["--bin", "api"], timeout=600, env={"RUSTFLAGS": ""})
    out["api"] = os.path.join(tgt, "release", "api") if rc == 0 else None
    if rc:
        out["log"] = e[-4000:]


def run_bin(binp, pid, seed, secs):
    outf = os.path.join(BUILD, "%s_%s_%d.json" % (os.path.basename(binp), pid, seed))
    if os.path.exists(outf):
        os.remove(outf)
    rc, o, e = sh([binp, "run", pid, str(seed), str(secs), outf], timeout=secs + 130)
    try:
        d = json.load(open(outf))
    except (OSError, ValueError):
        d = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [],
             "failure": {"seed": seed, "case": "harness process", "message": "the process ended abnormally (exit %d): %s" % (rc, (o + e)[-800:])}}
    d["bin"] = os.path.basename(binp)
    return d


def confirm(binp, pid, fail):
    """Run the failing case again on its own."""
    if fail["case"] == "harness process":
        return True
    rc, o, e = sh([binp, "replay", pid, str(fail["seed"])], timeout=150)
    return rc != 0


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    P = props.PROPS[pid]
    hb = {}
    th = threading.Thread(target=build_harness, args=(hb,))
    th.start()
    pr = prove()
    th.join()

    mine, other = [], []
    for f in pr["failures"]:
        (mine if props.concerns(pid, f["function"], f["message"], f["clause"]) else other).append(f)
    und_fns = [s for s in pr["stub"] if props.concerns(pid, s, "", "")]
    defin = [f for f in mine if definite(f, pr)]
    undecided = bool(pr["reason"]) or bool(und_fns) or (bool(mine) and not defin)

    # always: the bounded stand-in; longer when an obligation is open
    quick, deep = (6, 90) if tier == "quick" else (240, 400)
    secs = deep if (mine or undecided) else quick
    runs, viol = [], None
    hits = P.get("units", [])
    plan = []
    if hits and hb.get("unit"):
        plan.append((hb["unit"], max(5, secs // 4)))
    if hb.get("api") and P.get("api", True):
        plan.append((hb["api"], secs))
    for binp, s in plan:
        d = run_bin(binp, pid, SEED, s)
        runs.append(d)
        if d["failure"]:
            if not confirm(binp, pid, d["failure"]):
                d["unconfirmed"] = d.pop("failure")
                d["failure"] = None
                continue
            viol = (binp, d["failure"])
            break

    kf = [l for l in known() if l["property"] == pid]
    lines, code = [], 0
    rdir = os.path.join(HERE, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    if viol:
        rp = os.path.join(rdir, pid + ".json")
        json.dump({"property": pid, "replay": "%s replay %s %d" % (viol[0], pid, viol[1]["seed"]), "failure": viol[1],
                   "failed_obligations": [{k: f[k] for k in ("function", "message", "clause", "rendered")} for f in mine]},
                  open(rp, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif defin:
        rp = os.path.join(rdir, pid + ".json")
        json.dump({"property": pid, "failing_input": None,
                   "failed_obligations": [{k: f[k] for k in ("function", "message", "clause", "rendered")} for f in defin],
                   "searched": [{k: d[k] for k in ("bin", "evaluations")} for d in runs],
                   "verifier_output": pr["verus"]["raw"][-6000:]}, open(rp, "w"), indent=1)
        for f in defin:
            print("failed obligation: %s: %s [%s]" % (f["function"], f["message"], f["clause"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        code = 1
    if not hb.get("api"):
        print("note: the harness does not build against this tree:\n" + hb.get("log", ""))
    for l in kf:
        if l["kind"] == "finding":
            print("KNOWN-FINDING: property=%s %s" % (pid, l["text"]))

    write_evidence(pid, tier, P, pr, runs, mine, other, und_fns, undecided, code, time.time() - t0)
    for l in lines:
        print(l)
    if not code:
        state = "proved" if pr["ok"] else ("undecided parts, bounded check only" if undecided else "obligations of this property discharged")
        print("%s held on everything explored (%s; %d cases run) in %.0f s" % (pid, state, sum(d["evaluations"] for d in runs), time.time() - t0))
    sys.exit(code)


def known():
    r = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"(fixed|finding): property=(\w+) (.*)", l)
            if m:
                r.append({"kind": m.group(1), "property": m.group(2), "text": m.group(3)})
    return r


def trusted(text):
    """Everything in the verified text that is assumed rather than proved."""
    out = []
    L = text.split("\n")
    for i, l in enumerate(L):
        m = re.search(r"external_body|external_type_specification|assume_specification|\bassume\s*\(|\badmit\s*\(|exec_allows_no_decreases", l)
        if m:
            nxt = " ".join(x.strip() for x in L[i:i + 3])
            out.append((m.group(0) + ": " + nxt)[:160])
    return out


def write_evidence(pid, tier, P, pr, runs, mine, other, und, undecided, code, wall):
    v = pr["verus"] or {}
    fns = [f for f in v.get("functions", [])]
    rel = sorted({f["function"].replace("out::", "") for f in fns if f.get("mode:", f.get("mode")) == "exec" and
                  props.concerns(pid, f["function"].replace("out::", ""), "", "")})
    text = pr.get("text") or ""
    cov = {
        "obligations": v.get("verified", 0) + v.get("failed", 0),
        "discharged": v.get("verified", 0),
        "checker_cmd": v.get("cmd", "verus"),
        "trusted_base": props.TRUSTED + trusted(text),
        "backend": "Verus 0.2026.09.13 / Z3",
        "solver_ms": v.get("smt_ms", 0),
        "functions_under_contract_for_this_property": rel,
        "all_exec_functions_verified": sum(1 for f in fns if f.get("mode:", f.get("mode")) == "exec"),
        "lemmas_verified": sum(1 for f in fns if f.get("mode:", f.get("mode")) == "proof"),
        "clauses": {k: len(re.findall(r"\b%s\b" % k, text)) for k in ("requires", "ensures", "invariant", "decreases", "assert")},
        "proof_state": "all obligations discharged" if pr["ok"] else (pr["reason"] or "open obligations"),
        "failed_obligations": [{k: f[k] for k in ("function", "message", "clause")} for f in mine],
        "failed_obligations_of_other_properties": [{k: f[k] for k in ("function", "message")} for f in other],
        "bodies_left_out_undecided": pr["stub"],
        "changed_since_contracts_were_written": sorted(changed_items(pr["report"])) if pr["report"] else [],
        "lost_anchors": [list(x) for x in pr["report"].lost][:20] if pr["report"] else [],
        "bounded_stand_in": P.get("bounded", ""),
        "evaluations": sum(d["evaluations"] for d in runs),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in runs),
        "rule": "bounded part: cases are derived from consecutive seeds by harness/src/gen.rs; non-trivial: the case has input data",
        "samples": [s for d in runs for s in d["samples"]][:8],
        "unconfirmed": [d["unconfirmed"] for d in runs if d.get("unconfirmed")],
    }
    if not cov["samples"]:
        cov["samples"] = ["(no case run)"]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": P["level"], "coverage": cov,
          "assumptions": props.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(wall, 2), "violations": code}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
