#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree (see DESIGN.md)."""
import concurrent.futures
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
import tree
import vx

REPO = os.environ.get("VX_REPO", "/repo")
T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PROP = props.P[PID]
BUILD = os.path.join(HERE, ".build")
WORK = os.path.join(BUILD, "work." + PID)
PARTS = 8

# messages of rejected proof obligations; any other error means the verifier could not take the text
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied|"
    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not prove termination|"
    r"requirement not satisfied|constructed value may fail|unable to prove|not satisfied (before|at end)|"
    r"cannot show invariant|reached unreachable|index out of bounds|possible .*overflow|recommendation not met|"
    r"bitvector|loop ensures not satisfied|may not terminate")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|spinoff")


def log(*a):
    print("[%5.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- proof

def run_verus(path, mods, extra=(), timeout=420):
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time-expanded", "--error-format=json",
           "--num-threads", "8", "--multiple-errors", "8", "--rlimit", "80"]
    for m in mods:
        cmd += ["--verify-module", m]
    cmd += list(extra)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=WORK)
    except subprocess.TimeoutExpired:
        return cmd, None, [], "verus: no answer within %d s" % timeout
    errs = []
    for ln in r.stderr.split("\n"):
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") == "error":
            errs.append(d)
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = None
    return cmd, out, errs, r.stderr


def fn_of(spans, lines):
    """The function containing a diagnostic, its span inside the function preferred to the contract it fails (which may be
    the one of a trait)."""
    for want in ((False, True), (False, False), (True, True), (True, False)):
        for s in spans:
            if ("failed this" in (s.get("label") or ""), bool(s.get("is_primary"))) != want:
                continue
            n = s["line_start"]
            best = None
            for a, b, p in lines:
                if a <= n <= b and (best is None or a > best[0]):
                    best = (a, p)
            if best:
                return best[1]
    return None


def clause_of(spans):
    """The text of the part of a contract which a diagnostic says is not satisfied."""
    some = [s for s in spans if "failed" in (s.get("label") or "")] or [s for s in spans if s.get("is_primary")]
    return " ".join(x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1] for s in some for x in s.get("text", []))


def prove():
    """Regenerate, verify, degrade what the verifier cannot take. Returns a dict."""
    base = {}
    bp = os.path.join(HERE, "overlay", "base.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    path = os.path.join(WORK, "g.rs")
    deg, res = {}, {"degraded": {}, "failed": [], "undecided": [], "limit": [], "cmd": "", "fns": [], "detail": [], "ok": False,
                    "obligations": 0, "discharged": 0, "solver_ms": 0, "rewrites": [], "dropped": [], "renamed": {}}
    mods = PROP["mods"]
    if not mods:
        return res
    for attempt in range(14):
        try:
            text, rep = vx.build(os.path.join(REPO, "src"), tree.TREE, os.path.join(HERE, "overlay"), deg, base)
        except Exception as e:          # the source cannot be taken apart by the extractor
            res["undecided"].append("extraction: %r" % (e,))
            return res
        # every run also carries one false assertion per module, which must be refused
        for m in mods:
            mark = "//@MODEND %s\n" % m
            text = text.replace(mark, "pub proof fn vx_canary() { assert(false); }\n" + mark)
        open(path, "w").write(text)
        lines = vx.fn_lines(text)
        for p, why in rep.lost:
            res["degraded"].setdefault(p, why)
        cmd, out, errs, raw = run_verus(path, mods)
        res["cmd"] = " ".join(cmd)
        if out is None and not errs:
            res["undecided"].append(raw[-500:])
            return res
        vr = (out or {}).get("verification-results", {})
        hard = []
        for e in errs:
            msg = e["message"]
            if OBLIGATION.search(msg) or LIMIT.search(msg) or msg.startswith("aborting due to"):
                continue
            hard.append(e)
        ran = "smt" in (out or {}).get("times-ms", {})
        if hard or not ran:
            again, stepped = False, set()
            for e in hard:
                f = fn_of(e["spans"], lines)
                log("cannot take:", f, e["message"][:200])
                if f in stepped:
                    continue
                if f and deg.get(f) != "gone":
                    stepped.add(f)
                    deg[f] = {None: "body", "body": "contract", "contract": "gone"}[deg.get(f)]
                    res["degraded"][f] = e["message"][:300]
                    again = True
            if again:
                continue
            res["undecided"].append("the verifier cannot take the text: " + "; ".join(e["message"][:200] for e in hard[:3]) or raw[-300:])
            return res
        break
    else:
        res["undecided"].append("too many functions out of reach")
        return res
    # what Z3 gave up on is tried once more, with another seed
    lost = sorted({fn_of(e["spans"], lines) or "" for e in errs if LIMIT.search(e["message"])} - {""})
    again = [m for m in mods if any(f.startswith(m + "::") for f in lost)]
    retried = 0
    if again:
        log("once more:", ", ".join(lost))
        _, out2, errs2, _ = run_verus(path, again, ["--smt-option", "smt.random_seed=7"], timeout=180)
        if "smt" in (out2 or {}).get("times-ms", {}):
            for f in lost:
                mine = [e for e in errs2 if fn_of(e["spans"], lines) == f]
                if any(LIMIT.search(e["message"]) for e in mine):
                    continue
                errs = [e for e in errs if fn_of(e["spans"], lines) != f] + mine
                retried += not mine
    # results
    canary = set()
    for e in errs:
        if e["message"].startswith("aborting due to"):
            continue
        f = fn_of(e["spans"], lines)
        rendered = e.get("rendered", "")
        if f is None and "vx_canary" in text.split("\n")[e["spans"][0]["line_start"] - 1] if e["spans"] else False:
            canary.add(e["spans"][0]["line_start"])
            continue
        if f is None:
            f = lemma_at(text, e["spans"][0]["line_start"]) if e["spans"] else "?"
        if PROP.get("skip") and re.search(PROP["skip"], clause_of(e["spans"])):
            log("of another property:", f, clause_of(e["spans"])[:120])
            continue
        (res["limit"] if LIMIT.search(e["message"]) else res["failed"]).append((f, e["message"], rendered))
    if len(canary) != len(mods):
        raise SystemExit("vacuity check: %d of %d false assertions refused" % (len(canary), len(mods)))
    pats = [re.compile(x) for x in PROP.get("fns", [r"."])]
    rel = [p for p in rep.fns if any(p.startswith(m + "::") for m in mods) and any(x.search(p) for x in pats)]
    res["fns"] = sorted(p for p in rel if rep.fns[p]["kind"] == "contract")
    res["auto"] = sorted(p for p in rel if rep.fns[p]["kind"] == "auto")
    res["trusted"] = {p: rep.fns[p]["trusted"] for p in rel if rep.fns[p]["kind"] == "trusted"}
    res["rewrites"] = ["%s: `%s` => `%s`" % (p, a, b) for p, a, b in rep.rewrites if p in rel or p not in rep.fns and any(p.startswith(m + "::") for m in mods)]
    res["dropped"] = ["%s (%s)" % x for x in rep.dropped]
    res["renamed"] = rep.renamed
    for mt in out["times-ms"]["smt"]["smt-run-module-times"]:
        for fb in mt["function-breakdown"]:
            if "vx_canary" in fb["function"]:
                continue
            if fb["mode:"] == "spec" and fb["time"] == 0 and fb["success"]:
                continue
            res["obligations"] += 1
            res["discharged"] += bool(fb["success"])
            res["solver_ms"] += fb["time-micros"] / 1000.0
    res["discharged"] += retried
    res["ok"] = True
    res["shapes"] = {p: rep.fns[p]["shape"] for p in rep.fns}
    res["text"] = text
    # which of the failures are verdicts about functions this property depends on
    known_fns = set(base)
    res["verdicts"] = []
    bare = {p.split("::")[-1] for p in deg if deg[p] != "body"}
    for f, msg, rendered in res["failed"] + res["limit"]:
        why = None
        if f in rep.fns:
            if not any(x.search(f) for x in pats):
                continue
            b = base.get(f)
            sh = rep.fns[f]["shape"]
            short = {p.split("::")[-1] for p in rep.fns if p not in known_fns}
            if b is None:
                why = "a function without a contract"
            elif f in rep.hints:
                why = "a proof hint lost its place: " + rep.hints[f]
            elif sh["loops"] != b["loops"]:
                why = "the loops of the function changed"
            elif set(sh["calls"]) & short - set(b["calls"]):
                why = "calls functions without a contract"
            elif set(sh["calls"]) & bare:
                why = "calls functions whose contract could not be taken"
            elif unknown_calls(sh, b, known_fns) and "precondition not satisfied" not in msg:
                why = "calls library functions which have no contract here: " + ", ".join(unknown_calls(sh, b, known_fns))
            elif b.get("bits") and sh["bits"] != b["bits"]:
                why = "its bit operations changed, on which its lemmas speak"
            elif (f, msg, rendered) in res["limit"]:
                why = "resource limit"
            elif PROP.get("kinds") and not re.search(PROP["kinds"], msg):
                why = "the contract no longer holds, but this property does not speak of results"
        else:
            why = "resource limit" if (f, msg, rendered) in res["limit"] else None
        if why:
            res["undecided"].append("%s: %s (%s)" % (f, msg, why))
        else:
            res["verdicts"].append((f, msg, rendered))
    for f, why in res["degraded"].items():
        if any(x.search(f) for x in pats):
            res["undecided"].append("%s: %s" % (f, why))
    return res


def unknown_calls(sh, b, known):
    """Functions which are called now, were not before, and are none of the crate's."""
    new = set(sh["calls"]) - set(b["calls"])
    return sorted(c for c in new if not any(p.endswith("::" + c) for p in known))


def lemma_at(text, line):
    name = "?"
    for ln in text.split("\n")[:line]:
        m = re.search(r"\bfn\s+(\w+)", ln)
        if m:
            name = m.group(1)
    return name


def assumptions(text):
    """Every assumed statement of the verified text (mechanical scan)."""
    res = []
    ls = text.split("\n")
    for i, ln in enumerate(ls):
        s = ln.strip()
        if s.startswith("//") and "ASSUMED" not in s:
            continue
        if re.search(r"\bassume\s*\(|\badmit\s*\(", s):
            res.append("assume at %d: %s" % (i + 1, s[:120]))
        m = re.search(r"axiom fn (\w+)", s)
        if m:
            res.append("axiom " + m.group(1))
        m = re.search(r"assume_specification\s*(<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", s)
        if m:
            res.append("contract of std: " + m.group(2))
        if s.startswith("#[verifier::external_body]"):
            for nx in ls[i + 1:i + 6]:
                m = re.search(r"\b(fn|struct)\s+(\w+)", nx)
                if m:
                    res.append("contract assumed: " + m.group(2))
                    break
    return sorted(set(res))


# ---------------------------------------------------------------- search (finds and replays failing inputs)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="--cfg ariadne_verif -Awarnings",
               CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
    env.setdefault("HOME", "/root")
    src = os.path.join(HERE, "harness")
    if REPO != "/repo":
        src = os.path.join(WORK, "harness")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "harness"), src)
        t = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(src, "Cargo.toml"), "w").write(t)
        env["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    progs = None
    if PID == "C17":
        bins = dict(env, CARGO_TARGET_DIR=os.path.join(WORK, "bins"))
        progs = subprocess.Popen(["cargo", "build", "--offline", "--quiet", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                                 env=bins, cwd=WORK, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env, capture_output=True, text=True)
    if progs:
        if progs.wait() == 0:
            os.environ["HX_BINS"] = os.path.join(WORK, "bins", "debug")
        else:
            log("the programs do not build")
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    binary = os.path.join(env["CARGO_TARGET_DIR"], "debug", "hx")
    mine = os.path.join(WORK, "hx")
    shutil.copy2(binary, mine)
    return mine, ""


def replay(hx, case_file, secs=30):
    try:
        r = subprocess.run([hx, "replay", PID, case_file], capture_output=True, text=True, timeout=secs, preexec_fn=limits, cwd=WORK)
    except subprocess.TimeoutExpired:
        return "does not end within %d s" % secs
    if r.returncode == 0:
        return None
    if r.returncode == 3:
        return r.stdout.strip()[6:]
    return "the process died (%d): %s" % (r.returncode, r.stderr[-300:])


def search(hx, seed, secs):
    """Returns (failure or None, stats). failure: dict(case, why)."""
    stats = {"evaluations": 0, "nontrivial": 0, "samples": [], "seconds": secs, "lost_parts": 0}
    procs = []
    d = os.path.join(WORK, "s%d" % seed)
    os.makedirs(d, exist_ok=True)
    for i in range(PARTS):
        out = open(os.path.join(d, "out.%d" % i), "w")
        procs.append((i, out, subprocess.Popen([hx, "search", PID, str(seed), str(secs), str(i), str(PARTS), d],
                                               stdout=out, stderr=subprocess.DEVNULL, preexec_fn=limits, cwd=WORK)))
    end = time.time() + secs + 40
    fails = []
    for i, out, p in procs:
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        out.close()
        js = None
        try:
            js = json.loads(open(out.name).read())
        except ValueError:
            pass
        if js:
            stats["evaluations"] += js["evaluations"]
            stats["nontrivial"] += js["nontrivial"]
            stats["samples"] += js["samples"]
            if js["failure"]:
                fails.append(dict(js["failure"], part=i))
        else:
            stats["lost_parts"] += 1
            cur = os.path.join(d, "cur.%d" % i)
            if os.path.exists(cur):
                fails.append(dict(case=open(cur, errors="replace").read(), why="search process ended with %s" % rc, part=i))
    stats["samples"] = stats["samples"][:4]
    # only failures which happen again count
    for f in sorted(fails, key=lambda f: len(f["case"])):
        cf = os.path.join(d, "case.%d" % f["part"])
        open(cf, "w").write(f["case"])
        for _ in range(3):
            why = replay(hx, cf)
            if why:
                return dict(case=f["case"], why=why), stats
        log("not reproduced:", f["why"][:300])
        stats.setdefault("not_reproduced", []).append(f["why"][:200])
    return None, stats


# ---------------------------------------------------------------- known findings

def known():
    res = []
    for ln in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"finding: property=(\w+) match=/(.*?)/ (.*)", ln.strip())
        if m:
            res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


# ---------------------------------------------------------------- main

def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    secs = {"quick": PROP.get("quick", 18), "thorough": PROP.get("thorough", 240)}[TIER]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_harness)
        fp = ex.submit(prove)
        hx, why = fb.result()
        failure, stats = (None, {})
        if hx:
            log("harness built")
            failure, stats = search(hx, SEED, secs)
            log("search", stats["evaluations"], "failure" if failure else "quiet")
        else:
            log("harness does not build:", why[-1500:])
        proof = fp.result()
    log("proof: %d of %d" % (proof["discharged"], proof["obligations"]), "undecided:", proof["undecided"][:5])
    verdicts = proof.get("verdicts", [])
    for v in verdicts:
        log("FAILED", v[0], v[1])
    # an obligation which is not discharged: look for an input which shows why
    more = None
    if hx and not failure and (verdicts or proof["undecided"]):
        failure, more = search(hx, SEED + 7919, 60 if TIER == "quick" else 240)
        log("second search", more["evaluations"], "failure" if failure else "quiet")
    kf = [k for k in known() if k[0] == PID]
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (PID, k[2]))
    if failure and any(k[1].search(failure["why"] + "\n" + failure["case"]) for k in kf):
        failure = None
    evidence(proof, stats, more, hx, failure, verdicts)
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, PID + ".txt")
    if failure:
        open(rp, "w").write(failure["case"] + "\n")
        open(rp + ".why", "w").write("property %s\nfailing input (hx replay %s FILE): %s\nwhat fails: %s\nfailed obligations:\n%s\n" % (
            PID, PID, failure["case"], failure["why"], "\n".join("%s: %s" % v[:2] for v in verdicts)))
        log("input:", failure["case"][:500], "\nwhy:", failure["why"][:1500])
        print("VIOLATION property=%s replay=%s" % (PID, rp))
        return 1
    if verdicts:
        with open(rp, "w") as f:
            f.write("property %s\nobligations which were discharged on the unchanged tree and are now refused by the verifier:\n" % PID)
            for v in verdicts:
                f.write("\n## %s: %s\n%s\n" % v)
            f.write("\ncommand: %s\n" % proof["cmd"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, rp))
        return 1
    return 0


def evidence(proof, stats, more, hx, failure, verdicts):
    ass = assumptions(proof["text"]) if proof.get("text") else []
    cov = {
        "obligations": proof["obligations"],
        "discharged": proof["discharged"],
        "checker_cmd": proof["cmd"] or "none",
        "trusted_base": ["Verus 0.2026.09.13 and its Z3 back end, rustc front end",
                         "tools/vx.py (text extraction, rules E1-E12), overlay/*.ovl (contracts)",
                         "assumed contracts of std functions and types listed under assumptions"],
        "backend": "z3 via verus",
        "solver_ms": round(proof["solver_ms"], 1),
        "functions_under_contract": proof["fns"],
        "functions_checked_without_contract": proof.get("auto", []),
        "functions_trusted": proof.get("trusted", {}),
        "rewrites": proof["rewrites"],
        "dropped_items": proof["dropped"],
        "out_of_reach_this_run": proof["undecided"],
        "failed_obligations": ["%s: %s" % v[:2] for v in verdicts],
        "vacuity": "one false assertion in each verified module is refused" if proof["ok"] else "not run",
        "search_label": "bounded: random and boundary cases replayed against the real code, never counted as proved",
    }
    ev = stats.get("evaluations", 0) + (more or {}).get("evaluations", 0)
    if hx:
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = stats.get("nontrivial", 0) + (more or {}).get("nontrivial", 0)
        cov["rule"] = PROP["rule"]
        cov["samples"] = stats.get("samples", [])
    doc = {"property": PID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
           "level": PROP.get("level", "proof"), "coverage": cov, "assumptions": ass + PROP.get("assumes", []),
           "wall_s": round(time.time() - T0, 1), "violations": int(bool(failure or verdicts))}
    json.dump(doc, open(os.path.join(HERE, "evidence", PID + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
