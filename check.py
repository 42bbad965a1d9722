#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of the code in /repo.

1. extract the functions under contract from /repo (vx), join them with the contracts, have Verus discharge
   every obligation;  2. run the executable form of the same contract on the real crates (vh): the bounded
   stand-in where a function is outside the verifier's reach, and the search for a concrete input when an
   obligation fails."""
import collections, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DANDY_REPO", "/repo")
B = os.path.join(V, ".build")
sys.path.insert(0, V)
from units import PROPS  # noqa: E402

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print("ERROR " + msg)
    sys.exit(2)

# ------------------------------------------------------------------ building
def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e

def build_vx():
    r = sh(["cargo", "build", "--release", "--offline", "--manifest-path", f"{V}/extract/Cargo.toml"], env=env(CARGO_TARGET_DIR=f"{B}/extract"))
    return (r.returncode == 0, r.stdout, f"{B}/extract/release/vx")

def build_vh():
    r = sh(["cargo", "build", "--offline", "--manifest-path", f"{V}/harness/Cargo.toml"], env=env(CARGO_TARGET_DIR=f"{B}/harness"))
    return (r.returncode == 0, r.stdout, f"{B}/harness/debug/vh")

def build_cli():
    r = sh(["cargo", "build", "--offline", "-p", "dandy-cli", "--manifest-path", f"{REPO}/Cargo.toml"], env=env(CARGO_TARGET_DIR=f"{B}/cli"))
    return (r.returncode == 0, r.stdout, f"{B}/cli/debug/dandy-cli")

# ------------------------------------------------------------------ proof
OBLIGATION = re.compile(r"postcondition|precondition|invariant|assertion failed|assert.* failed|overflow|underflow|decreases|termination|unreachable|recommendation|requires not|could not prove|division by zero|bit shift|index")
LIMIT = re.compile(r"rlimit|[Rr]esource limit|timed? ?out|while loop: .*limit")

def load_map(p):
    m = []
    for l in open(p):
        f = l.rstrip("\n").split("\t")
        m.append((int(f[1]), int(f[2]), f[0], f[3]))
    return m

def where(m, line):
    for a, b, k, n in m:
        if a <= line <= b:
            return k, n
    return "RAW", "?"

def parse_errors(text, src_lines, m):
    """Verus diagnostics -> (failed obligations, resource limits, other errors)"""
    fails, limits, other = [], [], []
    for blk in re.split(r"(?m)^(?=error|warning|note: (?!automatically))", text):
        if not blk.startswith("error"):
            continue
        head = blk.split("\n", 1)[0]
        if "aborting due to" in head or "could not compile" in head:
            continue
        mm = re.search(r"--> [^\n:]*:(\d+):(\d+)", blk)
        line = int(mm.group(1)) if mm else 0
        kind, name = where(m, line)
        # the clause that failed is the labelled span when there is one
        lab = re.findall(r"(?m)^\s*(\d+)\s*\|.*\n\s*\|\s*[-^]+ failed (?:this|precondition)[^\n]*", blk)
        cl = int(lab[0]) if lab else line
        clause = src_lines[cl - 1].strip() if 0 < cl <= len(src_lines) else ""
        rec = {"function": name, "kind": head.split(":", 1)[-1].strip(), "clause": clause, "line": line, "text": blk.strip()}
        if re.match(r"error\[E\d+\]", head):
            other.append(rec)
        elif LIMIT.search(head):
            limits.append(rec)
        elif OBLIGATION.search(head):
            fails.append(rec)
        else:
            other.append(rec)
    return fails, limits, other

def verus(path, cwd, extra=()):
    t = time.time()
    r = subprocess.run(["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", "40", *extra, path],
                       cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        j = {}
    return r, j, time.time() - t

def trusted(path):
    """what is assumed, not proved, in the verified text: a mechanical scan"""
    s = re.sub(r"/\*@imported\*/ #\[verifier::external_body\]", "", open(path).read())
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:struct|fn|proof fn|broadcast axiom fn)\s+(\w+)", s):
        out.append("external_body " + m.group(1))
    for m in re.finditer(r"(?:broadcast )?axiom fn (\w+)", s):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", s):
        out.append("uninterpreted " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", s):
        out.append(m.group(1) + " at line %d" % (s.count("\n", 0, m.start()) + 1))
    for m in re.finditer(r"#\[verifier::exec_allows_no_decreases_clause\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?fn (\w+)", s):
        pass
    return sorted(set(out))

def prove(pid, spec, vx, tmp):
    """-> dict(status = discharged | failed | incomplete, ...).  The units of a property may be split in groups:
    each group is one run of the verifier, `use:UNIT` gives a group the contracts (not the bodies) of a unit that
    another group proves; the imports are acyclic (units.py), so that the results compose."""
    groups = spec["groups"]
    res = [None] * len(groups)
    sem = threading.Semaphore(7)
    def one(i):
        with sem:
            try:
                res[i] = prove_group(f"{pid}_{i}" if len(groups) > 1 else pid, groups[i], spec, vx, tmp)
            except Exception as e:
                res[i] = {"status": "incomplete", "why": f"checker exception {e!r}"}
    th = [threading.Thread(target=one, args=(i,)) for i in range(len(groups))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    d = {"functions": [f for r in res for f in r.get("functions", [])], "wall": max(r.get("wall", 0) for r in res)}
    for k in ("verified", "errors", "smt_ms"):
        d[k] = sum(r.get(k, 0) for r in res)
    # what every group verifies again (the prelude) counts once
    count = {}
    for r in res:
        for n, c in r.get("names", {}).items():
            count[n] = max(count.get(n, 0), c)
    if len(res) > 1:
        d["verified"] = min(d["verified"], sum(count.values()))
    d["fails"] = [f for r in res for f in r.get("fails", [])]
    d["trusted"] = sorted({x for r in res for x in r.get("trusted", [])})
    d["slowest"] = sorted([x for r in res for x in r.get("slowest", [])], key=lambda x: -x[1])[:5]
    d["out"] = "\n".join(r.get("out", "") for r in res)
    inc = [r["why"] for r in res if r["status"] == "incomplete"]
    # a property whose contracts say more than the property: only the clauses (or functions) that express it raise an alarm
    other = []
    if spec.get("clauses") or spec.get("sites"):
        other = [f for f in d["fails"] if not re.search(spec.get("clauses") or "", f["clause"]) or not re.search(spec.get("sites") or "", f["function"])]
        d["fails"] = [f for f in d["fails"] if f not in other]
    if d["fails"]:
        d["status"] = "failed"
    elif other:
        d.update(status="incomplete", why="obligations that are not about this property: " + "; ".join(f"{x['function']}: {x['kind']}: {x['clause']}" for x in other[:5]))
    elif inc:
        d.update(status="incomplete", why="; ".join(inc))
    else:
        seen = {n for r in res for n in r["seen"]}
        missing = [t for t in spec["theorems"] if t.split("::")[-1] not in seen]
        if missing:
            d.update(status="incomplete", why="no obligation was generated for " + ", ".join(missing))
        else:
            d["status"] = "discharged"
            d["vacuity"] = f"{len(d['functions'])} of {len(d['functions'])} functions reachable under their preconditions"
    return d

def prove_group(tag, group, spec, vx, tmp):
    units = ["prelude"] + group + ["postlude"]
    os.makedirs(f"{tmp}/{tag}", exist_ok=True)
    # the file's name is the crate's name, which the solver's search depends on: the same for every group
    out, mp = f"{tmp}/{tag}/out.rs", f"{tmp}/{tag}.map"
    r = sh([vx, REPO, out, mp] + [(f"use:{V}/contracts/{u[4:]}.vc" if u.startswith("use:") else f"{V}/contracts/{u}.vc") for u in units])
    if r.returncode != 0:
        return {"status": "incomplete", "why": "extraction: " + r.stdout.strip()[-1500:]}
    src = open(out).read().split("\n")
    m = load_map(mp)
    fns = [n for _, _, k, n in m if k == "FN"]
    try:
        r, j, wall = verus(out, tmp)
    except subprocess.TimeoutExpired:
        return {"status": "incomplete", "why": "the verifier did not finish in 700 s", "functions": fns}
    res = j.get("verification-results", {})
    fails, limits, other = parse_errors(r.stderr, src, m)
    # what the solver did not discharge it may discharge in another order of search: an obligation counts as
    # discharged when one run discharges it
    for alt in ("alt", "q"):
        if other or not (fails or limits):
            break
        shutil.copy(out, f"{tmp}/{tag}/{alt}.rs")
        try:
            r2, j2, w2 = verus(f"{tmp}/{tag}/{alt}.rs", tmp)
        except subprocess.TimeoutExpired:
            break
        f2, l2, o2 = parse_errors(r2.stderr, src, m)
        if o2 or not j2.get("verification-results"):
            break
        wall += w2
        still = {x["function"] for x in f2 + l2}
        fails = [x for x in fails if x["function"] in still]
        limits = [x for x in limits if x["function"] in still]
        if not (fails or limits):
            r, j = r2, j2
            if f2 or l2:
                # no single run passes, every function passes in some run
                res = dict(j.get("verification-results", {}), success=True)
                res["verified"] = res.get("verified", 0) + res.get("errors", 0)
                res["errors"] = 0
                j["verification-results"] = res
        res = j.get("verification-results", {})
    smt = j.get("times-ms", {}).get("smt", {})
    bd = [f for mod in smt.get("smt-run-module-times", []) for f in mod.get("function-breakdown", [])]
    d = {"functions": fns, "wall": wall, "verified": res.get("verified", 0), "errors": res.get("errors", 0),
         "smt_ms": smt.get("smt-run", 0), "fails": fails, "trusted": trusted(out), "names": collections.Counter(re.sub(r"&%\d+|^\w+::", "", f["function"]) for f in bd if f.get("success")), "seen": {f["function"].split("::")[-1] for f in bd},
         "slowest": [(f["function"], f["time"]) for f in sorted(bd, key=lambda f: -f["time"])[:5]], "out": r.stderr}
    if other or res.get("encountered-vir-error") or (not res.get("success") and not fails and not limits):
        d.update(status="incomplete", why="the extracted text is outside the verifier's subset: " + (other[0]["text"][:900] if other else r.stderr[-900:]))
    elif fails:
        d["status"] = "failed"
    elif limits:
        d.update(status="incomplete", why="resource limit in " + ", ".join(x["function"] for x in limits))
    elif res.get("success") and res.get("verified", 0) > 0:
        d["status"] = "discharged"
        vac = vacuity(out, m, tmp, tag)
        if vac:
            d.update(status="incomplete", why="vacuous precondition: " + ", ".join(vac))
    else:
        d.update(status="incomplete", why="no verdict: " + r.stderr[-900:])
    return d

def vacuity(out, m, tmp, pid):
    """assert(false) right after every precondition must fail"""
    s = open(out).read()
    p = f"{tmp}/{pid}/probe.rs"
    want = {where(m, i + 1)[1]: i + 1 for i, l in enumerate(s.split("\n")) if "/*@body*/" in l}
    def probe(text, want):
        open(p, "w").write(text)
        r, j, _ = verus(p, tmp)
        got = {int(x) for x in re.findall(r"error: assertion failed\n\s*--> [^\n:]*:(\d+):", r.stderr)}
        return {n: l for n, l in want.items() if l not in got}
    left = probe(s.replace("/*@body*/", "proof { assert(false); }"), want)
    if left:
        # large functions: without the rest of the body, on the same line
        lines = s.split("\n")
        for n, l in left.items():
            at = sum(len(x) + 1 for x in lines[:l - 1]) + lines[l - 1].index("/*@body*/")
            end = body_end(s, at)
            s = s[:at] + "proof { assert(false); } unprobed_()" + "\n" * s[at:end].count("\n") + s[end:]
        s = s.replace("verus! {", "verus! {#[verifier::external_body] pub fn unprobed_<T>() -> T { unimplemented!() }", 1)
        left = probe(s, left)
    return list(left)

def body_end(s, i):
    """the closing brace of the block in which i is"""
    d = 0
    tok = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\\n]|\\[^\n]+?)'|[{}]", re.S)
    for x in tok.finditer(s, i):
        if x[0] == "{":
            d += 1
        elif x[0] == "}":
            if d == 0:
                return x.start()
            d -= 1
    raise ValueError

# ------------------------------------------------------------------ concrete runs
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(pid, vh, cli, seed, tier, rounds, budget, tmp, tag=""):
    o = f"{tmp}/{pid}{tag}.json"
    kn = f"{tmp}/known.tsv"
    sc = f"{tmp}/scratch{tag}"
    os.makedirs(sc, exist_ok=True)
    e = dict(os.environ, VH_CLI=cli, VH_SCRATCH=sc, VH_ROUNDS=str(rounds))
    t = time.time()
    def go(trace):
        if os.path.exists(o):
            os.remove(o)
        try:
            return subprocess.run([vh, pid, str(seed), tier, str(budget), o, trace, kn], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  text=True, errors="replace", timeout=budget + 300, preexec_fn=limits, cwd=sc)
        except subprocess.TimeoutExpired:
            return None
    r = go("")
    if r is not None and r.returncode not in (0, 3):
        # the code under test took the process down: find the case
        tr = f"{tmp}/trace{tag}"
        r2 = go(tr)
        if r2 is not None and r2.returncode in (0, 3):
            r = r2
        elif os.path.exists(tr):
            return {"status": "violation", "message": "the process ended (%s) in the middle of:\n%s\n%s" % (
                r2.returncode if r2 else "timeout", open(tr, errors="replace").read(), (r.stdout or "")[-600:]), "evaluations": 0, "distinct": 0, "samples": [], "phases": {}, "findings": []}
    if r is None or r.returncode not in (0, 3) or not os.path.exists(o):
        return {"status": "error", "message": "harness: " + (r.stdout[-1500:] if r else "no answer in time")}
    d = json.load(open(o))
    d["wall"] = time.time() - t
    return d

def known(pid, tmp):
    n = []
    for l in open(f"{V}/known-findings.txt"):
        if l.startswith("known:"):
            f = [x.strip() for x in l[6:].split("|", 1)]
            prop = f[0].split("=")[1]
            pat, what = f[1].rsplit(" | ", 1)
            n.append((prop, pat.strip(), what.strip()))
    with open(f"{tmp}/known.tsv", "w") as k:
        for x in n:
            k.write("\t".join(x) + "\n")

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    tmp = f"{B}/run_{pid}_{os.getpid()}"
    os.makedirs(tmp)
    try:
        rc = run(pid, spec, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(pid, spec, tier, seed, tmp, t0):
    known(pid, tmp)
    res = {}
    jobs = {"vh": build_vh}
    if spec["groups"]:
        jobs["vx"] = build_vx
    if pid == "C19":
        jobs["cli"] = build_cli
    # build, prove and run concurrently
    def proofjob():
        ok, log, path = build_vx()
        if not ok:
            res["proof"] = {"status": "error", "why": "the extractor does not build: " + log[-1500:]}
            return
        try:
            res["proof"] = prove(pid, spec, path, tmp)
        except Exception as e:
            res["proof"] = {"status": "incomplete", "why": f"checker exception {e!r}"}
    def runjob():
        ok, log, vh = build_vh()
        if not ok:
            res["run"] = {"status": "error", "message": "the harness does not build against /repo:\n" + log[-3000:]}
            return
        cli = ""
        if pid == "C19":
            ok, log, cli = build_cli()
            if not ok:
                res["run"] = {"status": "error", "message": "dandy-cli does not build:\n" + log[-3000:]}
                return
        res["vh"], res["cli"] = vh, cli
        rounds, budget = (spec.get("rounds", 8), 60) if tier == "quick" else (1000, 420)
        res["run"] = harness(pid, vh, cli, seed, tier, rounds, budget, tmp)
    th = [threading.Thread(target=runjob)]
    if spec["groups"]:
        th.append(threading.Thread(target=proofjob))
    for t in th:
        t.start()
    for t in th:
        t.join()
    h = res["run"]
    p = res.get("proof")
    if h["status"] == "error":
        die(h["message"])
    if p and p["status"] == "error":
        die(p["why"])
    # a failed obligation without a failing input yet: look harder
    if p and p["status"] == "failed" and h["status"] == "ok" and tier == "quick":
        h2 = harness(pid, res["vh"], res["cli"], seed + 1, "thorough", 50, 150, tmp, "b")
        if h2["status"] == "violation":
            h = h2
    for f in h.get("findings", []):
        print(f"KNOWN-FINDING: property={pid} {f}")
    replay = f"{V}/evidence/{pid}.replay.txt"
    if os.path.exists(replay):
        os.remove(replay)
    viol = None
    if h["status"] == "violation":
        viol = f"VIOLATION property={pid} replay={replay}"
        txt = ["property " + pid, "", "failing input on the real code:", h["message"], ""]
        if p and p.get("fails"):
            txt += ["failed obligations:"] + [f"  {x['function']}: {x['kind']}: {x['clause']}" for x in p["fails"]] + ["", "verifier output:", p["out"][-20000:]]
        elif p:
            txt += ["proof: " + p["status"] + " " + p.get("why", "")]
        open(replay, "w").write("\n".join(txt) + "\n")
        print("".join(c if c == "\n" or c.isprintable() else c.encode("unicode_escape").decode() for c in h["message"][:3000]))
    elif p and p["status"] == "failed":
        viol = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
        txt = ["property " + pid, "", "obligations that are discharged on the original code and fail on this code:"]
        txt += [f"  {x['function']}: {x['kind']}: {x['clause']}" for x in p["fails"]]
        txt += ["", f"no failing input among {h['evaluations']} concrete cases", "", "verifier output:", p["out"][-40000:]]
        open(replay, "w").write("\n".join(txt) + "\n")
        for x in p["fails"]:
            print(f"FAILED OBLIGATION {x['function']}: {x['kind']}: {x['clause']}")
    proved = bool(p) and p["status"] == "discharged"
    if p and not proved and p["status"] == "incomplete":
        print("PROOF-INCOMPLETE property=%s (only the bounded stand-in decides this run): %s" % (pid, p["why"]))
    claim_proof = spec["level"] == "proof"
    cov = {"evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct", 0),
           "rule": spec["rule"], "samples": h.get("samples", [])[:3] or ["(stopped at the violation)"],
           "phases": h.get("phases", {}), "bounded_stand_in": spec["bounded"], "bounded_wall_s": round(h.get("wall", 0), 2)}
    if p:
        n = p.get("verified", 0) + p.get("errors", 0)
        cov.update({
            "obligations": n, "discharged": p.get("verified", 0),
            "checker_cmd": "; ".join("vx /repo out.rs out.map " + " ".join(["prelude.vc"] + [u + ".vc" for u in g] + ["postlude.vc"]) + " && verus out.rs" for g in spec["groups"]),
            "back_end": "Verus 0.2026.09.13 / Z3", "proof_status": p["status"] + (": " + p["why"] if p.get("why") else ""),
            "functions_under_contract": p.get("functions", []), "solver_ms": p.get("smt_ms", 0), "verifier_wall_s": round(p.get("wall", 0), 2),
            "slowest_functions_ms": p.get("slowest", []), "vacuity": p.get("vacuity", ""),
            "trusted_base": p.get("trusted", []) + ["Verus and Z3", "the extractor vx (see DESIGN.md for what it rewrites)"],
            "failed_obligations": [f"{x['function']}: {x['kind']}: {x['clause']}" for x in p.get("fails", [])]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if (claim_proof and proved) else ("exploration" if not claim_proof or not proved else "proof"),
          "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    s = f"{pid}: "
    if p:
        s += f"proof {p['status']} ({p.get('verified', 0)} obligations discharged, {p.get('errors', 0)} not, {len(p.get('functions', []))} functions under contract); "
    s += f"concrete runs {h['status']} ({h.get('evaluations', 0)} evaluations); {time.time() - t0:.1f} s"
    print(s)
    if viol:
        print(viol)
        return 1
    return 0

if __name__ == "__main__":
    main()
