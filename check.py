#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property on /repo's current tree.

1. extract the functions the property depends on from /repo (mechanical rewriting, extract/), join them with the
   contracts in contracts/, and let Verus discharge every obligation of the property's cone;
2. run the harness (bounded search against reference oracles on the real crate): the stand-in for the functions
   that have no discharged contract, and the generator of concrete counterexamples for a failed obligation.
Exit 0: held. Exit 1 + "VIOLATION property=.. replay=..": broken. Nothing else."""
import json, os, re, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from shape import skel
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOON_REPO", "/repo")
B = os.path.join(V, "build")
C = os.path.join(V, "contracts")
PROP = sys.argv[1]
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
CFG = json.load(open(os.path.join(V, "contracts/props.json")))
P = CFG["properties"][PROP]
EVD = os.path.join(V, "evidence"); RPL = os.path.join(EVD, "replays")
W = os.path.join(B, f"w_{PROP}_{os.getpid()}")
for d in (B, EVD, RPL, W): os.makedirs(d, exist_ok=True)
notes = []
def say(s): print(s, flush=True)
def left(limit=840): return limit - (time.time() - T0)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
def run(cmd, timeout, env=None, cwd=V):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(5, timeout)); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return None, o, e

# ---- proof --------------------------------------------------------------------------------------------------
REAL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|decreases not satisfied|could not prove termination|possible bit shift|unreachable|termination|failed this (pre|post)condition|may panic|constant (over|under)flow|loop (invariant|must)|fails? to")
AUX = re.compile(r"assertion failed|invariant")
GAVEUP = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|solver")
proof = {"ran": False, "verified": 0, "failed": [], "undecided": [], "functions": [], "cmd": "", "smt_ms": 0, "rules": {}, "dropped": [], "cone": []}

def extract(demoted, tag):
    out, rep = f"{W}/{tag}.rs", f"{W}/{tag}.json"
    pre = sorted(f for f in os.listdir(C) if f.endswith(".rs"))
    th = P.get("theorems_files", [])
    side = sorted("s/" + f for f in os.listdir(C + "/s") if f.endswith(".vc"))
    rc, o, e = run([f"{B}/xt/release/extract", REPO, out, rep] + [f"{C}/{f}" for f in pre + th] + [f"{C}/{f}" for f in side] + ["--"] + demoted, 120)
    if rc != 0: raise RuntimeError("extractor: " + (e or o)[-800:])
    with open(out, "a") as f: f.write("fn main(){}\n")
    return out, json.load(open(rep))

ASY = re.compile(r"(encode::async_encode|decode::async_decode|decode::feat)::")
def cone(rep, roots):
    by = {}
    for f in rep["functions"]: by.setdefault(f["key"].split("::")[-1], []).append(f)
    keys = {f["key"]: f for f in rep["functions"]}
    todo = [k for k in keys if any(k == r or (r.endswith("*") and k.startswith(r[:-1])) for r in roots)]
    miss = [r for r in roots if not r.endswith("*") and r not in keys]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        for c in keys[k]["calls"]:
            n = c.lstrip(".").split("::")[-1]
            gs = by.get(n, [])
            # nothing outside the asynchronous modules calls into them (a method name such as len is no such call)
            if not ASY.match(k): gs = [g for g in gs if not ASY.match(g["key"])]
            # a path that names a type leads to that type's function
            ty = ([""] + c.split("::"))[-2]
            if ty[:1].isupper() and ty != "Self": gs = [g for g in gs if g["key"].endswith(f"{ty}::{n}")] or gs
            for g in gs:
                # taken by contract, discharged in the checks of other properties
                if not any(g["key"].startswith(x) for x in P.get("stop", [])): todo.append(g["key"])
    return seen, miss

def trusted(text):
    t = []
    for m in re.finditer(r"#\[verifier::external_body\][^\n]*\n(?:\s*#\[[^\n]*\n)*\s*(?:pub )?(?:exec )?(?:fn|struct|const|enum) (\w+)", text): t.append(m.group(1))
    for m in re.finditer(r"axiom fn (\w+)", text): t.append("axiom " + m.group(1))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]\s*\(", text): t.append("assumed contract of " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", text): t.append("uninterpreted " + m.group(1))
    n = len(re.findall(r"\badmit\s*\(|\bassume\s*\(", text))
    if n: t.append(f"{n} assume/admit")
    return sorted(set(t))

def verify():
    rc, o, e = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/xt"], 300, cwd=f"{V}/extract")
    if rc != 0: raise RuntimeError("extractor build: " + e[-800:])
    shape = json.load(open(f"{C}/shape.json"))
    out, rep = extract([], "probe")
    con, miss = cone(rep, P["roots"])
    for m in miss: proof["undecided"].append({"function": m, "why": "not found in the current source"})
    keys = [f["key"] for f in rep["functions"]]
    outside = [k for k in keys if k not in con]
    undec = {}
    nocontract = {f["key"] for f in rep["functions"] if not f["contract"]}
    for f in rep["functions"]:
        if f["key"] not in con: continue
        if f["problems"]: undec[f["key"]] = "unsupported construct: " + "; ".join(f["problems"])[:200]
        elif f["lost"]: undec[f["key"]] = "lost anchor: " + "; ".join(f["lost"])[:200]
        elif f["key"] in shape and shape[f["key"]][:2] != [f["shape"], f["params"]]: undec[f["key"]] = "loop structure or parameters changed: contract anchors no longer apply"
    names_nc = {k.split("::")[-1]: k for k in nocontract}
    for f in rep["functions"]:
        if f["key"] in con and f["key"] not in undec and f["contract"]:
            h = [names_nc[c.lstrip(".").split("::")[-1]] for c in f["calls"] if c.lstrip(".").split("::")[-1] in names_nc and not c.startswith(".")]
            if h: undec[f["key"]] = f"calls {h[0]}, which has no contract (new helper)"
    for k in nocontract & con: undec.setdefault(k, "no contract")
    # a std function or closure the contracts have never been tried with: what fails there is not yet a broken contract
    own = {k.split("::")[-1] for k in keys}
    novel = {}
    for f in rep["functions"]:
        n = [c for c in f["calls"] if (c.startswith(".") or "::" in c) and c not in shape["_names"] and c.lstrip(".").split("::")[-1] not in own]
        if n: novel[f["key"]] = "calls " + ", ".join(sorted(set(n)))[:120]
        elif f["bare"] > shape.get(f["key"], [0, 0, 0])[2]: novel[f["key"]] = "a closure without a contract"
    # loop invariants and ghost assertions fit one way of writing a function: where its calls are other ones, or in another
    # order, a failure of these alone says that the annotation does not fit, not that the contract is broken
    kn = {k.split("::")[-1] for k in shape if not k.startswith("_")}
    moved = {f["key"] for f in rep["functions"] if f["key"] in shape and shape[f["key"]][3] != skel(f, kn)}
    if rep["problems"]: notes.append("extraction: " + "; ".join(rep["problems"])[:400])
    proof["dropped"] = rep["dropped"]
    mods = P.get("modules", []) + CFG["lemma_modules"]
    flags = ["--edition=2024", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "6"]
    budget = 620 if TIER == "thorough" else 330
    for it in range(6):
        out, rep = extract(outside + list(undec), "x")
        byline = [(f["out_start"], f["out_end"], f["key"]) for f in rep["functions"]]
        cmd = ["verus", os.path.basename(out)] + flags
        proof["cmd"] = " ".join(cmd)
        rc, o, e = run(cmd, min(budget, left() - 120), cwd=W)
        if rc is None:
            proof["undecided"].append({"function": "*", "why": "verifier ran out of time"}); break
        diags = []
        for l in (e + "\n" + o).splitlines():
            if l.startswith('{"$message_type"'):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level") == "error" and not d["message"].startswith("aborting"): diags.append(d)
        js = None
        i = o.find("{\n")
        if i >= 0:
            try: js = json.JSONDecoder().raw_decode(o[i:])[0]
            except ValueError: pass
        def where(d):
            ls = [s["line_start"] for s in d["spans"] if s["is_primary"]] + [s["line_start"] for s in d["spans"]]
            for n in ls:
                for a, b, k in byline:
                    if a <= n <= b and k not in undec and k not in outside: return k
            return None
        def vf(d): return d.get("code") is None and (REAL.search(d["message"]) or GAVEUP.search(d["message"]))
        comp = [d for d in diags if not vf(d)]
        if comp or js is None or js["verification-results"].get("encountered-vir-error"):
            new = {}
            for d in comp:
                k = where(d)
                if k: new[k] = "outside the verifier's reach: " + d["message"][:160]
            if new: undec.update(new); continue
            # a contract that no longer fits the current signature or types: nothing here is decided
            proof["undecided"].append({"function": "*", "why": "extracted crate rejected: " + "; ".join(d["message"][:120] for d in comp)[:400] + (e[-300:] if not comp else "")}); break
        proof["ran"] = True
        vr = js["verification-results"]
        proof["verified"] = vr["verified"]; proof["errors"] = vr["errors"]
        proof["smt_ms"] = js["times-ms"].get("total-verify", 0); proof["total_ms"] = js["times-ms"].get("total", 0)
        text = open(out).read(); lines = text.split("\n")
        proof["trusted"] = trusted(text[:text.find("pub mod vspec_str")] + text[text.find("pub mod vspec_str"):])
        bad = {}
        for d in diags:
            k = where(d)
            desc = {"obligation": d["message"], "at": [{"line": s["line_start"], "label": s.get("label"), "text": (s["text"][0]["text"].strip() if s.get("text") else "")[:200]} for s in d["spans"]], "rendered": d.get("rendered", "")[:3000]}
            if GAVEUP.search(d["message"]):
                proof["undecided"].append({"function": k or "lemma", "why": "verifier gave up: " + d["message"][:120], "at": [(s["text"][0]["text"].strip() if s.get("text") else "")[:160] for s in d["spans"]]})
                if k: undec[k] = "verifier gave up"
                continue
            if k: bad.setdefault(k, []).append(desc)
            else:
                # a lemma over the contracts alone: involves the source only through extracted constants and types
                proof["undecided"].append({"function": "lemma", "why": d["message"], "detail": desc})
        for k in [k for k in bad if k in moved and all(AUX.search(x["obligation"]) for x in bad[k])]:
            undec[k] = f"an annotation inside the function ({bad.pop(k)[0]['obligation']}) no longer fits: its calls are not the ones, or not in the order, that the annotation was written for"
        srcl = {f["key"]: (f["src_line"], f["src_end"]) for f in rep["functions"]}
        for k in [k for k in bad if k in novel]:
            undec[k] = f"not proved, and the code has {novel[k]}, for which the assumed contracts may say too little: {bad.pop(k)[0]['obligation']}"
        proof["failed"] = [{"function": k, "src": srcl[k], "obligations": v} for k, v in bad.items()]
        proof["cone"] = sorted(con)
        fb = {}
        for m in js["times-ms"].get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []): fb[f["function"].split("::", 1)[-1]] = f["time"]
        proof["functions"] = [k.lstrip(":") for k in sorted(con) if k not in undec and k not in bad]
        proof["queries"] = len(fb)
        for f in rep["functions"]:
            if f["key"] in con and f["key"] not in undec:
                for r, n in f["rules"].items(): proof["rules"][r] = proof["rules"].get(r, 0) + n
        if vr["verified"] == 0: proof["undecided"].append({"function": "*", "why": "verifier discharged nothing (vacuous run)"})
        break
    for k, why in undec.items(): proof["undecided"].append({"function": k, "why": why})

# ---- bounded search ---------------------------------------------------------------------------------------------
search = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "runs": 0}
H = f"{B}/h/debug/toonharness"
hlock = {}
def build_harness():
    global H
    if PROP == "C10":
        # the crate built with feature async-stream; asupersync replaced by a small stand-in (quick) or the real one (thorough)
        rc, e = None, "not tried"
        if TIER != "thorough": rc, o, e = run(["cargo", "+nightly", "build", "--offline", "--target-dir", f"{B}/ha"], 400, cwd=f"{V}/harness/async")
        H = f"{B}/ha/debug/toonharness"
        if rc != 0:
            d = f"{B}/async_real"; os.makedirs(d, exist_ok=True)
            t = open(f"{V}/harness/async/Cargo.toml").read()
            t = re.sub(r"(?ms)^# a stand-in.*?^asupersync = \{[^\n]*\n", "", t).replace("../src/main.rs", f"{V}/harness/src/main.rs")
            open(f"{d}/Cargo.toml", "w").write(t)
            rc, o, e = run(["cargo", "+nightly", "build", "--offline", "--target-dir", f"{B}/har"], min(600, left() - 120), cwd=d)
            H = f"{B}/har/debug/toonharness"
            notes.append("bounded search linked against the real asupersync crate")
        if rc != 0: raise RuntimeError("harness build: " + e[-1500:])
        return
    rc, o, e = run(["cargo", "+nightly", "build", "--offline", "--target-dir", f"{B}/h"], 600, cwd=f"{V}/harness")
    if rc != 0: raise RuntimeError("harness build: " + e[-1500:])
    if PROP == "C14":
        rc, o, e = run(["cargo", "build", "--offline", "--bin", "toon", "--target-dir", f"{B}/toon"], 600, cwd=REPO)
        if rc != 0: raise RuntimeError("toon build: " + e[-1500:])

def bounded(secs, seed, tag):
    """None, or (replay path, what fails)"""
    if not P.get("harness", True): return None
    rp, st, sc = f"{RPL}/{PROP}.json", f"{W}/stats{tag}.json", f"{W}/scratch{tag}"
    os.makedirs(sc, exist_ok=True)
    env = dict(ENV, TOON_BIN=f"{B}/toon/debug/toon", TOON_SCRATCH=sc)
    cmd = [H, "search", PROP, "--seed", str(seed), "--secs", str(secs), "--replay", rp, "--stats", st, "--src", f"{REPO}/src", "--base", f"{V}/harness/base_literals.txt", "--threads", str(P.get("threads", 7))]
    rc, o, e = run(cmd, secs + 90, env)
    if rc not in (0, 1):
        # the process died (stack overflow, abort) or stopped answering: run again with a journal of the cases under way
        j = f"{W}/journal{tag}"
        rc, o, e = run(cmd + ["--journal", j], secs + 90, env)
        if rc not in (0, 1):
            for f in sorted(os.listdir(W)):
                if not f.startswith(f"journal{tag}."): continue
                c = f"{W}/{f}"
                r2, o2, e2 = run([H, "replay", c], 60, env)
                if r2 != 0:
                    shutil.copy(c, rp)
                    return rp, "the process died on this input" + (f" (status {r2})" if r2 is not None else " or did not answer")
            notes.append(f"search ended with status {rc} and could not be reproduced: {e[-200:]}"); rc = 0
    try:
        s = json.load(open(st)); search["evaluations"] += s["evaluations"]; search["distinct_nontrivial"] += s["distinct_nontrivial"]; search["samples"] += s["samples"]; search["runs"] += 1
    except (OSError, ValueError): pass
    if rc == 1:
        r2, o2, e2 = run([H, "replay", rp], 90, env)
        w = next((l[6:] for l in o.splitlines() if l.startswith("FOUND ")), "violated")
        return rp, w
    return None

found = []
conf = {"cases": 0, "failures": []}
def conform():
    """the assumed contracts on std and serde_json, tried on the real ones (bounded; no part of the verdict)"""
    rc, o, e = run([H, "conform", "--seed", str(SEED), "--numbers", str(200_000 if TIER == "quick" else 20_000_000)], 60 if TIER == "quick" else 300)
    m = re.search(r"CONFORM (\d+) cases", o or "")
    if m: conf["cases"] = int(m[1])
    conf["failures"] = [l[17:] for l in (o or "").splitlines() if l.startswith("ASSUMPTION-FAILS ")]
    for f in conf["failures"]: notes.append("an assumption of the proof does not hold of the installed library: " + f)
def search_thread():
    try:
        build_harness()
        conform()
        r = bounded(P.get("secs", {}).get(TIER, 20 if TIER == "quick" else 240), SEED, "0")
        if r: found.append(r)
    except Exception as ex: notes.append(f"bounded search: {ex}")
def proof_thread():
    try: verify()
    except Exception as ex: proof["undecided"].append({"function": "*", "why": f"{type(ex).__name__}: {ex}"})

def main():
    ts = [threading.Thread(target=search_thread)] + ([threading.Thread(target=proof_thread)] if P["roots"] else [])
    for t in ts: t.start()
    for t in ts: t.join()
    viol = None
    if found: viol = (found[0][0], "", found[0][1])
    elif proof["failed"]:
        # look for a failing input with a fresh seed before reporting the bare obligation
        r = None
        try: r = bounded(min(90 if TIER == "quick" else 240, max(10, left() - 60)), SEED + 7919, "1")
        except Exception as ex: notes.append(f"bounded search: {ex}")
        if r: viol = (r[0], "", r[1])
        else:
            rp = f"{RPL}/{PROP}.obligation.json"
            json.dump({"property": PROP, "failed_obligations": proof["failed"], "verifier": proof["cmd"], "note": "no failing input found within the search budget"}, open(rp, "w"), indent=1)
            viol = (rp, " no-failing-input-found", "; ".join(f["function"] + ": " + f["obligations"][0]["obligation"] for f in proof["failed"]))
    for l in open(f"{V}/known_findings.txt"):
        l = l.strip()
        if l.startswith(f"finding: property={PROP} "): say("KNOWN-FINDING: " + l[len("finding: "):])
    evidence(1 if viol else 0)
    (None if os.environ.get("KEEPW") else shutil.rmtree(W, ignore_errors=True))
    for u in proof["undecided"][:8]: say(f"note: undecided by proof: {u['function']}: {u['why'][:200]}")
    for n in notes: say("note: " + n)
    say(f"{PROP}: {proof['verified']} verifier queries discharged over {len(proof['functions'])} functions under contract, {search['evaluations']} bounded cases, {time.time()-T0:.0f} s")
    if viol:
        say(f"what fails: {viol[2][:1500]}")
        say(f"VIOLATION property={PROP} replay={viol[0]}{viol[1]}"); sys.exit(1)
    sys.exit(0)

def evidence(v):
    und = proof["undecided"]
    nq = proof["verified"] + sum(len(f["obligations"]) for f in proof["failed"]) + len(und)
    level = P["level"] if not und else "exploration"   # a proof with undecided obligations is not a proof
    cov = {
        "obligations": nq, "discharged": proof["verified"],
        "obligation_unit": "one verifier query group per function, loop or lemma (all its pre/postconditions, invariants, bounds, overflow and termination conditions)",
        "checker_cmd": proof["cmd"] or "none", "back_end": "Verus 0.2026.09.13 with its bundled Z3",
        "functions_under_contract": proof["functions"], "failed": proof["failed"], "undecided": und,
        "theorems": P.get("theorems", []), "bounded_only": P.get("bounded", ""),
        "solver_ms": proof["smt_ms"], "extraction_rules_applied": proof["rules"], "extraction_dropped": len(proof["dropped"]),
        "assumed_contracts_tried": {"cases": conf["cases"], "failures": conf["failures"], "what": "assumed contracts of std and serde_json on the real ones: all characters, all short texts of a small alphabet, numbers and collections at random (bounded, not proved)"},
        "trusted_base": proof.get("trusted", []) or ["none"],
        "evaluations": search["evaluations"], "distinct_nontrivial": search["distinct_nontrivial"],
        "rule": CFG["rule"] + " " + P.get("rule", ""), "samples": search["samples"][:3] or ["none: the bounded search did not run"],
        "explanation": P["note"],
    }
    json.dump({"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": CFG["assumptions"] + P.get("assumptions", []) + notes, "wall_s": round(time.time() - T0, 1), "violations": v}, open(f"{EVD}/{PROP}.json", "w"), indent=1)
main()
