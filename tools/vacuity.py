#!/usr/bin/env python3
"""Is any contract vacuous? Puts `assert(false)` at the start of every verified body of the extracted crate (the
functions of /repo, the lemmas and the theorems) and lists the bodies where the verifier accepts it: there the
preconditions, or the axioms in force, contradict each other, and every obligation holds for no reason.
usage: vacuity.py EXTRACTED.rs [OUT.rs]   (the text check.py or vx.sh extracts)"""
import re, subprocess, sys, json
src = open(sys.argv[1]).read()
out = sys.argv[2] if len(sys.argv) > 2 else "/tmp/vacuity.rs"
n = len(src)
# lexing: positions that are code
code = bytearray(b"\1" * n); i = 0
while i < n:
    c = src[i]
    if src.startswith("//", i):
        j = src.find("\n", i); j = n if j < 0 else j
        code[i:j] = bytes(j - i); i = j
    elif src.startswith("/*", i):
        j = src.find("*/", i) + 2; code[i:j] = bytes(j - i); i = j
    elif c == '"' or (c == 'b' and i + 1 < n and src[i + 1] == '"'):
        j = src.find('"', i) + 1
        while src[j] != '"': j += 2 if src[j] == "\\" else 1
        code[i:j + 1] = bytes(j + 1 - i); i = j + 1
    elif c == "'":
        m = re.compile(r"'(\\u\{[^}]*\}|\\x..|\\.|[^\\'])'").match(src, i)
        if m: code[i:m.end()] = bytes(m.end() - i); i = m.end()
        else: i += 1
    else: i += 1
def nextc(p):
    while p < n and (not code[p] or src[p].isspace()): p += 1
    return p
ins = []
for m in re.finditer(r"\bfn\s+(\w+)", src):
    if not code[m.start()]: continue
    head = src[max(src.rfind("\n", 0, m.start()), 0):m.start()]
    if re.search(r"\bspec\b|\baxiom\b", head): continue
    # attributes just above
    above = src[max(0, m.start() - 400):m.start()]
    above = above[max(above.rfind("}\n"), above.rfind(";\n"), 0):]
    if "external" in above: continue
    # the body: the last top-level brace group before the item ends (a `;`, or what starts a new item)
    p, depth, last = m.end(), 0, None
    while p < n:
        if code[p]:
            c = src[p]
            if c in "([{":
                if depth == 0 and c == "{": start = p
                depth += 1
            elif c in ")]}":
                if depth == 0: break
                depth -= 1
                if depth == 0 and c == "}":
                    last = start
                    q = nextc(p + 1)
                    # a specification goes on with an operator or a clause; otherwise the item is over
                    if not re.match(r";|ensures|decreases|opens_invariants|no_unwind|,|&&|\|\||==|!=|\)|\{|\+|\.|<|>|as\b|else\b|is\b|=", src[q:q + 16]): break
            elif c == ";" and depth == 0: last = None; break
        p += 1
    if last is None: continue
    q = last + 1
    while True:
        k = nextc(q); w = re.compile(r"(hide|reveal)\([^;]*;|broadcast use [^;]*;|#\[[^\]]*\]").match(src, k)
        if not w: break
        q = w.end()
    ins.append((q, m.group(1), "proof" in head))
res, at, o = [], 0, ""
for q, name, pr in ins:
    o += src[at:q]
    line = o.count("\n") + 1
    o += " assert(false); "
    at = q; res.append((name, line))
o += src[at:]
open(out, "w").write(o + "\nfn main(){}\n")
r = subprocess.run(["verus", "--edition=2024", out, "--error-format=json", "--output-json", "--multiple-errors", "1"], capture_output=True, text=True)
hit, comp = set(), []
for l in (r.stderr + r.stdout).splitlines():
    if l.startswith('{"$message_type"'):
        d = json.loads(l)
        if d["level"] != "error": continue
        if d["message"] == "assertion failed": hit |= {s["line_start"] for s in d["spans"]}
        elif not d["message"].startswith("aborting") : comp.append((d["message"][:120], [s["line_start"] for s in d["spans"]][:2]))
print(f"{len(res)} bodies, {sum(l in hit for _, l in res)} refuse assert(false)")
for m in comp[:15]: print("other:", m)
gave = [l for m, ls in comp if "esource limit" in m for l in ls]
for name, line in res:
    if line not in hit: print("undecided (resource limit)" if any(abs(line - l) < 40 for l in gave) else "ACCEPTED", name, line)
