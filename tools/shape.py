#!/usr/bin/env python3
"""Regenerate contracts/shape.json from an extraction report of the unchanged tree: loop kinds, parameter count and number of
closures without a contract and sequence of calls (a hash) of each function, and ("_names") every method and path called anywhere, so that a later failure in
code that calls something new is told apart from a failed contract."""
import hashlib, json, sys
def skel(f, own):
    """the calls a function makes, in the order they are written"""
    return hashlib.sha1(" ".join(c for c in f["calls"] if c.startswith(".") or "::" in c or c in own).encode()).hexdigest()[:12]
if __name__ == "__main__":
  r = json.load(open(sys.argv[1]))
  own = {f["key"].split("::")[-1] for f in r["functions"]}
  d = {f["key"]: [f["shape"], f["params"], f["bare"], skel(f, own)] for f in r["functions"]}
  d["_names"] = sorted({c for f in r["functions"] for c in f["calls"] if c.startswith(".") or "::" in c})
  json.dump(d, open(sys.argv[2], "w"), indent=0, sort_keys=True)
