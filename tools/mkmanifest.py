#!/usr/bin/env python3
"""MANIFEST.json from the check modules and properties.jsonl"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
NA = {
    "N01": "Shortest-and-exact floating text quantifies over all 2^64 doubles and needs the numeric correctness proof of Grisu and of RapidJSON's (absent) reader; no abstract domain in reach decides it from source.",
    "N02": "Calendar exactness is a numeric identity of date arithmetic over the full range of int64 instants; it needs arithmetic proof or exhaustive execution, not a sound static analysis in reach.",
    "N03": "Digest correctness is functional equality with RIPEMD-160 over unbounded messages: equivalence checking, outside static analysis.",
    "N04": "Exactness of multi-limb radix conversion is an arithmetic identity over unbounded digit strings; interval and dataflow analyses only bound it (its range and alphabet parts are in C12, C17 and C19).",
    "N05": "Linear work bounds relate loop trip counts to runtime sizes across containers; empty element types make it false in general (array of empty structs), and cost analysis of std containers is not in reach.",
    "N06": "End-to-end value preservation is decided only in part statically (layout agreement C09, field rules C16, both writers C26, leaf codecs C11/C12/C19/C22); the full semantic identity over all types and values is not decidable with these analyses.",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    f = os.path.join(V, "engine/abi_sa/checks", i.lower() + ".py")
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        g = {x.targets[0].id: ast.literal_eval(x.value) for x in t.body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE")}
        doc = re.sub(r"\s+", " ", ast.get_docstring(t) or "")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": g.get("TECHNIQUE", "static analysis of LLVM IR"), "level": g.get("LEVEL", "other"),
                       "level_note": g.get("NOTE", doc) + " Trusted: clang 18 and the LLVM clean-up passes, irtool, the Python analysis, the models of libstdc++ and of the absent RapidJSON."})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of the IR clang makes from /repo's current sources; /repo is never executed and needs no hooks. Findings already known are in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
