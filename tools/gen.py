#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, re
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
    for i, p in NOT_APPLICABLE.items():
        f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "symbolic execution of the compiled LLVM IR with Z3 (bounded, all paths)",
                "level": "model_checking",
                "level_note": "Every path of the real code within the bounds, with symbolic inputs, assertions decided by Z3; counterexamples replayed natively. Bounds: %s. Outside: %s. Trusts rustc/LLVM, the executor (validated by native replay of sampled paths) and Z3." % (p["bounds"], p["outside"])}
               for i, p in PROPS.items()],
    "not_applicable": [{"property": i, "reason": p["reason"]} for i, p in NOT_APPLICABLE.items()],
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

# the harness table of the native replayer
src = os.path.join(V, "harness", "src")
names = []
for f in sorted(os.listdir(src)):
    names += re.findall(r'pub extern "C" fn (c\d\d_\w+)\(', open(os.path.join(src, f)).read())
m = os.path.join(src, "main.rs")
t = open(m).read()
head, tail = t.split("native(table![", 1)
rows = []
for k in sorted({n[:3] for n in names}):
    rows.append("        " + ", ".join(n for n in names if n[:3] == k) + ",\n")
t = head + "native(table![\n" + "".join(rows) + "    ]);\n}\n"
if t != open(m).read():
    open(m, "w").write(t)
