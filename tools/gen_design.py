#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (per-property sections) from properties.jsonl, checks/specs.py and
known_findings.jsonl."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "vk")); sys.path.insert(0, V)
spec = importlib.util.spec_from_file_location("specs", os.path.join(V, "checks", "specs.py"))
specs = importlib.util.module_from_spec(spec); spec.loader.exec_module(specs)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    c = specs.CHECKS.get(p["id"]) if isinstance(specs.CHECKS, dict) else next((x for x in specs.CHECKS if x["id"] == p["id"]), None)
    out.append("### %s: %s\n" % (p["id"], p["title"]))
    if not c:
        out.append("Not claimed: %s\n" % specs.NOT_APPLICABLE.get(p["id"], "no check yet"))
        continue
    g = (lambda k: getattr(c, k, None)) if not isinstance(c, dict) else c.get
    out.append("- Decided by: %s.\n- Explored: %s.\n- Bound of the verdict: %s.\n" % (g("technique"), g("rule"), g("level_note").rstrip(".")))
    if g("assumptions"):
        out.append("- Assumes: %s.\n" % "; ".join(g("assumptions")))
    b = {}
    for x in g("bins"):
        b.setdefault((x.arch, x.san, x.cxx or "clang"), []).append(x.name)
    out.append("- Builds: %s.\n" % "; ".join("%s, %s, %s (%d)" % (k[2], k[0], {"none": "plain", "asan": "ASan+UBSan", "aonly": "ASan", "tsan": "TSan"}.get(k[1], k[1]), len(v)) for k, v in sorted(b.items())))
s = open(os.path.join(V, "DESIGN.md")).read()
a, rest = s.split("<!-- generated: tools/gen_design.py -->\n", 1)
_, z = rest.split("<!-- end generated -->\n", 1)
fx = []
for l in open(os.path.join(V, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fx.append("| %s | `%s` | %s |" % m.groups())
a1, zz = z.split("<!-- fixes -->\n", 1)
_, z2 = zz.split("<!-- end fixes -->\n", 1)
open(os.path.join(V, "DESIGN.md"), "w").write(a + "<!-- generated: tools/gen_design.py -->\n" + "\n".join(x if x.startswith("###") else x.rstrip("\n") for x in out).replace("\n###", "\n\n###") +
    "\n<!-- end generated -->\n" + a1 + "<!-- fixes -->\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fx) + "\n<!-- end fixes -->\n" + z2)
