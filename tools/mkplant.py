#!/usr/bin/env python3
"""mkplant.py ID PROPERTY FILE OLD NEW -- NEEDS -- BREAKS : make seeded/ID/patch.diff and meta.json from a textual edit (stdin: python dict)."""
import sys, json, subprocess, os, tempfile, shutil, ast
d = ast.literal_eval(sys.stdin.read())
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "seeded", d["id"])
os.makedirs(D, exist_ok=True)
W = tempfile.mkdtemp(prefix="/tmp/mkplant.")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W + "/w", "HEAD"])
try:
    for f, old, new in d["edits"]:
        p = os.path.join(W, "w", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        assert n == 1, (f, n, old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W + "/w", "diff"])
    open(os.path.join(D, "patch.diff"), "wb").write(diff)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", W + "/w"])
    shutil.rmtree(W, ignore_errors=True)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)
sh = open(os.path.join(V, "tools", "demo_tmpl.sh")).read().replace("@FLAGS@", d.get("flags", "")).replace("@ENV@ ", d.get("env", ""))
if "demo.sh" not in d.get("files", {}):
    open(os.path.join(D, "demo.sh"), "w").write(sh)
for name, text in d.get("files", {}).items():
    open(os.path.join(D, name), "w").write(text.lstrip("\n"))
print("wrote", D)
