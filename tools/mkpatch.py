"""mkpatch.py ID PROPERTY FILE <<< python-literal dict(old=..., new=..., needs=..., breaks=..., nth=0): writes seeded/ID/{patch.diff,meta.json}"""
import sys, os, json, subprocess, ast
id, prop, file = sys.argv[1:4]
spec = eval(sys.stdin.read())
p = "/repo/" + file
s = open(p).read(); o = s
for old, new in spec["edits"]:
    nth = 0
    if isinstance(old, tuple): old, nth = old
    assert s.count(old) > nth, (s.count(old), old)
    i = -1
    for _ in range(nth + 1): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
open(p, "w").write(s)
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(p, "w").write(o)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if spec.get("demo"):
    t = spec["demo"]
    for n in ("http", "file"):
        t = t.replace(f"PRELUDE_{n.upper()}\n", open(f"/verif/tools/prelude_{n}.rs").read() if f"PRELUDE_{n.upper()}" in t else "")
    open(d + "/demo.rs", "w").write(t)
import shutil; shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
