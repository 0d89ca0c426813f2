"""Writes seeded/<id>/ (patch.diff, demo.sh, meta.json and helper files) from the specs in seeds.py."""
import os, sys, json, difflib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"; D = os.path.join(V, "tools/demo")
def seed(id, prop, edits, demo, needs, breaks, helpers=("client.py",)):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    out = os.path.join(V, "seeded", id); shutil.rmtree(out, True); os.makedirs(out)
    files = {}
    for f, old, new in edits:
        t = files.setdefault(f, [open(os.path.join(REPO, f)).read()] * 2)
        if t[1].count(old) != 1: print(id, "edit matches", t[1].count(old), "times in", f); return
        files[f] = [t[0], t[1].replace(old, new)]
    p = ""
    for f, (a, b) in files.items():
        p += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(out + "/patch.diff", "w").write(p)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
    if demo.startswith("#!"): open(out + "/demo.sh", "w").write(demo)
    else:
        open(out + "/demo.py", "w").write(demo.strip() + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/bash\ncd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec timeout 250 python3 demo.py\n')
    for h in helpers: shutil.copy(os.path.join(D, h), out)
    print("wrote", id)
if __name__ == "__main__":
    exec(open(os.path.join(V, "tools/seeds.py")).read())
