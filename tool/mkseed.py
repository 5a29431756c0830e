#!/usr/bin/env python3
"""mkseed.py FILE: writes /verif/seeded/<id>/ from a Python file defining SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<shell text>, files={name: text})]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkseedw"
ns = {}
exec(open(sys.argv[1]).read(), ns)
subprocess.run("rm -rf /tmp/mkseedw; git clone -q /repo " + W, shell=True, check=True)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    for f, a, b in s["edits"]:
        t = open(W + "/" + f, newline="").read()
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert t.count(a) == 1, (s["id"], f, a, t.count(a))
        open(W + "/" + f, "w", newline="").write(t.replace(a, b))
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(["git", "-C", W, "diff"], capture_output=True, check=True).stdout
    open(d + "/patch.diff", "wb").write(p)
    open(d + "/demo.sh", "w").write(s["demo"])
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    print(s["id"])
