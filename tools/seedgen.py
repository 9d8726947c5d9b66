#!/usr/bin/env python3
"""Development helper: seedgen.py SPEC.py... writes seeded/<id>/{patch.diff,meta.json,demo.cpp,demo.json} from
   a Python spec defining SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo, opts)]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        t = tempfile.mkdtemp()
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (t, t), shell=True)
        for f, o, n in s["edits"]:
            p = os.path.join(t, f); c = open(p, newline="").read()
            assert c.count(o) == 1, (s["id"], f, o, c.count(o))
            open(p, "w", newline="").write(c.replace(o, n))
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", t, "diff"], text=True))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        if s.get("opts"): json.dump(s["opts"], open(os.path.join(d, "demo.json"), "w"))
        shutil.rmtree(t)
        print(s["id"])
