#!/usr/bin/env python3
"""Development helper for planted bugs (not used by any check).

  mkseed.py make ID     seeded/ID/{patch.diff,demo.cpp,meta.json} exist: adds demo.sh and the stand-in headers
  mkseed.py test ID...  clean demo, patch, build, stable tests, demo, the property's check; always undoes the patch
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
FLAGS="-std=c++20 -O1 -g -w -pthread -DFMT_HEADER_ONLY -I$D/inc -I$R/include -I$R/src @FLAGS@"
SRC=$(ls @SRC@ | grep -v -E '@EXCLUDE@')
cd "$T" && mkdir data || exit 9
printf '%s\\n' "$D/demo.cpp" $SRC | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -c "{}" -o "$(basename "{}").o"' || exit 9
g++ $FLAGS *.o -o demo -lcrypto -ldl || exit 9
timeout @TIME@ ./demo "$T/data"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    o = json.load(open(os.path.join(d, "demo.json"))) if os.path.exists(os.path.join(d, "demo.json")) else {}
    src = o.get("src", "pipe")
    if src == "pipe":
        s, x = "$R/src/*.cpp $R/src/hasher/backends/openssl.cpp", o.get("exclude", "metafile|magnet_uri|_mb.cpp|multi_buffer|announce|percent")
    elif src == "none":
        s, x = "/dev/null", "."
    else:
        s, x = src, "^$"
    t = DEMO.replace("@FLAGS@", o.get("flags", "-DDOTTORRENT_USE_OPENSSL")).replace("@SRC@", s).replace("@EXCLUDE@", x).replace("@TIME@", str(o.get("time", 100)))
    open(os.path.join(d, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.rmtree(os.path.join(d, "inc"), ignore_errors=True)
    shutil.copytree(os.path.join(V, "tools/seedinc"), os.path.join(d, "inc"))
    if o.get("bencode2"):
        o["shims"] = ["gsl-lite", "nonstd"]
        shutil.copytree(os.path.join(V, "shims2/bencode"), os.path.join(d, "inc/bencode"))
    for sub in o.get("shims", ["gsl-lite", "nonstd", "bencode"]):
        shutil.copytree(os.path.join(V, "shims", sub), os.path.join(d, "inc", sub))

def test(i, checks="--nocheck" not in sys.argv):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = {"id": i, "property": m["property"]}
    assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
    t = time.time(); p = sh(os.path.join(d, "demo.sh"), cwd="/repo"); r["demo_clean"] = p.returncode
    if p.returncode: r["out"] = p.stdout[-600:]
    p = sh("git -C /repo apply %s/patch.diff" % d); r["apply"] = p.returncode
    try:
        if p.returncode == 0:
            b = sh("bash /opt/vp/build.sh"); r["build"] = b.returncode
            b = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); r["tests"] = b.stdout.strip().split("\n")[-1]
            t = time.time(); b = sh(os.path.join(d, "demo.sh"), cwd="/repo"); r["demo_bug"] = b.returncode; r["demo_out"] = b.stdout.strip()[-200:]
            if checks:
                c = sh("python3 %s/check.py %s" % (V, m["property"]), env=dict(os.environ, VERIF_SEED="1"))
                r["check"] = c.returncode
                r["check_out"] = [l for l in c.stdout.split("\n") if l.startswith(("seed", "VIOL", "  ", "ERROR"))][:3]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    r["ok"] = r.get("demo_clean") == 0 and r.get("apply") == 0 and r.get("build") == 0 and r.get("demo_bug") not in (0, 9) and "6 passed" in r.get("tests", "")
    return r

if sys.argv[1] == "make":
    for i in sys.argv[2:]: make(i)
else:
    for i in [x for x in sys.argv[2:] if x[0] != "-"]:
        make(i)
        r = test(i)
        print(json.dumps(r, indent=1), flush=True)
