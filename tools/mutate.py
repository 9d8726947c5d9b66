#!/usr/bin/env python3
"""Mutation survey: which small changes of the sources do the checks notice? Works on scratch copies only.

  mutate.py list FILE...                       print the mutants
  mutate.py run OUT.jsonl [--secs S] [--jobs J] [--sample N] [--seed K] FILE...
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, BINARIES
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = "/tmp/mut"
CACHE = WORK + "/cache"

OPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" % ", [" / "]), (r" \* ", [" + "]), (r" \+= ", [" = "]), (r" -= ", [" += "]),
    (r"\+\+ ?(?=[a-z_]+)", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
    (r"\bnotify_all\b", ["notify_one"]), (r"\bnotify_one\b", ["notify_all"]),
    (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
    (r"\bif \(!", ["if ("]), (r"\bif \((?!!|constexpr)", ["if (!"]),
    (r"unique_lock", ["shared_lock"]), (r"memory_order_\w+", ["memory_order_relaxed"]),
]


def mutants(path):
    rel = os.path.relpath(path, REPO)
    lines = open(path).read().split("\n")
    out = []
    block = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if block or s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "Expects", "Ensures")):
            continue
        code = ln.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + r + code[m.end():]
                    if r == "if (!":
                        # negate the whole condition
                        d, k = 1, m.end()
                        while k < len(code) and d:
                            d += {"(": 1, ")": -1}.get(code[k], 0); k += 1
                        if d or ";" in code[m.end():k]:
                            continue
                        new = code[:m.start()] + "if (!(" + code[m.end():k - 1] + "))" + code[k:]
                    out.append((rel, i, ln, new))
        if s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and \
           re.match(r"^(\w[\w.\->:\[\]]*(\(.*\))?|std::(unique|shared|scoped)_lock.*|std::lock_guard.*|\+\+.*|--.*|\*.*)( ?[+\-*/|&]?= ?.*)?;$", s) and \
           not re.match(r"^(return|using|const|auto|static|friend|explicit|virtual|constexpr|throw)\b", s):
            if i and lines[i - 1].strip() and lines[i - 1].strip()[-1] in ";{}:)":
                out.append((rel, i, ln, re.sub(r"\S.*", ";", ln)))
        if s in ("continue;", "break;", "return;"):
            out.append((rel, i, ln, ln.replace(s, ";")))
    return out


def objfor(cmd, f, o):
    """Compile with a cache keyed on the preprocessed text."""
    p = subprocess.run(cmd + ["-E", "-P", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if p.returncode:
        return False
    key = hashlib.sha256(p.stdout + " ".join(x for x in cmd if not x.startswith(("-I", "-fmacro"))).encode() + f.encode()[-20:]).hexdigest()
    c = os.path.join(CACHE, key + ".o")
    if not os.path.exists(c):
        t = c + ".%d" % random.getrandbits(40)
        try:
            r = subprocess.run(cmd + ["-c", f, "-o", t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode
        except subprocess.TimeoutExpired:
            r = 1
        if r:
            return False
        os.rename(t, c)
    shutil.copy(c, o)
    return True


def build(repo, binary, out):
    spec = BINARIES[binary]
    os.makedirs(out, exist_ok=True)
    H = os.path.join(VERIF, "sim/harness")
    rt = [os.path.join(VERIF, "sim/rt", f) for f in ("simrt.cpp", "simfs.cpp", "simevp.cpp")]
    har = [os.path.join(H, f) for f in spec["harness"]]
    import glob
    srcs = []
    for g in spec["repo"]:
        srcs += [f for f in sorted(glob.glob(os.path.join(repo, g), recursive=True)) if not any(re.search(x, f[len(repo):]) for x in spec.get("exclude", []))]
    rtflags = ["g++", "-std=c++20", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-fno-stack-protector", "-fno-builtin-malloc", "-w"]
    flags = ["g++", "-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-DFMT_HEADER_ONLY", "-w"] + \
        ["-I" + os.path.join(VERIF, d) for d in spec.get("shims_first", [])] + ["-I" + os.path.join(VERIF, "shims")] + \
        ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "src"), "-fmacro-prefix-map=%s=/repo" % repo] + spec.get("flags", [])
    ro, eo = [], []
    for i, f in enumerate(rt):
        ro.append("%s/rt%d.o" % (out, i))
        if not objfor(rtflags, f, ro[-1]): return None
    for i, f in enumerate(har + srcs):
        eo.append("%s/e%d.o" % (out, i))
        if not objfor(flags + ["-fsanitize=thread"], f, eo[-1]): return None
    eo.append(out + "/runner.o")
    if not objfor(flags, os.path.join(H, "runner.cpp"), eo[-1]): return None
    exe = out + "/" + binary
    if subprocess.run(["g++", "-shared", "-o", out + "/libsimrt.so"] + ro + ["-lcrypto", "-ldl"]).returncode: return None
    if subprocess.run(["g++", "-no-pie", "-o", exe] + eo + ["-L" + out, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", "-lcrypto", "-ldl"],
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return None
    for o in ro + eo: os.remove(o)
    return exe


ORDER = ["C10", "C11", "C12", "C13", "C16", "C20", "C03", "C06", "C04", "C05", "C14", "C08", "C19", "C01", "C02", "C09", "C18", "C22", "C15", "C07", "C17", "C21"]


def relevant(rel, binary, repo=REPO):
    if binary == "h_isal":
        return rel.startswith("include") or re.search(r"storage_hasher|storage_verifier", rel) or "_mb" in rel or "multi" in rel or "isal" in rel
    if binary == "h_meta":
        return rel.startswith("include") or re.search(r"metafile|announce|info_hash|file_storage|file_entry", rel)
    if binary == "h_prim":
        return re.search(r"concurrent|object_pool|merkle|checksum|hash|file_entry|openssl", rel)
    return not re.search(r"metafile|announce|info_hash|_mb|isal|multi_buffer", rel)


def one(k, mu, secs):
    rel, i, old, new = mu
    d = os.path.join(WORK, "m%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO + "/include", REPO + "/src", d + "/"]) if os.makedirs(d) is None else 0
    f = os.path.join(d, rel)
    lines = open(f).read().split("\n")
    assert lines[i] == old
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    res = {"k": k, "file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "killed": None}
    try:
        built = {}
        for prop in ORDER:
            if prop not in PROPS: continue
            b = PROPS[prop]["binary"]
            if not relevant(rel, b): continue
            if b not in built:
                built[b] = build(d, b, d + "/" + b)
                if built[b] is None:
                    res["killed"] = "compile"; break
            o = d + "/out"
            try:
                p = subprocess.run([built[b], "search", prop, str(100000000), str(10 ** 9), "1", "0", str(secs), "1", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 300)
            except subprocess.TimeoutExpired:
                res["killed"] = prop + " timeout"; break
            t = open(o, errors="replace").read() if os.path.exists(o) else ""
            m = re.search(r"^class (\S+)", t, re.M)
            if p.returncode or m:
                res["killed"] = prop + " " + (m.group(1) if m else "rc %d" % p.returncode); break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    a = sys.argv[1:]
    cmd = a.pop(0)
    opt = {"--secs": 6, "--jobs": 8, "--sample": 0, "--seed": 1}
    out = a.pop(0) if cmd == "run" else None
    files = []
    while a:
        x = a.pop(0)
        if x in opt: opt[x] = int(a.pop(0))
        else: files.append(x)
    ms = []
    for f in files: ms += mutants(os.path.join(REPO, f))
    if cmd == "list":
        for m in ms: print("%s:%d  %s  ->  %s" % (m[0], m[1] + 1, m[2].strip(), m[3].strip()))
        print(len(ms)); return
    if opt["--sample"] and len(ms) > opt["--sample"]:
        random.Random(opt["--seed"]).shuffle(ms); ms = ms[:opt["--sample"]]
    os.makedirs(CACHE, exist_ok=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
    print(len(ms), "mutants")
    with ThreadPoolExecutor(opt["--jobs"]) as ex:
        for r in ex.map(lambda t: one(t[0], t[1], opt["--secs"]), list(enumerate(ms))):
            with open(out, "a") as fo: fo.write(json.dumps(r) + "\n")
            if r["killed"] is None: print("SURVIVED %s:%d  %s  ->  %s" % (r["file"], r["line"], r["old"], r["new"]), flush=True)

main()
