#!/usr/bin/env python3
"""Decides the properties of fbdtemme/dottorrent by deterministic simulation with fault injection.

  check.py PROPERTY [--thorough] [--secs N] [--seed N]   search; exit 0 held, 1 violated, 2 error
  check.py replay FILE [-v]                              re-execute a replay file; exit 1 if it fails as recorded
  check.py determinism [PROPERTY...]                     same seeds, different processes: equal hashes?
  check.py gencheck [BASE COUNT]                          do the generators make only workloads the contract allows?
  check.py build                                         build every simulator executable
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS, BINARIES, PROBES   # noqa: E402

BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.jsonl")
NCPU = len(os.sched_getaffinity(0))


def err(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------ build

def sources(globs):
    out = []
    for g in globs:
        for f in sorted(glob.glob(g, recursive=True)):
            if f not in out:
                out.append(f)
    return out


def build(binary):
    """Compiles libsimrt.so and the executable from the current working trees; returns its path."""
    spec = BINARIES[binary]
    rt = [os.path.join(VERIF, "sim/rt", f) for f in ("simrt.cpp", "simfs.cpp", "simevp.cpp")]
    harness = [os.path.join(VERIF, "sim/harness", f) for f in spec["harness"]] + [os.path.join(VERIF, "sim/harness/runner.cpp")]
    repo = [f for f in sources([os.path.join(REPO, g) for g in spec["repo"]])
            if not any(re.search(x, f) for x in spec.get("exclude", []))]
    deps = sources([os.path.join(REPO, "include/**/*.*"), os.path.join(REPO, "src/**/*.*"),
                    os.path.join(VERIF, "sim/**/*.*"), os.path.join(VERIF, "shims*/**/*.*")])
    rtflags = ["-std=c++20", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-fno-stack-protector", "-fno-builtin-malloc", "-w"]
    flags = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-DFMT_HEADER_ONLY", "-w"] + \
            ["-I" + os.path.join(VERIF, d) for d in spec.get("shims_first", [])] + \
            ["-I" + os.path.join(VERIF, "shims")] + \
            ["-I" + os.path.join(VERIF, d) for d in spec.get("shims", [])] + \
            ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")] + spec.get("flags", [])
    h = hashlib.sha256()
    for f in deps:
        h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\1")
    h.update(json.dumps([rtflags, flags, harness, repo]).encode())
    out = os.path.join(BUILD, binary + "-" + h.hexdigest()[:16])
    exe = os.path.join(out, binary)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + binary), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(BUILD, binary + "-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix=".tmp-", dir=BUILD)
        jobs = []
        for f in rt:
            jobs.append((f, rtflags))
        for f in harness:
            jobs.append((f, flags if f.endswith("runner.cpp") else flags + ["-fsanitize=thread"]))
        for f in repo:
            jobs.append((f, flags + ["-fsanitize=thread"]))

        def comp(job):
            f, fl = job
            o = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest()[:8] + "-" + os.path.basename(f) + ".o")
            p = subprocess.run(["g++"] + fl + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return f, o, p.returncode, p.stdout
        try:
            with ThreadPoolExecutor(max(2, NCPU)) as ex:
                res = list(ex.map(comp, jobs))
            for f, o, rc, text in res:
                if rc:
                    err("cannot compile %s\n%s" % (f, text[-3000:]))
            ro = [o for f, o, _, _ in res if f in rt]
            eo = [o for f, o, _, _ in res if f not in rt]
            p = subprocess.run(["g++", "-shared", "-o", os.path.join(tmp, "libsimrt.so")] + ro + ["-lcrypto", "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                err("cannot link the simulator runtime\n" + p.stdout[-3000:])
            p = subprocess.run(["g++", "-no-pie", "-o", os.path.join(tmp, binary)] + eo +
                               ["-L" + tmp, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp",
                                "-lcrypto", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                err("cannot link %s\n%s" % (binary, p.stdout[-3000:]))
            for o in ro + eo:
                os.remove(o)
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return exe


# ------------------------------------------------------------------ records

class Rec:
    def __init__(self):
        self.f = {}
        self.spec = {}
        self.msg = ""
        self.dev = []

    @property
    def cls(self):
        return self.f.get("class", "")

    @property
    def failed(self):
        return self.f.get("status") == "2"


def parse_records(lines):
    recs, stats, cur, mode = [], None, None, None
    for ln in lines:
        ln = ln.rstrip("\n")
        if mode is None or mode == "head":
            if ln == "RECORD":
                cur = Rec(); recs.append(cur); mode = "head"; continue
            if ln == "INVALID":
                recs.append(None); continue
            if ln == "STATS":
                stats = {"fault": {}, "probe": {}, "threads": {}, "failclass": {}, "sample": []}; mode = "stats"; continue
            if ln == "SPEC": mode = "spec"; continue
            if ln == "MSG": mode = "msg"; continue
            if ln == "DEV": mode = "dev"; continue
            if cur is not None and mode == "head" and " " in ln:
                k, v = ln.split(" ", 1); cur.f[k] = v
            elif cur is not None and mode == "head" and ln:
                cur.f[ln] = ""
            continue
        if ln == "END":
            mode = None if mode in ("dev", "stats") else "head"
            continue
        if mode == "spec":
            k, _, v = ln.partition("="); cur.spec[k] = v
        elif mode == "msg":
            cur.msg += ln + "\n"
        elif mode == "dev":
            k, s, v = ln.split(); cur.dev.append((k, int(s), int(v)))
        elif mode == "stats":
            p = ln.split(" ", 2)
            if p[0] in ("fault", "probe", "threads", "failclass"):
                stats[p[0]][p[1]] = stats[p[0]].get(p[1], 0) + int(p[2])
            elif p[0] == "sample":
                stats["sample"].append(ln[7:])
            else:
                stats[p[0]] = float(p[1])
    return recs, stats


class Exec:
    """A persistent `exec` process of a simulator executable."""
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "exec"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, spec, dev=None, seed=None):
        t = "SPEC\n" + "".join("%s=%s\n" % kv for kv in sorted(spec.items()))
        if seed is not None:
            t += "SEARCH %d\n" % seed
        t += "DEV\n" + "".join("%s %d %d\n" % d for d in (dev or [])) + "RUN\n"
        self.p.stdin.write(t); self.p.stdin.flush()
        lines = []
        while True:
            ln = self.p.stdout.readline()
            if not ln:
                raise RuntimeError("simulator process ended unexpectedly")
            if ln == "INVALID\n":
                return None
            lines.append(ln)
            if ln == "END\n" and sum(1 for x in lines if x == "END\n") == 3:
                break
        return parse_records(lines)[0][0]

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(10)
        except Exception:
            self.p.kill()


def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"\{(0x[0-9a-f]+)\}", text)))
    names = {}
    if pcs:
        p = subprocess.run(["addr2line", "-Cfse", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        out = p.stdout.split("\n")
        for i, pc in enumerate(pcs):
            fn = out[2 * i] if 2 * i < len(out) else "??"
            loc = out[2 * i + 1] if 2 * i + 1 < len(out) else "??"
            fn = re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", fn)))
            names[pc] = "%s (%s)" % (fn[-70:], re.sub(r" \(discriminator.*", "", loc)) if fn != "??" else "?"
    text = re.sub(r"\{(0x[0-9a-f]+)\}", lambda m: "[" + names.get(m.group(1), "?") + "]", text)
    return text.replace(" [?]", "")


# ------------------------------------------------------------------ minimisation

def shrink_specs(spec, keep):
    """Candidate simpler workloads, most drastic first."""
    c = []
    sched = ("strategy", "p_switch", "pct_depth", "pct_len", "burst_mean", "starve_mask")
    for k in sorted(spec):
        if k in keep or k in sched or k == "scenario":
            continue
        v = spec[k]
        if k.startswith("p_") or k in ("access_mean",):
            s = dict(spec); del s[k]; c.append(s)
    for k in sorted(spec):
        if k in keep or k in sched or k in ("scenario", "access_mean") or k.startswith("p_"):
            continue
        v = spec[k]
        parts = v.split(",") if v else []
        if len(parts) > 1 or (parts and re.match(r"^[A-Za-z]", parts[0])):
            n = len(parts)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    if step == n and n == 1:
                        pass
                    s = dict(spec); s[k] = ",".join(parts[:i] + parts[i + step:]); c.append(s)
                step //= 2
            for i, x in enumerate(parts):
                if re.match(r"^\d+$", x):
                    for y in sorted({0, 1, int(x) // 2, int(x) - 1}):
                        if 0 <= y < int(x):
                            s = dict(spec); s[k] = ",".join(parts[:i] + [str(y)] + parts[i + 1:]); c.append(s)
        elif re.match(r"^\d+$", v):
            for y in sorted({0, 1, int(v) // 2, int(v) - 1}):
                if 0 <= y < int(v):
                    s = dict(spec); s[k] = str(y)
                    c.append(s)
                    if k == "threads":   # thread programs follow their number
                        t = {a: b for a, b in s.items() if not (re.match(r"^t\d+$", a) and int(a[1:]) >= y)}
                        c.append(t)
    return c


def ddmin(test, items, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand; some = True
            else:
                i += size
        if not some:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(exe, rec, seed, budget):
    deadline = time.time() + budget
    ex = Exec(exe)
    cls = rec.cls
    best = rec

    def attempt(spec, devs_list, seeds):
        for d in devs_list:
            r = ex.run(spec, dev=d)
            if r is None:
                return None
            if r.failed and r.cls == cls:
                return r
        for s in seeds:
            if time.time() > deadline:
                return None
            r = ex.run(spec, seed=s)
            if r is None:
                return None
            if r.failed and r.cls == cls:
                return r
        return None

    r = ex.run(best.spec, dev=best.dev)
    if r is not None and r.failed and r.cls == cls:
        best = r
        progress = True
        while progress and time.time() < deadline:
            progress = False
            for s in shrink_specs(best.spec, ()):
                if time.time() > deadline:
                    break
                r = attempt(s, [best.dev, []], [seed + 7919 * i for i in range(12)])
                if r is not None:
                    # continue from the recorded deviations of the simpler run
                    best = r; progress = True
                    break
        def test(d):
            nonlocal best
            r = ex.run(best.spec, dev=d)
            if r is not None and r.failed and r.cls == cls:
                best2 = r
                test.last = (d, best2)
                return True
            return False
        test.last = (best.dev, best)
        if test([]):
            items = []
        else:
            items = ddmin(test, list(best.dev), time.time() + max(5, budget / 2))
        r = ex.run(best.spec, dev=items)
        if r is not None and r.failed and r.cls == cls:
            r.dev = items
            best = r
    ex.close()
    return best


# ------------------------------------------------------------------ replay files

def write_replay(path, prop, binary, exe, rec, seed, orig):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("# deterministic replay of a violation of %s; run: python3 %s/check.py replay %s\n" % (prop, VERIF, path))
        f.write("property %s\nbinary %s\nseed %d\nclass %s\nhash %s\nsteps %s\n" % (prop, binary, seed, rec.cls, rec.f.get("hash"), rec.f.get("steps")))
        f.write("SPEC\n" + "".join("%s=%s\n" % kv for kv in sorted(rec.spec.items())) + "END\n")
        f.write("DEV\n" + "".join("%s %d %d\n" % d for d in rec.dev) + "END\n")
        f.write("MSG\n" + symbolise(exe, rec.msg).rstrip("\n") + "\nEND\n")
        f.write("# found with seed %d: %s steps, %d recorded decisions; minimised to %d decisions, %s steps\n"
                % (seed, orig.f.get("steps"), len(orig.dev), len(rec.dev), rec.f.get("steps")))


def read_replay(path):
    h, spec, dev, mode = {}, {}, [], None
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln in ("SPEC", "DEV", "MSG"):
            mode = ln
        elif ln == "END":
            mode = None
        elif mode == "SPEC":
            k, _, v = ln.partition("="); spec[k] = v
        elif mode == "DEV":
            a, b, c = ln.split(); dev.append((a, int(b), int(c)))
        elif mode is None and ln and not ln.startswith("#"):
            k, _, v = ln.partition(" "); h[k] = v
    return h, spec, dev


def cmd_replay(path, verbose):
    h, spec, dev = read_replay(path)
    exe = build(h["binary"])
    if verbose:
        t = "SPEC\n" + "".join("%s=%s\n" % kv for kv in sorted(spec.items())) + "DEV\n" + "".join("%s %d %d\n" % d for d in dev) + "RUN\n"
        p = subprocess.run([exe, "exec", "-v"], input=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(symbolise(exe, p.stdout))
        return 0
    out = []
    for _ in range(2):
        ex = Exec(exe)
        r = ex.run(spec, dev=dev)
        ex.close()
        if r is None:
            err("the workload of the replay file is not valid for this simulator")
        out.append(r)
    a, b = out
    print("replayed twice in fresh processes: class=%s hash=%s / class=%s hash=%s (recorded class=%s hash=%s)"
          % (a.cls, a.f["hash"], b.cls, b.f["hash"], h["class"], h["hash"]))
    if a.failed:
        print(symbolise(exe, a.msg))
    if a.f["hash"] != b.f["hash"]:
        err("replay is not deterministic")
    if a.failed and a.cls == h["class"]:
        print("VIOLATION property=%s replay=%s" % (h["property"], path))
        return 1
    print("not reproduced on this tree")
    return 0


# ------------------------------------------------------------------ known findings

def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.strip():
                e = json.loads(ln)
                if e.get("status") == "known":
                    out.append(e)
    return out


def match_known(prop, rec, text):
    for e in known_findings():
        if e["property"] == prop and e["class"] == rec.cls and re.search(e["match"], text, re.S) and \
           all(re.search(v, rec.spec.get(k, "")) for k, v in e.get("spec", {}).items()):
            return e
    return None


# ------------------------------------------------------------------ search

def search(prop, exe, base, secs, thorough, workers, maxfail=3, count=10 ** 9):
    tmp = tempfile.mkdtemp(prefix=".run-", dir=BUILD)
    cpus = sorted(os.sched_getaffinity(0))
    procs = []
    for w in range(workers):
        env = dict(os.environ, SIM_CPU=str(cpus[w % len(cpus)]))
        cmd = [exe, "search", prop, str(base), str(count), str(workers), str(w), str(secs), str(maxfail), os.path.join(tmp, "w%d" % w)]
        if thorough:
            cmd.append("thorough")
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    recs, total, hashes = [], None, set()
    for w, p in enumerate(procs):
        _, e = p.communicate()
        if p.returncode != 0:
            for q in procs:
                q.kill()
            shutil.rmtree(tmp, ignore_errors=True)
            err("search worker failed (%d): %s" % (p.returncode, e[-2000:]))
    import array
    for w in range(workers):
        f = os.path.join(tmp, "w%d" % w)
        r, s = parse_records(open(f, errors="replace"))
        recs += r
        if os.path.exists(f + ".hashes"):
            a = array.array("Q"); a.frombytes(open(f + ".hashes", "rb").read()); hashes.update(a)
        if total is None:
            total = s
        else:
            for k, v in s.items():
                if isinstance(v, dict):
                    for a, b in v.items():
                        total[k][a] = total[k].get(a, 0) + b
                elif isinstance(v, list):
                    total[k] += v
                elif k in ("maxsteps", "wall", "last"):
                    total[k] = max(total[k], v)
                else:
                    total[k] += v
    shutil.rmtree(tmp, ignore_errors=True)
    return recs, total, hashes


def write_evidence(prop, tier, seed, stats, hashes, wall, search_wall, violations, findings):
    P = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    runs = int(stats["runs"])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "one evaluation = one simulated execution of the real code, workload and every decision (thread switch, wake-up order, preemption, fault) drawn from one seed; "
                "non-trivial = at least two simulated threads and two context switches; distinct = different hash over the whole sequence of (thread, operation, decision, observation)",
        "samples": stats["sample"][:6],
        "workload": P["workload"],
        "oracle": P["oracle"],
        "runs_per_hour": int(runs / max(search_wall, 1e-9) * 3600),
        "simulated_seconds": round(stats["simns"] / 1e9, 6),
        "scheduling_steps": int(stats["steps"]),
        "context_switches": int(stats["switches"]),
        "instrumented_memory_accesses": int(stats["accesses"]),
        "decisions": int(stats["choices"]),
        "longest_run_steps": int(stats["maxsteps"]),
        "runs_completed": int(stats["completed"]),
        "runs_ended_by_permitted_termination": int(stats["terminated"]),
        "faults_injected": {k: v for k, v in sorted(stats["fault"].items())},
        "runs_by_thread_count": {k: v for k, v in sorted(stats["threads"].items(), key=lambda x: int(x[0]))},
        "situations_reached_in_runs": {PROBES.get(P["probes"], {}).get(int(k), "probe " + k): v for k, v in sorted(stats["probe"].items(), key=lambda x: int(x[0]))},
        "ran_real_code": P["real"],
        "ran_stub": P["stub"],
        "seeds": "%d .. (stride over workers)" % (seed * 100000000),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P["assumptions"], "wall_s": round(wall, 2), "violations": violations,
          "known_findings": findings}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def cmd_check(prop, thorough, secs, seed):
    t0 = time.time()
    P = PROPS[prop]
    exe = build(P["binary"])
    tier = "thorough" if thorough else "quick"
    if secs is None:
        secs = P.get("thorough_secs", 600) if thorough else P.get("quick_secs", 30)
    base = seed * 100000000
    os.makedirs(BUILD, exist_ok=True)
    ts = time.time()
    recs, stats, hashes = search(prop, exe, base, secs, thorough, NCPU)
    sw = time.time() - ts
    for e in known_findings():
        if e["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    fails, seen = [], set()
    for r in sorted((r for r in recs if r and r.failed), key=lambda r: (int(r.f["steps"]), int(r.f["seed"]))):
        if r.cls.startswith("internal"):
            err("simulator failure with seed %s: %s" % (r.f["seed"], symbolise(exe, r.msg)))
        if match_known(prop, r, symbolise(exe, r.msg)):
            continue
        if r.cls in seen:
            continue
        seen.add(r.cls)
        fails.append(r)
    violations = 0
    for r in fails[:3]:
        s = int(r.f["seed"])
        # gate: the same seed twice, in fresh processes, must give the identical execution
        again = []
        for _ in range(2):
            ex = Exec(exe)
            again.append(ex.run(r.spec, seed=s))
            ex.close()
        if any(a is None or a.f["hash"] != r.f["hash"] or a.cls != r.cls for a in again):
            err("seed %d does not reproduce its own execution (class %s hash %s, then %s)"
                % (s, r.cls, r.f["hash"], ["%s %s" % (a.cls, a.f["hash"]) for a in again if a]))
        m = minimise(exe, r, s, 60 if violations == 0 else 25)
        fresh = []
        for _ in range(2):
            ex = Exec(exe)
            fresh.append(ex.run(m.spec, dev=m.dev))
            ex.close()
        if any(f is None or not f.failed or f.cls != r.cls for f in fresh) or fresh[0].f["hash"] != fresh[1].f["hash"]:
            err("the minimised replay of seed %d does not reproduce" % s)
        m2 = fresh[0]; m2.dev = m.dev
        path = os.path.join(REPLAYS, "%s-%s-%d.replay" % (prop, r.cls, s))
        write_replay(path, prop, P["binary"], exe, m2, s, r)
        text = symbolise(exe, m2.msg).rstrip("\n")
        print("seed %d: %s (minimised to %d decisions, %s steps)\n  %s" % (s, r.cls, len(m2.dev), m2.f["steps"], text.replace("\n", "\n  ")[:3000]))
        print("  workload: " + " ".join("%s=%s" % kv for kv in sorted(m2.spec.items())))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations += 1
    write_evidence(prop, tier, seed, stats, hashes, time.time() - t0, sw, violations,
                   [e["what"] for e in known_findings() if e["property"] == prop])
    if violations:
        return 1
    if int(stats["runs"]) < 50:
        err("only %d simulated runs completed in the time allowed" % int(stats["runs"]))
    print("%s held on %d simulated runs (%d distinct non-trivial), %d faults, %.0f s"
          % (prop, int(stats["runs"]), len(hashes), sum(stats["fault"].values()), time.time() - t0))
    return 0


def cmd_determinism(props, n=200):
    bad = 0
    for prop in props or sorted(PROPS):
        exe = build(PROPS[prop]["binary"])
        def part(a, k, cpu):
            return subprocess.run([exe, "hashes", prop, str(a), str(k)], stdout=subprocess.PIPE, text=True,
                                  env=dict(os.environ, SIM_PAD="x" * (cpu * 37))).stdout.split("\n")
        one = [x for x in part(1, n, 0) if x]
        def par(w):
            k = n // w
            with ThreadPoolExecutor(w) as ex:
                return [x for ls in ex.map(lambda i: part(1 + i * k, k, i), range(w)) for x in ls if x]
        runs = [one, par(8), par(20), par(8)]
        # and through the path replays take: workload as text, another process layout
        ex = Exec(exe)
        for x in one[:60]:
            sd = x.split()[0]
            sp = subprocess.run([exe, "spec", prop, sd], stdout=subprocess.PIPE, text=True).stdout
            r = ex.run(dict(l.split("=", 1) for l in sp.split("\n") if l), seed=int(sd))
            if r.f["hash"] != x.split()[1]:
                print("%s: seed %s differs when its workload is read back" % (prop, sd)); bad = 1
        ex.close()
        same = all(r == one for r in runs)
        print("%s: %d seeds x %d passes (1, 8, 20 and 8 processes): %s" % (prop, n, len(runs), "identical" if same else "DIFFERENT"))
        if not same:
            bad = 1
            for r in runs[1:]:
                for a, b in zip(one, r):
                    if a != b:
                        print("   ", a, "|", b); break
    return bad


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] in ("build", "setup"):
        for b in BINARIES:
            print(build(b))
        return 0
    if a[0] == "replay":
        return cmd_replay(a[1], "-v" in a)
    if a[0] == "gencheck":
        return max(subprocess.run([build(b), "gencheck"] + a[1:]).returncode for b in BINARIES)
    if a[0] == "determinism":
        return cmd_determinism(a[1:])
    prop = a[0]
    if prop not in PROPS:
        err("unknown property " + prop)
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    secs = float(a[a.index("--secs") + 1]) if "--secs" in a else None
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1"))
    return cmd_check(prop, thorough, secs, seed)


if __name__ == "__main__":
    sys.exit(main())
