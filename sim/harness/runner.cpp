#include "runner.hpp"

#include <algorithm>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

static std::map<std::string, std::function<void(Spec&, Rng&, bool)>> g_props;
struct Scen { ScenarioFn fn; bool (*validate)(const Spec&); };
static std::map<std::string, Scen> g_scen;
void add_property(const char* id, std::function<void(Spec&, Rng&, bool)> gen) { g_props[id] = std::move(gen); }
void add_scenario(const char* name, ScenarioFn fn, bool (*validate)(const Spec&)) { g_scen[name] = {fn, validate}; }

static const char* KIND[] = {"sched", "notify", "spurious_wakeup", "short_read", "eintr", "eio", "open_fail", "stat_fail", "resize",
    "write_fail", "short_write", "close_fail", "alloc_fail", "thread_fail", "digest_fail", "latency", "user_throw", "job_order", "preempt", "workload"};

void gen_schedule(Spec& s, Rng& r, bool race)
{
    int st = (int)r.below(10);
    if (st <= 3) { s.set("strategy", (long)ST_RANDOM); s.setd("p_switch", r.pick(std::vector<double>{0.01, 0.03, 0.1, 0.3, 0.6, 1.0})); }
    else if (st <= 5) { s.set("strategy", (long)ST_PCT); s.set("pct_depth", r.range(1, 6)); s.set("pct_len", 1l << r.range(5, 13)); }
    else if (st <= 7) { s.set("strategy", (long)ST_STARVE); s.setd("p_switch", r.pick(std::vector<double>{0.02, 0.1, 0.4})); s.set("starve_mask", (long)(r.next() & (r.chance(0.3) ? 0xfe : 0xff) & (r.chance(0.5) ? r.next() : ~0ull))); }
    else if (st == 8) { s.set("strategy", (long)ST_RR); s.setd("p_switch", r.pick(std::vector<double>{0, 0.5})); }
    else { s.set("strategy", (long)ST_BURST); s.setd("burst_mean", r.pick(std::vector<double>{3, 10, 40, 200})); }
    if (r.chance(race ? 0.5 : 0.35)) s.set("access_mean", r.pick({10, 40, 150, 700, 4000}));
    if (r.chance(0.4)) s.setd("p_spurious", r.pick(std::vector<double>{0.002, 0.02}));
    s.set("nprocs", r.range(1, 4));
    if (race) s.set("race", 1);
}

static SimCfg cfg_of(const Spec& s, uint64_t seed)
{
    SimCfg c;
    c.seed = seed;
    c.strategy = (int)s.num("strategy", ST_RANDOM);
    c.p_switch = s.dbl("p_switch", 0.1);
    c.pct_depth = (int)s.num("pct_depth", 3);
    c.pct_len = (uint64_t)s.num("pct_len", 1000);
    c.burst_mean = s.dbl("burst_mean", 20);
    c.starve_mask = (uint64_t)s.num("starve_mask", 0);
    c.access_mean = s.dbl("access_mean", 0);
    c.race = (int)s.num("race", 0);
    c.nprocs = (int)s.num("nprocs", 2);
    c.max_faults = (uint32_t)s.num("max_faults", 1000000);
    c.step_budget = (uint64_t)s.num("step_budget", 400000);
    c.fair_budget = (uint64_t)s.num("fair_budget", 400000);
    c.p[CH_SPURIOUS] = s.dbl("p_spurious", 0);
    for (int k = CH_SHORT_READ; k <= CH_USER_THROW; ++k) c.p[k] = s.dbl(std::string("p_") + KIND[k], 0);
    return c;
}

static SimResult* g_shared;
struct RunArg { const Spec* spec; ScenarioFn fn; };
static void run_entry(void* a) { auto* r = (RunArg*)a; r->fn(*r->spec); }

static bool valid(const Spec& s)
{
    auto it = g_scen.find(s.str("scenario"));
    if (it == g_scen.end()) return false;
    return !it->second.validate || it->second.validate(s);
}

static void one_run(const Spec& spec, SimCfg cfg)
{
    Spec s;   // canonical: same tree and string shapes however the workload was put together (its accesses are counted)
    for (auto& [k, v] : spec.kv) s.kv[std::string(k.c_str())] = std::string(v.c_str());
    SimResult* r = g_shared;
    memset((void*)r, 0, offsetof(SimResult, dev));
    auto it = g_scen.find(s.str("scenario"));
    if (it == g_scen.end()) { r->status = 2; strcpy(r->cls, "internal"); snprintf(r->msg, sizeof r->msg, "no scenario %s", s.str("scenario").c_str()); return; }
    RunArg arg{&s, it->second.fn};
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(300);
        sim_run(&cfg, r, run_entry, &arg);
    }
    if (pid < 0) { r->status = 2; strcpy(r->cls, "internal"); strcpy(r->msg, "fork failed"); return; }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (r->status == 0) {
        r->status = 2;
        strcpy(r->cls, "internal");
        snprintf(r->msg, sizeof r->msg, "run process ended without a verdict, wait status 0x%x", st);
    }
}

static void print_dev(FILE* f, const SimResult* r)
{
    std::vector<SimDev> d(r->dev, r->dev + r->ndev);
    std::stable_sort(d.begin(), d.end(), [](const SimDev& a, const SimDev& b) {
        bool pa = a.kind == CH_PREEMPT, pb = b.kind == CH_PREEMPT;
        return pa != pb ? pa < pb : a.seq < b.seq;
    });
    for (auto& x : d) fprintf(f, "%s %lu %u\n", KIND[x.kind], (unsigned long)x.seq, x.val);
}

static void print_record(FILE* f, const Spec& s, uint64_t seed, const SimResult* r)
{
    fprintf(f, "RECORD\nseed %lu\nstatus %u\nclass %s\nhash %016lx\nsteps %lu\nswitches %lu\naccesses %lu\nthreads %u\noverflow %u\n", (unsigned long)seed, r->status, r->cls,
            (unsigned long)r->hash, (unsigned long)r->steps, (unsigned long)r->switches, (unsigned long)r->accesses, r->nthreads, r->dev_overflow);
    fprintf(f, "SPEC\n%sEND\n", s.text().c_str());
    fprintf(f, "MSG\n%s\nEND\n", r->msg);
    fprintf(f, "DEV\n");
    print_dev(f, r);
    fprintf(f, "END\n");
    fflush(f);
}

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }

static Spec make_spec(const std::string& prop, uint64_t seed, bool thorough)
{
    Spec s;
    uint64_t h = 1469598103934665603ull;
    for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
    Rng r(seed * 1000003ull + h);
    g_props.at(prop)(s, r, thorough);
    return s;
}

static int kind_of(const std::string& n)
{
    for (int i = 0; i < CH_KINDS; ++i) if (n == KIND[i]) return i;
    return -1;
}

static int cmd_search(const std::string& prop, uint64_t base, uint64_t count, uint64_t stride, uint64_t off, double secs, int maxfail, const char* out, bool thorough)
{
    if (!g_props.count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    FILE* f = fopen(out, "w");
    if (!f) return 2;
    double t0 = now_s();
    uint64_t runs = 0, steps = 0, switches = 0, accesses = 0, simns = 0, nontrivial = 0, completed = 0, terminated = 0, maxsteps = 0, choices = 0;
    uint64_t faults[CH_KINDS] = {}, probes[64] = {}, threads_hist[64] = {};
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> fail_cls;
    int fails = 0;
    uint64_t i = off;
    for (; i < count; i += stride) {
        if (now_s() - t0 > secs) break;
        uint64_t seed = base + i;
        Spec s = make_spec(prop, seed, thorough);
        if (!valid(s)) continue; // never happens: `check.py gencheck` looks for it over many seeds
        one_run(s, cfg_of(s, seed));
        SimResult* r = g_shared;
        ++runs;
        steps += r->steps; switches += r->switches; accesses += r->accesses; simns += r->simtime_ns; choices += r->choices;
        if (r->steps > maxsteps) maxsteps = r->steps;
        for (int k = 0; k < CH_KINDS; ++k) faults[k] += r->faults[k];
        for (int k = 0; k < 64; ++k) probes[k] += r->probes[k] ? 1 : 0;
        threads_hist[r->nthreads < 64 ? r->nthreads : 63]++;
        if (r->status == 1) { ++completed; if (r->user[15]) ++terminated; }
        if (r->switches >= 2 && r->nthreads >= 2) { if (hashes.insert(r->hash ^ (std::hash<std::string>{}(s.str("scenario")) * 3)).second) ++nontrivial; }
        if (samples.size() < 3 && r->status == 1 && r->switches > 2) {
            std::string t = "seed=" + std::to_string(seed) + " steps=" + std::to_string(r->steps) + " switches=" + std::to_string(r->switches) + " threads=" + std::to_string(r->nthreads);
            char hb[24]; snprintf(hb, sizeof hb, " hash=%016lx", (unsigned long)r->hash); t += hb;
            for (auto& [k, v] : s.kv) t += " " + k + "=" + v;
            samples.push_back(t);
        }
        if (r->status == 2) {
            fail_cls[r->cls]++;
            if (fails < maxfail) print_record(f, s, seed, r);
            if (++fails >= maxfail) { i += stride; break; }
        }
    }
    fprintf(f, "STATS\nruns %lu\nsteps %lu\nswitches %lu\naccesses %lu\nsimns %lu\nnontrivial %lu\ncompleted %lu\nterminated %lu\nfails %d\nmaxsteps %lu\nchoices %lu\nwall %.3f\nlast %lu\n",
            (unsigned long)runs, (unsigned long)steps, (unsigned long)switches, (unsigned long)accesses, (unsigned long)simns, (unsigned long)nontrivial,
            (unsigned long)completed, (unsigned long)terminated, fails, (unsigned long)maxsteps, (unsigned long)choices, now_s() - t0, (unsigned long)i);
    for (int k = 0; k < CH_KINDS; ++k) if (faults[k]) fprintf(f, "fault %s %lu\n", KIND[k], (unsigned long)faults[k]);
    for (int k = 0; k < 64; ++k) if (probes[k]) fprintf(f, "probe %d %lu\n", k, (unsigned long)probes[k]);
    for (int k = 0; k < 64; ++k) if (threads_hist[k]) fprintf(f, "threads %d %lu\n", k, (unsigned long)threads_hist[k]);
    for (auto& [k, v] : fail_cls) fprintf(f, "failclass %s %lu\n", k.c_str(), (unsigned long)v);
    for (auto& t : samples) fprintf(f, "sample %s\n", t.c_str());
    fprintf(f, "END\n");
    fclose(f);
    std::string hf = std::string(out) + ".hashes";
    if (FILE* g = fopen(hf.c_str(), "wb")) { for (uint64_t h : hashes) fwrite(&h, 8, 1, g); fclose(g); }
    return 0;
}

// Every workload the generators make is one the contract allows.
static int cmd_gencheck(uint64_t base, uint64_t count)
{
    int bad = 0;
    for (auto& [prop, gen] : g_props)
        for (int t = 0; t < 2; ++t)
            for (uint64_t i = 0; i < count; ++i) {
                Spec s = make_spec(prop, base + i, t);
                if (valid(s)) continue;
                if (++bad < 5) printf("%s seed %lu%s: invalid workload\n%s", prop.c_str(), (unsigned long)(base + i), t ? " (thorough)" : "", s.text().c_str());
                break;
            }
    return bad ? 1 : 0;
}

// Candidates on stdin:  SPEC lines... DEVS lines... RUN ; answers a RECORD each.
static int cmd_exec(bool verbose)
{
    char line[1 << 16];
    Spec s;
    std::vector<SimDev> devs;
    int mode = 0;
    bool search = false;
    uint64_t seed = 0;
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        if (!strcmp(line, "SPEC")) { mode = 1; s.kv.clear(); devs.clear(); search = false; continue; }
        if (!strcmp(line, "DEV")) { mode = 2; continue; }
        if (!strncmp(line, "SEARCH ", 7)) { search = true; seed = strtoull(line + 7, nullptr, 10); continue; }
        if (!strcmp(line, "RUN")) {
            if (!valid(s)) { printf("INVALID\n"); fflush(stdout); continue; }
            SimCfg c = cfg_of(s, seed);
            c.verbose = verbose;
            std::stable_sort(devs.begin(), devs.end(), [](const SimDev& a, const SimDev& b) {
                bool pa = a.kind == CH_PREEMPT, pb = b.kind == CH_PREEMPT;
                return pa != pb ? pa < pb : a.seq < b.seq;
            });
            if (!search) { c.replay = 1; c.devs = devs.data(); c.ndevs = (uint32_t)devs.size(); }
            one_run(s, c);
            print_record(stdout, s, seed, g_shared);
            continue;
        }
        if (mode == 1) { char* e = strchr(line, '='); if (e) { *e = 0; s.kv[line] = e + 1; } }
        else if (mode == 2) {
            char k[40]; unsigned long q; unsigned v;
            if (sscanf(line, "%39s %lu %u", k, &q, &v) == 3 && kind_of(k) >= 0) devs.push_back(SimDev{q, v, (uint32_t)kind_of(k)});
        }
    }
    return 0;
}

int runner_main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("SIM_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    register_all();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto& [k, v] : g_props) printf("%s\n", k.c_str()); return 0; }
    g_shared = (SimResult*)mmap(nullptr, sizeof(SimResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sim_init();
    if (cmd == "search" && argc >= 10) {
        if (getenv("SIM_CPU")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(getenv("SIM_CPU")), &cs); sched_setaffinity(0, sizeof cs, &cs); }
        return cmd_search(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), strtoull(argv[6], 0, 10),
                          atof(argv[7]), atoi(argv[8]), argv[9], argc > 10 && !strcmp(argv[10], "thorough"));
    }
    if (cmd == "exec") return cmd_exec(argc > 2 && !strcmp(argv[2], "-v"));
    if (cmd == "gencheck") return cmd_gencheck(argc > 2 ? strtoull(argv[2], 0, 10) : 1, argc > 3 ? strtoull(argv[3], 0, 10) : 100000);
    if (cmd == "spec" && argc >= 4) { printf("%s", make_spec(argv[2], strtoull(argv[3], 0, 10), argc > 4).text().c_str()); return 0; }
    if (cmd == "one" && argc >= 4) {
        uint64_t seed = strtoull(argv[3], 0, 10);
        Spec s = make_spec(argv[2], seed, false);
        SimCfg c = cfg_of(s, seed);
        c.verbose = argc > 4;
        one_run(s, c);
        print_record(stdout, s, seed, g_shared);
        return 0;
    }
    if (cmd == "hashes" && argc >= 5) {   // determinism: hash of every seed in a range
        uint64_t a = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
        for (uint64_t i = a; i < a + n; ++i) {
            Spec s = make_spec(argv[2], i, false);
            one_run(s, cfg_of(s, i));
            printf("%lu %016lx %lu %u %s\n", (unsigned long)i, (unsigned long)g_shared->hash, (unsigned long)g_shared->steps, g_shared->status, g_shared->cls);
        }
        return 0;
    }
    fprintf(stderr, "usage: search PROP BASE COUNT STRIDE OFF SECS MAXFAIL OUT [thorough] | exec | one PROP SEED | spec PROP SEED | hashes PROP A N | list\n");
    return 2;
}
int main(int argc, char** argv) { return runner_main(argc, argv); }
