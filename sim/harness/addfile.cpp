// C23: adding files from a disk that other processes are changing.
#include "runner.hpp"

#include <filesystem>
#include <map>
#include <string>
#include <thread>
#include <vector>

#include "dottorrent/file_storage.hpp"

namespace dt = dottorrent;
namespace sfs = std::filesystem;

namespace {

const std::string ROOT = "/simfs/r", CWD = "/simfs/cwd";

struct Node { int kind = 0; size_t size = 0; bool exec = false; std::string target; };   // 0 absent, 1 regular, 2 directory, 3 link
using Disk = std::map<std::string, Node>;

// files the workload knows, below the root and outside
const char* NAMES[] = {"/simfs/r/a", "/simfs/r/d/b", "/simfs/r/..c", "/simfs/r/d/e/f", "/simfs/r/l", "/simfs/r/d/m", "/simfs/x", "/simfs/rr/y"};
const int NN = 8;
// what a caller passes to add, and the file it names
struct Arg { const char* text; int file; };
const Arg ARGS[] = {{"/simfs/r/a", 0}, {"/simfs/r/./a", 0}, {"/simfs/r/d/../a", 0}, {"/simfs/r//a", 0}, {"/simfs/r/d/b", 1}, {"/simfs/r/d/e/../b", 1}, {"/simfs/r/..c", 2},
                    {"/simfs/r/d/e/f", 3}, {"/simfs/r/l", 4}, {"/simfs/r/d/m", 5}, {"/simfs/r/d/../l", 4}, {"/simfs/x", 6}, {"/simfs/r/../x", 6}, {"/simfs/r/d/../../x", 6},
                    {"/simfs/rr/y", 7}, {"/simfs/r/d", -1}, {"/simfs/r/nowhere", -2}, {"../r/a", 0}, {"../r/d/b", 1}, {"../x", 6}, {"/simfs/r/d/e/../../../rr/y", 7}};
const int NA = sizeof ARGS / sizeof *ARGS;
const char* TARGETS[] = {"a", "d/b", "../a", "b", "./a", "/simfs/r/a", "/simfs/r/d/b", "d", "gone", "../x", "../../x", "/simfs/x", "l", "e/f", "/simfs/r/d/e/f", "e"};
const int NT = sizeof TARGETS / sizeof *TARGETS;

std::string lexnorm(const std::string& p) { return sfs::path(p).lexically_normal().generic_string(); }

// the path a link names, absolute
std::string target_of(const std::string& link, const std::string& t)
{
    if (t[0] == '/') return lexnorm(t);
    return lexnorm(link.substr(0, link.rfind('/')) + "/" + t);
}

Node follow(const Disk& d, std::string p)
{
    for (int n = 0; n < 10; ++n) {
        auto it = d.find(p);
        if (it == d.end() || it->second.kind == 0) {
            if (p == ROOT || p == "/simfs/r/d" || p == "/simfs/r/d/e" || p == "/simfs/rr") return {2, 0, false, ""};
            return {};
        }
        if (it->second.kind != 3) return it->second;
        p = target_of(p, it->second.target);
    }
    return {};
}

bool inside(const std::string& p) { return p.rfind(ROOT + "/", 0) == 0; }

struct World {
    std::vector<Disk> versions;     // state of the disk after each change
    Disk now;
    bool ever_dir = true;
} *W;

void set_node(int f, const Node& n)
{
    const char* p = NAMES[f];
    std::string data(n.size, 'z');
    if (n.kind == 0) simfs_remove(p);
    else if (n.kind == 1) { simfs_create(p, data.data(), data.size()); simfs_chmod(p, n.exec ? 0755 : 0644); }
    else if (n.kind == 3) simfs_link(p, n.target.c_str());
    W->now[p] = n;
    W->versions.push_back(W->now);
}

Node node_of(long v)
{
    Node n;
    int k = (int)(v % 10);
    long x = v / 10;
    if (k < 6) { n.kind = 1; n.size = (size_t)(x % 50 == 0 ? 0 : x % 70000); n.exec = k & 1; }
    else if (k < 8) { n.kind = 3; n.target = TARGETS[x % NT]; }
    return n;
}

struct Op {
    long arg = 0;
    int opt = 0;
    size_t v0 = 0, v1 = 0;
    uint64_t faults = 0;
    bool threw = false, unknown = false;
    size_t count0 = 0, count1 = 0, total0 = 0, total1 = 0;
    std::string path, link, what;
    bool symlink = false, haslink = false, hasattr = false, exec = false, hidden = false, pad = false;
    size_t size = 0;
};

const dt::file_options OPT[] = {dt::file_options::none, dt::file_options::add_attributes, dt::file_options::copy_symlinks};

void run_op(dt::file_storage& st, Op& o)
{
    o.count0 = st.file_count();
    o.total0 = st.total_file_size();
    o.v0 = W->versions.size() - 1;
    uint64_t f0 = sim_user_faults();
    sfs::path arg(ARGS[o.arg].text);
    for (int k : {CH_ALLOC_FAIL, CH_STAT_FAIL}) sim_arm(k, 1);
    try { st.add_file(arg, OPT[o.opt]); }
    catch (const std::exception& e) { sim_arm(CH_ALLOC_FAIL, 0); o.threw = true; o.what = e.what(); }
    catch (...) { o.threw = o.unknown = true; }
    for (int k : {CH_ALLOC_FAIL, CH_STAT_FAIL}) sim_arm(k, 0);
    o.faults = sim_user_faults() - f0;
    o.v1 = W->versions.size() - 1;
    o.count1 = st.file_count();
    o.total1 = st.total_file_size();
    if (o.count1 > o.count0) {
        const auto& e = st.at(o.count1 - 1);
        o.path = e.path().generic_string();
        o.size = e.file_size();
        o.symlink = e.is_symlink();
        o.haslink = e.symlink_path().has_value();
        if (o.haslink) o.link = e.symlink_path()->generic_string();
        o.hasattr = e.attributes().has_value();
        o.exec = e.is_executable();
        o.pad = e.is_padding_file();
    }
}

void judge(const Op& o)
{
    const Arg& a = ARGS[o.arg];
    std::string file = a.file >= 0 ? NAMES[a.file] : a.file == -1 ? "/simfs/r/d" : "/simfs/r/nowhere";
    bool copy = o.opt == 2;
    char id[200];
    snprintf(id, sizeof id, "add_file(%s, %s)", a.text, o.opt == 0 ? "none" : o.opt == 1 ? "add_attributes" : "copy_symlinks");
    if (o.unknown) sim_fail("add-unknown", "%s threw something that is not a std::exception", id);
    if (o.threw) {
        sim_probe(2);
        if (o.count1 != o.count0 || o.total1 != o.total0) sim_fail("add-half", "%s failed but the storage changed", id);
        // nothing happened meanwhile: a plain file or link below the root is accepted
        if (o.v0 == o.v1 && !o.faults && inside(file)) {
            const Disk& d = W->versions[o.v0];
            Node n = follow(d, file);
            auto it = d.find(file);
            bool link = it != d.end() && it->second.kind == 3;
            if (!link && n.kind == 1) sim_fail("add-refused", "%s was refused (%s) although the file is there", id, o.what.c_str());
            if (link && n.kind == 1 && !copy) sim_fail("add-refused", "%s was refused (%s) although the link leads to a file", id, o.what.c_str());
            if (link && n.kind && copy && inside(target_of(file, it->second.target))) sim_fail("add-refused", "%s was refused (%s) although the link is valid", id, o.what.c_str());
        }
        return;
    }
    sim_probe(1);
    if (o.count1 != o.count0 + 1) sim_fail("add-count", "%s returned, %zu files before, %zu after", id, o.count0, o.count1);
    if (o.total1 != o.total0 + o.size) sim_fail("add-total", "%s added %zu bytes, the total went from %zu to %zu", id, o.size, o.total0, o.total1);
    if (!inside(file)) sim_fail("add-outside", "%s accepted a file outside the root directory as %s", id, o.path.c_str());
    if (o.path != file.substr(ROOT.size() + 1)) sim_fail("add-path", "%s recorded the path %s", id, o.path.c_str());
    if (o.pad) sim_fail("add-attributes", "%s made a padding entry", id);
    if (o.hasattr != (o.opt != 0)) sim_fail("add-attributes", "%s %s attributes", id, o.hasattr ? "recorded" : "did not record");
    if (o.symlink != o.haslink) sim_fail("add-link", "%s: link attribute and target disagree", id);
    if (o.symlink && !copy) sim_fail("add-link", "%s added a link instead of the file it leads to", id);
    bool ok_link = false, ok_plain = false, ok_size = false, ok_exec = false, ok_noexec = false, ok_file = false;
    for (size_t v = o.v0; v <= o.v1; ++v) {
        const Disk& d = W->versions[v];
        auto it = d.find(file);
        bool link = it != d.end() && it->second.kind == 3;
        Node n = follow(d, file);
        if (link) { std::string t = target_of(file, it->second.target); if (inside(t) && t.substr(ROOT.size() + 1) == o.link) ok_link = true; }
        else ok_plain = true;
        if (n.kind == 1) { ok_file = true; if (n.size == o.size) ok_size = true; (n.exec ? ok_exec : ok_noexec) = true; }
    }
    if (o.symlink) {
        sim_probe(3);
        if (!ok_link) sim_fail("add-link", "%s recorded the link target %s, which the link never had", id, o.link.c_str());
        if (o.size) sim_fail("add-size", "%s recorded a link of %zu bytes", id, o.size);
        return;
    }
    if (copy && !ok_plain) sim_fail("add-link", "%s added the file although it was a link all the time", id);
    if (!ok_file) sim_fail("add-kind", "%s was accepted although there never was a file", id);
    if (!ok_size) sim_fail("add-size", "%s recorded a size of %zu, which the file never had", id, o.size);
    if (o.v1 > o.v0) sim_probe(4);
    if (o.opt && !(o.exec ? ok_exec : ok_noexec || o.v1 > o.v0)) sim_fail("add-attributes", "%s: wrong executable flag (%d)", id, (int)o.exec);
}

void scenario_addfile(const Spec& s)
{
    for (int k : {CH_ALLOC_FAIL, CH_STAT_FAIL}) sim_arm_all(k, 0);
    World world;
    W = &world;
    simfs_mkdir("/simfs/r/d/e");
    simfs_mkdir("/simfs/r/d");
    simfs_mkdir("/simfs/r");
    simfs_mkdir("/simfs/rr");
    simfs_mkdir("/simfs/cwd");
    auto init = s.list("init");
    for (int i = 0; i < NN && i < (int)init.size(); ++i) set_node(i, node_of(init[(size_t)i]));
    if (world.versions.empty()) world.versions.push_back(world.now);

    int nt = (int)s.num("adders", 1);
    auto ops = s.list("ops");
    std::vector<std::vector<Op>> todo((size_t)nt);
    for (size_t i = 0; i < ops.size(); ++i) { Op o; o.arg = ops[i] / 3 % NA; o.opt = (int)(ops[i] % 3); todo[i % (size_t)nt].push_back(o); }
    std::vector<std::thread> th;
    for (auto& v : todo)
        th.emplace_back([&v] {
            dt::file_storage st;
            st.set_root_directory("/simfs/r");
            for (auto& o : v) run_op(st, o);
        });
    auto muts = s.list("muts");
    th.emplace_back([&] {
        for (long m : muts) {
            sim_wait_steps((uint64_t)(m % 13));
            m /= 13;
            int f = (int)(m % NN);
            Node n = node_of(m / NN);
            auto& old = world.now[NAMES[f]];
            if (old.kind == 1 && n.kind == 1 && n.size != old.size && m % 5) { Node o = old; o.size = n.size; n = o; }   // grows or shrinks
            set_node(f, n);
            sim_probe(5);
        }
    });
    for (auto& t : th) t.join();
    sim_leave();
    for (auto& v : todo) for (auto& o : v) judge(o);
}

bool validate_addfile(const Spec& s)
{
    for (const char* k : {"init", "ops", "muts"}) { auto l = s.list(k); if (l.size() > 40) return false; for (long x : l) if (x < 0) return false; }
    return s.num("adders", 1) >= 1 && s.num("adders", 1) <= 3;
}

void gen_addfile(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "addfile");
    std::vector<long> init, ops, muts;
    for (int i = 0; i < NN; ++i) {
        long k = r.chance(0.1) ? 8 : (i == 4 || i == 5) ? 6 : r.chance(0.85) ? (long)r.below(6) : 6;
        init.push_back((long)r.below(100000) * 10 + k);
    }
    for (int i = 0, n = (int)r.range(1, t ? 12 : 6); i < n; ++i) ops.push_back((long)r.below(NA * 3));
    if (r.chance(0.7)) for (int i = 0, n = (int)r.range(1, t ? 10 : 5); i < n; ++i) muts.push_back((((long)r.below(100000) * 10 + (long)r.below(10)) * NN + (long)r.below(NN)) * 13 + (long)r.below(13));
    s.set("adders", r.range(1, 3));
    s.setlist("init", init);
    s.setlist("ops", ops);
    s.setlist("muts", muts);
    if (r.chance(0.4)) s.setd("p_stat_fail", r.pick(std::vector<double>{0.05, 0.3}));
    if (r.chance(0.3)) s.set("max_faults", 1);
    if (r.chance(0.2)) s.setd("p_latency", 0.3);
    if (r.chance(0.1)) { s.setd("p_alloc_fail", 0.02); }
}

} // namespace

void register_addfile()
{
    add_scenario("addfile", scenario_addfile, validate_addfile);
    add_property("C23", gen_addfile);
}
