// C01-C09, C14, C15, C18, C19: the hashing and verification pipeline on simulated files.
#include "pipe_model.hpp"
#include <optional>
#include <thread>
#include "dottorrent/checksum.hpp"
#include "dottorrent/storage_hasher.hpp"
#include "dottorrent/storage_verifier.hpp"

using namespace pmod;
namespace dt = dottorrent;

namespace pmod {

// ------------------------------------------------------------------ generators

static long boundary(Rng& r, long ps, long iob)
{
    const long B = 16384;
    switch (r.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return B + r.range(-1, 1);
    case 3: return ps + r.range(-1, 1);
    case 4: return iob + r.range(-1, 1);
    case 5: return ps * r.range(1, 4);
    case 6: return B * r.range(1, 6);
    case 7: return iob * r.range(1, 2);
    case 8: return 2 * ps + r.range(-1, 1);
    case 9: return r.range(1, 200);
    case 10: return r.range(1, 3 * ps);
    default: return r.range(0, B);
    }
}

void gen_work(Spec& s, Rng& r, bool thorough)
{
    gen_schedule(s, r, false);
    long ps = r.pick({16384, 16384, 16384, 32768, 32768, 65536});
    long iob = ps * r.pick({1, 1, 1, 2, 2, 4});
    if (r.chance(0.03)) iob = 0;
    else if (r.chance(0.05)) iob = r.pick({1l, ps / 2, ps - 1});
    s.set("ps", ps);
    s.set("iob", iob);
    long eff = iob ? std::max(iob, ps) : 1 << 20;
    if (r.chance(0.5)) s.set("mem", eff * r.range(0, 8) + r.pick({0, 1}));
    s.set("threads", r.pick({1, 1, 2, 2, 3, 4}));
    s.set("cseed", r.range(1, 1000));
    int n = (int)(r.chance(0.25) ? 1 : r.range(1, thorough ? 9 : 6));
    long budget = thorough ? 900000 : 320000;
    std::vector<long> f;
    for (int i = 0; i < n; ++i) {
        long z = boundary(r, ps, std::min(eff, 131072l));
        if (z > budget) z = r.range(0, 300);
        budget -= z;
        f.push_back(z);
    }
    if (r.chance(0.1)) for (auto& z : f) z = 0;
    if (n > 1 && r.chance(0.1)) { s.set("same", 1); for (int i = 2; i < n; ++i) if (r.chance(0.6) && f[i - 2] <= budget) { budget -= f[i - 2]; f[i] = f[i - 2]; } }
    if (n > 1 && r.chance(0.25)) s.set("names", r.range(1, 3));
    if (r.chance(0.15)) { std::vector<long> a; for (int i = 0; i < n; ++i) a.push_back(r.chance(0.5) ? (long)r.below(5) : 0); s.setlist("attrs", a); }
    s.setlist("files", f);
}

void gen_read_noise(Spec& s, Rng& r)
{
    if (r.chance(0.5)) s.setd("p_short_read", r.pick(std::vector<double>{0.05, 0.3, 0.8}));
    if (r.chance(0.25)) s.setd("p_eintr", r.pick(std::vector<double>{0.05, 0.3}));
    if (r.chance(0.25)) s.setd("p_latency", r.pick(std::vector<double>{0.1, 0.5}));
}

bool valid_work(const Spec& s)
{
    long ps = s.num("ps", 16384), iob = s.num("iob", 0), t = s.num("threads", 2), p = s.num("proto", 1);
    if (ps != 16384 && ps != 32768 && ps != 65536) return false;
    if (iob && ((iob > ps && iob % ps) || iob > (1 << 20))) return false;
    if (!iob && (1 << 20) % ps) return false;
    if (s.num("autops", 0) && iob % 65536) return false;
    if (t < 1 || t > 8 || p < 1 || p > 3 || s.num("mem", 0) < 0) return false;
    auto f = s.list("files");
    if (f.empty() || f.size() > 20) return false;
    for (long z : f) if (z < 0 || z > 3000000) return false;
    for (long z : s.list("pads")) if (p != 1 || z < 0) return false;
    for (long z : s.list("attrs")) if (z < 0) return false;
    return true;
}

} // namespace pmod

namespace {

const dt::hash_function HF[] = {dt::hash_function::md5, dt::hash_function::sha1, dt::hash_function::sha256, dt::hash_function::sha512, dt::hash_function::blake2b_512, dt::hash_function::sha3_384, dt::hash_function::ripemd160};
const char* HN[] = {"MD5", "SHA1", "SHA256", "SHA512", "BLAKE2b512", "SHA3-384", "RIPEMD160"};

dt::storage_hasher_options hasher_opts(const Work& w, const std::vector<long>& checks)
{
    dt::storage_hasher_options o;
    o.protocol_version = proto_of(w.proto);
    for (long c : checks) o.checksums.insert(HF[c % 7]);
    if (w.iob) o.min_io_block_size = w.iob;
    if (w.mem) o.max_memory = w.mem;
    o.threads = (size_t)w.threads;
    o.enable_multi_buffer_hashing = w.mb;
    return o;
}

template <typename T> void expect_state(const T& h, const char* when, bool started, bool running, bool cancelled, bool done)
{
    auto chk = [&](const char* n, bool got, bool want) { if (got != want) sim_fail("lifecycle-state", "%s: %s() is %s, expected %s", when, n, got ? "true" : "false", want ? "true" : "false"); };
    chk("started", h.started(), started);
    chk("running", h.running(), running);
    chk("cancelled", h.cancelled(), cancelled);
    chk("done", h.done(), done);
}

template <typename F> bool refused(F&& f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}

// ---- checks on a hashed storage; partial: cancelled run, unset values allowed

void check_attributes(const dt::file_entry& e, const MFile& f, size_t i, const char* what)
{
    if (f.pad) return;
    bool attrs = f.attr && f.attr < 4;
    if (e.attributes().has_value() != attrs && (attrs || *e.attributes() != dt::file_attributes::none)) sim_fail("wrong-attributes", "%s: entry %zu has attributes %d, expected %d", what, i, (int)e.attributes().has_value(), (int)attrs);
    if ((e.is_executable() != (f.attr == 2) && f.attr != 3) || e.is_symlink() != (f.attr == 3) || e.is_hidden()) sim_fail("wrong-attributes", "%s: entry %zu has wrong attributes", what, i);
    if (e.symlink_path().has_value() != (f.attr == 3) || (f.attr == 3 && e.symlink_path()->generic_string() != f.link)) sim_fail("wrong-attributes", "%s: entry %zu has the link target %s, expected %s", what, i, e.symlink_path() ? e.symlink_path()->generic_string().c_str() : "(none)", f.link.c_str());
}

void check_hashed(const dt::file_storage& st, const Work& w, const std::vector<long>& checks, bool partial, const char* what)
{
    auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
    if (st.piece_size() != w.ps) sim_fail("wrong-piece-size", "%s: piece size %zu, requested %zu", what, st.piece_size(), w.ps);
    if (st.file_count() != layout.size()) sim_fail("wrong-layout", "%s: %zu entries, expected %zu", what, st.file_count(), layout.size());
    size_t total = 0;
    for (size_t i = 0; i < layout.size(); ++i) {
        const auto& e = st.at(i);
        total += layout[i].size;
        if (e.is_padding_file() != layout[i].pad || e.file_size() != layout[i].size) sim_fail("wrong-layout", "%s: entry %zu is %s of %zu bytes, expected %s of %zu", what, i, e.is_padding_file() ? "padding" : "a file", e.file_size(), layout[i].pad ? "padding" : "a file", layout[i].size);
        check_attributes(e, layout[i], i, what);
        if (!layout[i].pad && e.path().generic_string() != layout[i].name) sim_fail("wrong-layout", "%s: entry %zu is %s, expected %s", what, i, e.path().generic_string().c_str(), layout[i].name.c_str());
    }
    if (st.total_file_size() != total) sim_fail("wrong-layout", "%s: total size %zu, expected %zu", what, st.total_file_size(), total);
    if (w.proto != 2) {
        auto ref = ref_v1(layout, w.ps);
        auto got = st.pieces();
        if (got.size() != ref.size()) sim_fail("v1-piece-count", "%s: %zu pieces, expected %zu", what, got.size(), ref.size());
        for (size_t i = 0; i < ref.size(); ++i) {
            if (partial && is_zero(got[i])) continue;
            if (!same(ref[i], got[i])) sim_fail("v1-piece-wrong", "%s: piece %zu of %zu %s", what, i, ref.size(), is_zero(got[i]) ? "was never hashed" : "has a wrong hash");
        }
    }
    if (w.proto != 1) {
        for (size_t i = 0; i < layout.size(); ++i) {
            if (layout[i].pad || layout[i].size == 0) continue;
            const auto& e = st.at(i);
            if (!e.has_v2_data()) { if (!partial) sim_fail("v2-missing", "%s: file %zu (%zu bytes) has no v2 data", what, i, layout[i].size); continue; }
            auto ref = ref_v2(layout[i].data, w.ps);
            bool unset = partial && is_zero(e.pieces_root());
            if (!unset && !same(ref.root, e.pieces_root())) sim_fail("v2-root-wrong", "%s: file %zu (%zu bytes) has a wrong root", what, i, layout[i].size);
            auto l = e.piece_layer();
            if (partial && l.size() == 0) continue;
            if (l.size() != ref.layer.size()) sim_fail("v2-layer-wrong", "%s: file %zu (%zu bytes) has %zu layer nodes, expected %zu", what, i, layout[i].size, l.size(), ref.layer.size());
            for (size_t k = 0; k < l.size(); ++k) if (!same(ref.layer[k], l[k])) sim_fail("v2-layer-wrong", "%s: layer node %zu of file %zu is wrong", what, k, i);
        }
    }
    for (long c : checks) {
        c %= 7;
        for (size_t i = 0; i < layout.size(); ++i) {
            if (layout[i].pad || layout[i].attr == 3) continue;
            const dt::checksum* cs = st.at(i).get_checksum(HF[c]);
            if (!cs) { if (!partial) sim_fail("checksum-missing", "%s: file %zu of %zu (%zu bytes) has no %s checksum", what, i, layout.size(), layout[i].size, HN[c]); continue; }
            unsigned char ref[64];
            unsigned rl = 0;
            sim_ref_digest(HN[c], layout[i].data.data(), layout[i].size, ref, &rl);
            auto v = cs->value();
            if (v.size() != rl || memcmp(v.data(), ref, rl)) sim_fail("checksum-wrong", "%s: %s of file %zu of %zu (%zu bytes) is wrong", what, HN[c], i, layout.size(), layout[i].size);
        }
    }
}

// without copying contents: allocations are watched
void visit_layout(const Work& w, auto&& fn)
{
    for (size_t i = 0; i < w.files.size(); ++i) {
        fn(w.files[i].size);
        size_t rem = w.files[i].size % w.ps;
        if (w.proto == 3 && i + 1 < w.files.size() && rem && !w.files[i].pad) fn(w.ps - rem);
    }
}
size_t regular_total(const Work& w) { size_t t = 0; for (auto& f : w.files) if (!f.pad) t += f.size; return t; }
size_t layout_total(const Work& w) { size_t t = 0; visit_layout(w, [&](size_t n) { t += n; }); return t; }

// ---- progress observation (C14)

struct Progress {
    size_t rd = 0, hs = 0, dn = 0, max_rd = 0, max_hs = 0, max_dn = 0;
    size_t polls = 0;
};

template <typename T> void poll(const T& h, Progress& p, const Work& w, const std::vector<size_t>& fsize, bool file_progress)
{
    size_t rd = h.bytes_read(), hs = h.bytes_hashed(), dn = h.bytes_done();
    if (rd < p.rd || hs < p.hs || dn < p.dn) sim_fail("progress-decreased", "progress went from %zu/%zu/%zu to %zu/%zu/%zu bytes read/hashed/done", p.rd, p.hs, p.dn, rd, hs, dn);
    p.rd = rd; p.hs = hs; p.dn = dn;
    ++p.polls;
    size_t total = layout_total(w);
    if (dn > total) sim_fail("progress-bound", "%zu bytes done of %zu", dn, total);
    if (rd > total) sim_fail("progress-bound", "%zu bytes read of %zu", rd, total);
    if (file_progress) {
        auto fp = h.current_file_progress();
        if (fp.file_index >= fsize.size()) sim_fail("progress-file", "the current file is %zu of %zu", fp.file_index, fsize.size());
        if (fp.bytes_hashed > fsize[fp.file_index]) sim_fail("progress-file", "%zu bytes of file %zu are done, it has %zu", fp.bytes_hashed, fp.file_index, fsize[fp.file_index]);
    }
}

std::vector<size_t> entry_sizes(const Work& w)
{
    std::vector<size_t> r;
    visit_layout(w, [&](size_t n) { r.push_back(n); });
    return r;
}

void check_final_progress(const Progress& p, const Work& w)
{
    size_t reg = regular_total(w), tot = layout_total(w);
    if (p.rd < reg || p.rd > tot) sim_fail("progress-final", "%zu bytes read after completion, the files have %zu", p.rd, reg);
    size_t want = w.proto == 1 ? tot : reg;
    if (p.dn != want) sim_fail("progress-final", "%zu bytes done after completion, the files have %zu", p.dn, want);
    size_t hashed = w.proto == 3 ? reg + tot : want;
    if (p.hs != hashed) sim_fail("progress-final", "%zu bytes hashed after completion, %zu were there to hash", p.hs, hashed);
}

// ---- one complete hashing run

struct HashRun {
    Work w;
    std::vector<long> checks;
    dt::file_storage st;
    Progress prog;
};

void do_hash(HashRun& r, const Spec& s, bool fresh)
{
    if (fresh) fill_storage(r.st, r.w);
    dt::storage_hasher h(r.st, hasher_opts(r.w, r.checks));
    if (r.w.autops) r.w.ps = r.st.piece_size();
    auto sizes = entry_sizes(r.w);
    long polls = s.num("polls", 0);
    h.start();
    std::thread poller;
    if (s.num("poller", 0)) poller = std::thread([&] { for (long i = 0; i < polls; ++i) { poll(h, r.prog, r.w, sizes, true); sim_wait_steps(1 + (uint64_t)i * 3); } });
    else for (long i = 0; i < polls; ++i) { poll(h, r.prog, r.w, sizes, true); sim_wait_steps((uint64_t)s.num("pollgap", 10)); }
    h.wait();
    if (poller.joinable()) poller.join();
    if (!h.done() || h.running()) sim_fail("lifecycle-state", "not done after wait returned");
    poll(h, r.prog, r.w, sizes, true);
}

// Hybrid hashing also keeps one shared zero block of at most a piece (which a vector may over-allocate).
void check_memory(const Work& w)
{
    uint64_t live, peak, bytes, largest;
    sim_big_alloc_stats(&live, &peak, &bytes, &largest);
    size_t blk = io_block(w), cap = capacity(w) + (w.proto == 3);
    if (peak > cap) sim_fail("memory-bound", "%lu file-data buffers were alive at the same time, the limit is %zu (threads %d, max memory %zu, block %zu)", (unsigned long)peak, cap, w.threads, w.mem, blk);
    if (largest > std::max(blk, w.proto == 3 ? 2 * w.ps : 0) + 4096) sim_fail("memory-bound", "a file-data buffer of %lu bytes exceeds the I/O block size %zu", (unsigned long)largest, blk);
    if (live) sim_fail("memory-leak", "%lu file-data buffers are alive after the run object was destroyed", (unsigned long)live);
    if (peak >= 2) sim_probe(2);
    if (peak >= capacity(w)) sim_probe(3);
}

// Plain hashing (C01-C04, C07, C14, C18).
void scenario_hash(const Spec& s)
{
    Work w = work_of(s);
    put_files(w);
    bool mem = s.num("memcheck", 0);
    size_t blk = io_block(w);
    int par = (int)s.num("par", 1);
    std::vector<std::unique_ptr<HashRun>> runs;
    runs.push_back(std::make_unique<HashRun>());
    runs[0]->w = w;
    runs[0]->checks = s.list("checks");
    for (int i = 1; i < par; ++i) {
        Spec s2 = s;
        s2.set("cseed", s.num("cseed", 1) + 7 * i);
        s2.set("proto", 1 + (s.num("proto", 1) + i - 1) % 3);
        s2.kv.erase("pads");
        runs.push_back(std::make_unique<HashRun>());
        runs[i]->w = work_of(s2, "/simfs/q" + std::to_string(i));
        put_files(runs[i]->w);
    }
    if (mem) sim_big_alloc_watch(blk);
    if (par == 1) do_hash(*runs[0], s, true);
    else {
        std::vector<std::thread> th;
        for (auto& r : runs) th.emplace_back([&s, &r] { do_hash(*r, s, true); });
        for (auto& t : th) t.join();
    }
    if (mem) {
        check_memory(w);
    }
    bool again = s.num("again", 0);
    std::unique_ptr<HashRun> second;
    if (again) {   // the same storage once more
        second = std::make_unique<HashRun>();
        second->w = runs[0]->w;
        second->checks = runs[0]->checks;
        second->st = runs[0]->st;
        do_hash(*second, s, false);
        sim_probe(4);
    }
    if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after completion", sim_live_threads() - 1);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after completion", simfs_open_count());
    sim_leave();
    for (auto& r : runs) {
        check_hashed(r->st, r->w, r->checks, false, "hashing");
        check_final_progress(r->prog, r->w);
    }
    if (second) check_hashed(second->st, second->w, second->checks, false, "second hashing");
    sim_probe(1);
}

// ---- verification

struct OnDisk { bool there = true; Bytes data; };

std::vector<OnDisk> apply_damage(const Work& w, const std::vector<long>& dmg)
{
    std::vector<OnDisk> d(w.files.size());
    for (size_t i = 0; i < w.files.size(); ++i) d[i].data = w.files[i].data;
    for (long x : dmg) {
        size_t i = (size_t)(x / 10000000) % w.files.size();
        long kind = (x / 1000000) % 10;
        size_t at = (size_t)(x % 1000000);
        if (w.files[i].pad || w.files[i].attr == 3 || !d[i].there) continue;
        auto& b = d[i].data;
        switch (kind) {
        case 0: d[i].there = false; b.clear(); break;
        case 1: case 2: if (!b.empty()) b[at % b.size()] ^= 0x80; break;
        case 3: if (!b.empty()) b.back() ^= 0x40; break;
        case 4: case 5: if (!b.empty()) b.resize(at % b.size()); break;
        case 6: b.insert(b.end(), 1 + at % 40000, 0x77); break;
        case 7: if (!b.empty()) b.resize(b.size() - 1); break;
        case 8: if (!b.empty()) b[0] ^= 0x20; break;
        case 9: { size_t k = b.size() / 16384 * 16384; if (k < b.size()) b.resize(k); else if (k >= 16384) b.resize(k - 16384); break; }
        }
    }
    for (size_t i = 0; i < w.files.size(); ++i) {
        if (w.files[i].pad || w.files[i].attr == 3) continue;
        std::string p = disk_path(w, w.files[i]);
        if (!d[i].there) simfs_remove(p.c_str());
        else simfs_create(p.c_str(), d[i].data.data(), d[i].data.size());
    }
    return d;
}

// byte ranges of file i that are present and unaltered
bool intact(const MFile& f, const OnDisk& d, size_t from, size_t to)
{
    if (f.pad) return true;
    if (from >= to) return true;
    if (!d.there || d.data.size() < to) return false;
    return memcmp(f.data.data() + from, d.data.data() + from, to - from) == 0;
}

// storage carrying the reference metadata of the undamaged files
void fill_metadata(dt::file_storage& st, const Work& w, const std::vector<MFile>& layout)
{
    namespace fs = std::filesystem;
    st.set_root_directory(fs::path(w.root));
    st.set_piece_size(w.ps);
    for (auto& f : layout) {
        if (f.pad) { st.add_file(dt::make_padding_file_entry(f.size)); continue; }
        using enum dt::file_attributes;
        dt::file_entry e = f.attr == 3 ? dt::file_entry(fs::path(f.name), 0, symlink, fs::path(f.link)) : f.attr && f.attr < 4 ? dt::file_entry(fs::path(f.name), f.size, f.attr == 2 ? executable : none) : dt::file_entry(fs::path(f.name), f.size);
        if (w.proto != 1 && f.size) {
            auto r = ref_v2(f.data, w.ps);
            dt::sha256_hash h{};
            memcpy((void*)h.data(), r.root.data(), 32);
            e.set_pieces_root(h);
            std::vector<dt::sha256_hash> l(r.layer.size());
            for (size_t k = 0; k < l.size(); ++k) memcpy((void*)l[k].data(), r.layer[k].data(), 32);
            e.set_piece_layer(std::span<const dt::sha256_hash>(l.data(), l.size()));
        }
        st.add_file(std::move(e));
    }
    if (w.proto != 2) {
        auto r = ref_v1(layout, w.ps);
        st.allocate_pieces();
        for (size_t i = 0; i < r.size(); ++i) { dt::sha1_hash h{}; memcpy((void*)h.data(), r[i].data(), 20); st.set_piece_hash(i, h); }
    }
}

// expected result and per-file percentage; as_v1: v1 pieces over the byte stream
void expect_verify(const Work& w, const std::vector<MFile>& layout, const std::vector<OnDisk>& disk, bool as_v1, std::vector<int>& res, std::vector<double>& pct)
{
    std::vector<const OnDisk*> od(layout.size(), nullptr);
    size_t k = 0;
    for (size_t i = 0; i < layout.size(); ++i) {
        // layout = files plus inserted padding
        if (k < w.files.size() && layout[i].name == w.files[k].name && layout[i].pad == w.files[k].pad) od[i] = &disk[k++];
    }
    static const OnDisk none;
    if (as_v1) {
        size_t total = 0;
        std::vector<size_t> start;
        for (auto& f : layout) { start.push_back(total); total += f.size; }
        size_t n = (total + w.ps - 1) / w.ps;
        res.assign(n, 1);
        for (size_t p = 0; p < n; ++p)
            for (size_t i = 0; i < layout.size(); ++i) {
                size_t a = std::max(p * w.ps, start[i]), b = std::min((p + 1) * w.ps, start[i] + layout[i].size);
                if (a < b && !intact(layout[i], od[i] ? *od[i] : none, a - start[i], b - start[i])) res[p] = 0;
            }
        for (size_t i = 0; i < layout.size(); ++i) {
            if (layout[i].size == 0) { pct.push_back(100); continue; }
            size_t a = start[i] / w.ps, b = (start[i] + layout[i].size + w.ps - 1) / w.ps, c = 0;
            for (size_t p = a; p < b; ++p) c += res[p];
            pct.push_back(100.0 * (double)c / (double)(b - a));
        }
    } else {
        for (size_t i = 0; i < layout.size(); ++i) {
            if (layout[i].pad || layout[i].size == 0) { pct.push_back(100); continue; }
            size_t n = (layout[i].size + w.ps - 1) / w.ps, c = 0;
            for (size_t p = 0; p < n; ++p) {
                int ok = intact(layout[i], *od[i], p * w.ps, std::min(layout[i].size, (p + 1) * w.ps));
                res.push_back(ok);
                c += (size_t)ok;
            }
            pct.push_back(100.0 * (double)c / (double)n);
        }
    }
}

dt::storage_verifier_options verifier_opts(const Work& w, bool explicit_proto, bool as_v1)
{
    dt::storage_verifier_options o;
    o.protocol_version = as_v1 ? dt::protocol::v1 : explicit_proto ? proto_of(w.proto) : dt::protocol::none;
    if (w.iob) o.min_io_block_size = w.iob;
    if (w.mem) o.max_memory = w.mem;
    o.threads = (size_t)w.threads;
    o.enable_multi_buffer_hashing = w.mb;
    return o;
}

void check_verdict(const std::vector<uint8_t>& got, const std::vector<int>& want, bool partial)
{
    if (got.size() != want.size()) sim_fail("verify-size", "the result has %zu entries, expected %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        if (got[i] > 1) sim_fail("verify-value", "result entry %zu is %d", i, got[i]);
        if (got[i] && !want[i]) sim_fail("verify-false-ok", "piece %zu of %zu is reported intact but is not", i, got.size());
        if (!got[i] && want[i] && !partial) sim_fail("verify-false-bad", "piece %zu of %zu is intact but not reported so", i, got.size());
    }
}

void scenario_verify(const Spec& s)
{
    Work w = work_of(s);
    put_files(w);
    auto disk = apply_damage(w, s.list("damage"));
    auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
    bool as_v1 = w.proto == 1 || (w.proto == 3 && s.num("asv1", 0));
    bool ver_all_empty = true;
    for (auto& f : w.files) if (f.size) ver_all_empty = false;
    dt::file_storage st;
    fill_metadata(st, w, layout);
    std::vector<uint8_t> got;
    std::vector<double> gp;
    bool mem = s.num("memcheck", 0);
    Progress prog;
    auto sizes = entry_sizes(w);
    if (mem) sim_big_alloc_watch(io_block(w));
    {
        dt::storage_verifier v(st, verifier_opts(w, s.num("explicit", 0) || ver_all_empty, as_v1));
        long polls = s.num("polls", 0);
        v.start();
        std::thread poller;
        if (s.num("poller", 0)) poller = std::thread([&] { for (long i = 0; i < polls; ++i) { poll(v, prog, w, sizes, true); sim_wait_steps(1 + (uint64_t)i * 3); } });
        else for (long i = 0; i < polls; ++i) { poll(v, prog, w, sizes, true); sim_wait_steps((uint64_t)s.num("pollgap", 10)); }
        v.wait();
        if (poller.joinable()) poller.join();
        poll(v, prog, w, sizes, true);
        if (!v.done() || v.running() || v.cancelled()) sim_fail("lifecycle-state", "not done after wait returned");
        got = v.result();
        for (size_t i = 0; i < layout.size(); ++i) {
            gp.push_back(v.percentage(i));
            if (!mem && !layout[i].pad && s.num("byentry", 0) && v.percentage(st.at(i)) != gp[i]) sim_fail("verify-percentage", "file %zu is %.2f %% complete by its index, %.2f %% by its entry", i, gp[i], v.percentage(st.at(i)));
        }
    }
    if (mem) {
        check_memory(w);
    }
    if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after completion", sim_live_threads() - 1);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after completion", simfs_open_count());
    sim_leave();
    std::vector<int> want;
    std::vector<double> wp;
    expect_verify(w, layout, disk, as_v1, want, wp);
    check_verdict(got, want, false);
    for (size_t i = 0; i < wp.size(); ++i)
        if (gp[i] < wp[i] - 0.01 || gp[i] > wp[i] + 0.01) sim_fail("verify-percentage", "file %zu of %zu (%zu bytes) is reported %.2f %% complete, expected %.2f %%", i, wp.size(), layout[i].size, gp[i], wp[i]);
    size_t done = as_v1 ? layout_total(w) : regular_total(w);
    if (prog.dn != done) sim_fail("progress-final", "%zu bytes done after verification, the files have %zu", prog.dn, done);
    if (prog.hs > prog.dn) sim_fail("progress-final", "%zu bytes hashed after verification of %zu", prog.hs, prog.dn);
    for (int x : want) if (!x) { sim_probe(11); break; }
    sim_probe(10);
}

// ---- cancellation

void scenario_cancel(const Spec& s)
{
    Work w = work_of(s);
    put_files(w);
    bool verify = s.num("verify", 0);
    long delay = s.num("delay", 0);
    bool before = s.num("before", 0);
    auto checks = s.list("checks");
    if (!verify) {
        HashRun r;
        r.w = w;
        r.checks = checks;
        fill_storage(r.st, w);
        {
            dt::storage_hasher h(r.st, hasher_opts(w, checks));
            expect_state(h, "before start", false, false, false, false);
            if (!before) { h.start(); expect_state(h, "after start", true, true, false, false); sim_wait_steps((uint64_t)delay); }
            h.cancel();
            expect_state(h, "after cancel", !before, false, true, true);
            if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after cancel returned", sim_live_threads() - 1);
        }
        sim_probe(20);
        HashRun again;
        bool redo = s.num("again", 0);
        if (redo) {
            again.w = w;
            fill_storage(again.st, w);
            dt::storage_hasher h(again.st, hasher_opts(w, {}));
            h.start();
            h.wait();
            sim_probe(21);
        }
        if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after cancellation", simfs_open_count());
        sim_leave();
        bool complete = true;
        for (auto& p : r.st.pieces()) if (is_zero(p)) complete = false;
        if (!complete) sim_probe(22);
        check_hashed(r.st, w, checks, true, "cancelled hashing");
        if (redo) check_hashed(again.st, w, {}, false, "hashing after a cancelled run");
    } else {
        auto disk = apply_damage(w, s.list("damage"));
        auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
        dt::file_storage st;
        fill_metadata(st, w, layout);
        std::vector<uint8_t> got;
        {
            dt::storage_verifier v(st, verifier_opts(w, true, w.proto == 1));
            expect_state(v, "before start", false, false, false, false);
            if (!before) { v.start(); expect_state(v, "after start", true, true, false, false); sim_wait_steps((uint64_t)delay); }
            v.cancel();
            expect_state(v, "after cancel", !before, false, true, true);
            if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after cancel returned", sim_live_threads() - 1);
            if (!before) got = v.result();
        }
        sim_probe(23);
        if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after cancellation", simfs_open_count());
        sim_leave();
        if (!before) {
            std::vector<int> want;
            std::vector<double> wp;
            expect_verify(w, layout, disk, w.proto == 1, want, wp);
            check_verdict(got, want, true);
        }
    }
}

// ---- I/O failures (C09)

void scenario_iofail(const Spec& s)
{
    Work w = work_of(s);
    put_files(w);
    HashRun r;
    r.w = w;
    r.checks = s.list("checks");
    for (int k : {CH_EIO, CH_OPEN_FAIL, CH_STAT_FAIL, CH_RESIZE, CH_CLOSE_FAIL}) sim_arm_all(k, 0);
    fill_storage(r.st, w);
    auto dmg = s.list("lost");
    std::vector<bool> hit(w.files.size());
    for (long x : dmg) {   // files that vanish, become unreadable or change size after the storage was set up
        size_t i = (size_t)(x / 10000000) % w.files.size();
        long kind = (x / 1000000) % 10, at = x % 1000000;
        if (w.files[i].pad || w.files[i].attr == 3 || hit[i]) continue;
        hit[i] = true;
        sim_count_fault();
        std::string p = disk_path(w, w.files[i]);
        if (kind == 0) simfs_remove(p.c_str());
        else if (kind == 1) simfs_set_unreadable(p.c_str(), 13);
        else if (kind == 2) simfs_resize(p.c_str(), w.files[i].size ? (size_t)at % w.files[i].size : 0, 5);
        else if (kind == 3) simfs_resize(p.c_str(), w.files[i].size + 1 + (size_t)at % 40000, 5);
        else if (kind == 4) simfs_set_resize_target(p.c_str(), -(long)(1 + (size_t)at % (w.files[i].size + 1)), 5);
        else simfs_set_resize_target(p.c_str(), 1 + at % 40000, 5);
    }
    for (int k : {CH_EIO, CH_OPEN_FAIL, CH_STAT_FAIL, CH_RESIZE, CH_CLOSE_FAIL}) sim_arm_all(k, 1);
    sim_expect_terminate("io-failure");
    bool threw = false;
    try { do_hash(r, s, false); } catch (const std::exception&) { threw = true; }
    uint64_t f = sim_user_faults();
    if (threw) { sim_probe(30); if (!f && dmg.empty()) sim_fail("io-spurious-error", "hashing failed although nothing went wrong"); sim_end(); }
    sim_leave();
    check_hashed(r.st, w, r.checks, false, f || !dmg.empty() ? "hashing that completed normally in spite of an I/O failure" : "hashing");
    sim_probe(31);
}

// ---- refused threads and memory (C22)

void scenario_resfail(const Spec& s)
{
    for (int k : {CH_ALLOC_FAIL, CH_THREAD_FAIL, CH_EVP_FAIL}) sim_arm_all(k, 0);
    Work w = work_of(s);
    put_files(w);
    bool verify = s.num("verify", 0), cancel = s.num("cancel", 0);
    long delay = s.num("delay", 0);
    auto checks = verify ? std::vector<long>() : s.list("checks");
    auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
    HashRun r, again;
    r.w = w;
    std::vector<OnDisk> disk;
    std::vector<uint8_t> got;
    if (verify) { disk = apply_damage(w, s.list("damage")); fill_metadata(r.st, w, layout); } else fill_storage(r.st, w);
    auto ho = hasher_opts(w, checks);
    auto vo = verifier_opts(w, true, w.proto == 1);
    got.reserve(1000);
    // a refused thread is reported by an exception; failing allocations and digests in workers end the process
    bool hard = s.dbl("p_alloc_fail", 0) > 0 || s.dbl("p_digest_fail", 0) > 0;
    if (hard) sim_expect_terminate("refused resource");
    auto arm = [](int on) { for (int k : {CH_ALLOC_FAIL, CH_THREAD_FAIL, CH_EVP_FAIL}) sim_arm_all(k, on); };
    bool threw = false, retry = s.num("retry", 0) && !hard;
    auto start = [&](auto& x) {
        try { x.start(); return; } catch (const std::exception&) { if (!retry) throw; }
        arm(0);
        if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after start failed", sim_live_threads() - 1);
        expect_state(x, "after a failed start", false, false, false, false);
        sim_probe(33);
        x.start();
    };
    arm(1);
    try {
        if (verify) {
            dt::storage_verifier v(r.st, vo);
            start(v);
            if (cancel) { sim_wait_steps((uint64_t)delay); v.cancel(); } else v.wait();
            got = v.result();
        } else {
            dt::storage_hasher h(r.st, ho);
            start(h);
            if (cancel) { sim_wait_steps((uint64_t)delay); h.cancel(); } else h.wait();
        }
    } catch (const std::exception&) { threw = true; }
    arm(0);
    sim_faults_off();
    if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after the object was destroyed", sim_live_threads() - 1);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after the object was destroyed", simfs_open_count());
    if (sim_evp_live() > 0) sim_fail("digest-leak", "%ld digest contexts are alive after the object was destroyed", (long)sim_evp_live());
    if (threw && !sim_user_faults()) sim_fail("spurious-error", "a run failed although nothing was refused");
    sim_probe(threw ? 30 : 31);
    bool redo = threw && !verify;
    if (redo) {     // with the resources back a new run works
        again.w = w;
        fill_storage(again.st, w);
        dt::storage_hasher h(again.st, ho);
        h.start();
        h.wait();
        sim_probe(32);
    }
    sim_leave();
    if (redo) check_hashed(again.st, w, checks, false, "hashing after a failed run");
    if (!verify) { if (!threw) check_hashed(r.st, w, checks, cancel, cancel ? "cancelled hashing" : "hashing"); return; }
    if (threw) return;
    std::vector<int> want;
    std::vector<double> wp;
    expect_verify(w, layout, disk, w.proto == 1, want, wp);
    check_verdict(got, want, cancel);
}

// ---- lifecycle (C19)

template <typename T> void lifecycle_ops(T& h, const std::vector<long>& ops, bool& completed, bool& was_cancelled)
{
    // model: 0 created, 1 running, 2 done (waited), 3 cancelled before start, 4 cancelled while running
    int m = 0;
    auto check = [&](const char* when) {
        expect_state(h, when, m == 1 || m == 2 || m == 4, m == 1, m == 3 || m == 4, m >= 2);
    };
    check("after creation");
    for (long op : ops) {
        if (op == 0) {              // start
            if (m == 1) continue;   // starting twice is not specified
            bool r = refused([&] { h.start(); });
            if (m >= 2 && !r) sim_fail("lifecycle-order", "start was accepted by a %s object", m == 2 ? "finished" : "cancelled");
            if (m == 0) { if (r) sim_fail("lifecycle-order", "start was refused by a fresh object"); m = 1; }
            check("after start");
        } else if (op == 1) {       // wait
            bool r = refused([&] { h.wait(); });
            if (m == 1) { if (r) sim_fail("lifecycle-order", "wait was refused by a running object"); m = 2; completed = true; }
            else if (!r) sim_fail("lifecycle-order", "wait was accepted in state %d", m);
            check("after wait");
        } else if (op == 2) {       // cancel
            bool r = refused([&] { h.cancel(); });
            if (m >= 2) { if (!r) sim_fail("lifecycle-order", "cancel was accepted by a finished or cancelled object"); }
            else { if (r) sim_fail("lifecycle-order", "cancel was refused in state %d", m); m = m == 0 ? 3 : 4; was_cancelled = true; }
            check("after cancel");
        } else sim_wait_steps((uint64_t)op);
        check("later");
    }
    if (m == 1) { h.wait(); m = 2; completed = true; check("after the final wait"); }
}

void scenario_life(const Spec& s)
{
    Work w = work_of(s);
    put_files(w);
    auto ops = s.list("ops");
    bool completed = false, canc = false;
    if (!s.num("verify", 0)) {
        HashRun r;
        r.w = w;
        r.checks = s.list("checks");
        fill_storage(r.st, w);
        {
            dt::storage_hasher h(r.st, hasher_opts(w, r.checks));
            if (&h.storage() != &r.st || h.protocol() != proto_of(w.proto)) sim_fail("lifecycle-state", "storage() or protocol() differ from what was given");
            lifecycle_ops(h, ops, completed, canc);
        }
        if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive after the object was destroyed", sim_live_threads() - 1);
        bool second = s.num("again", 0);
        if (second) {   // a later run on the same storage
            dt::storage_hasher h(r.st, hasher_opts(w, r.checks));
            h.start();
            h.wait();
            sim_probe(42);
        }
        sim_leave();
        if (completed || second) check_hashed(r.st, w, r.checks, false, "hashing");
        sim_probe(completed ? 40 : canc ? 43 : 44);
    } else {
        auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
        dt::file_storage st;
        fill_metadata(st, w, layout);
        bool ok = true;
        {
            dt::storage_verifier v(st, verifier_opts(w, true, w.proto == 1));
            lifecycle_ops(v, ops, completed, canc);
            if (completed) for (auto x : v.result()) if (!x) ok = false;
        }
        if (s.num("again", 0)) {
            dt::storage_verifier v(st, verifier_opts(w, true, w.proto == 1));
            v.start();
            v.wait();
            for (auto x : v.result()) if (!x) ok = false;
            sim_probe(42);
        }
        if (!ok) sim_fail("verify-false-bad", "an intact piece is not reported so");
        sim_probe(completed ? 41 : canc ? 43 : 44);
    }
}

// ------------------------------------------------------------------ properties

void damage(Spec& s, Rng& r)
{
    std::vector<long> d;
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i) d.push_back((long)r.below(10) * 10000000 + (long)r.below(10) * 1000000 + (long)r.below(1000000));
    if (n) s.setlist("damage", d);
}

void hash_gen(Spec& s, Rng& r, bool t, int proto)
{
    s.set("scenario", "hash");
    gen_work(s, r, t);
    gen_read_noise(s, r);
    s.set("proto", proto);
    if (proto == 1 && r.chance(0.15)) { auto f = s.list("files"); std::vector<long> p; for (size_t i = 0; i < f.size(); ++i) if (r.chance(0.3)) p.push_back((long)i); s.setlist("pads", p); }
    if (r.chance(0.2)) { s.set("polls", r.range(1, 5)); s.set("pollgap", r.range(0, 40)); }
    if (r.chance(0.15)) s.set("again", 1);
    if (r.chance(0.05)) { s.set("autops", 1); s.set("iob", 65536 * r.range(0, 2)); }
}

void checks_gen(Spec& s, Rng& r, int lo, int hi)
{
    std::vector<long> c;
    int n = (int)r.range(lo, hi);
    for (int i = 0; i < n; ++i) c.push_back((long)r.below(7));
    if (n) s.setlist("checks", c);
}

void verify_gen(Spec& s, Rng& r, bool t, int proto)
{
    s.set("scenario", "verify");
    gen_work(s, r, t);
    gen_read_noise(s, r);
    s.set("proto", proto);
    damage(s, r);
    s.set("explicit", r.chance(0.5));
    if (r.chance(0.2)) s.set("byentry", 1);
    if (proto == 3 && r.chance(0.2)) s.set("asv1", 1);
    if (r.chance(0.15)) { s.set("polls", r.range(1, 4)); s.set("pollgap", r.range(0, 40)); }
}

void cancel_gen(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "cancel");
    gen_work(s, r, t);
    gen_read_noise(s, r);
    s.set("proto", r.range(1, 3));
    s.set("verify", r.chance(0.35));
    s.set("delay", r.chance(0.2) ? 0 : (long)r.below(r.chance(0.5) ? 60 : 900));
    s.set("before", r.chance(0.05));
    if (s.num("verify")) damage(s, r); else { if (r.chance(0.4)) checks_gen(s, r, 1, 2); s.set("again", r.chance(0.2)); }
}

void life_gen(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "life");
    gen_work(s, r, t);
    s.set("proto", r.range(1, 3));
    s.set("verify", r.chance(0.4));
    std::vector<long> ops;
    int n = (int)r.range(0, 7);
    for (int i = 0; i < n; ++i) ops.push_back(r.chance(0.35) ? 0 : r.chance(0.4) ? 1 : r.chance(0.5) ? 2 : 3 + (long)r.below(100));
    s.setlist("ops", ops);
    s.set("again", r.chance(0.3));
    if (!s.num("verify") && r.chance(0.2)) checks_gen(s, r, 1, 1);
}

} // namespace

#ifndef PIPE_HELPERS_ONLY
void gen_queue_race(Spec&, Rng&, bool);
void gen_pool_race(Spec&, Rng&, bool);
void gen_processor_race(Spec&, Rng&, bool);
void gen_merkle_race(Spec&, Rng&, bool);

void gen_pipe_race(Spec& s, Rng& r, bool t)
{
    int k = (int)r.below(10);
    int proto = (int)r.range(1, 3);
    if (k < 4) { hash_gen(s, r, t, proto); if (r.chance(0.4)) checks_gen(s, r, 1, 2); if (r.chance(0.5)) { s.set("polls", r.range(1, 6)); s.set("poller", r.chance(0.5)); } }
    else if (k < 7) verify_gen(s, r, t, proto);
    else if (k < 9) cancel_gen(s, r, t);
    else { hash_gen(s, r, t, proto); s.set("par", 2); s.set("again", 0); }
    s.set("race", 1);
}

// C21: everything the pipeline does, in a build with multi-buffer hashing
void gen_pipe_mb(Spec& s, Rng& r, bool t)
{
    int proto = (int)r.range(1, 3);
    if (r.chance(0.6)) { hash_gen(s, r, t, proto); if (r.chance(0.2)) checks_gen(s, r, 1, 2); if (r.chance(0.1)) { s.set("par", 2); s.set("again", 0); } }
    else if (r.chance(0.7)) verify_gen(s, r, t, proto);
    else cancel_gen(s, r, t);
    if (s.num("iob", 0) == 0 && r.chance(0.7)) s.set("iob", s.num("ps") * 4);
    if (!s.num("autops", 0) && r.chance(0.06)) s.set("iob", 0);
    if (r.chance(0.15)) s.set("mb", 0);
    if (s.str("scenario") != "cancel" && s.num("par", 1) == 1 && !s.num("again", 0) && !s.num("autops", 0) && r.chance(0.2)) s.set("memcheck", 1);
    if (r.chance(0.3)) s.set("race", 1);
}

bool validate_pipe(const Spec& s)
{
    if (!valid_work(s)) return false;
    for (long c : s.list("checks")) if (c < 0) return false;
    for (const char* k : {"damage", "lost"}) for (long x : s.list(k)) if (x < 0) return false;
    for (long x : s.list("ops")) if (x < 0 || x > 5000) return false;
    return s.num("par", 1) >= 1 && s.num("par", 1) <= 3 && s.num("polls", 0) <= 50;
}

#include "edits.hpp"

void register_pipe()
{
    register_edits();
    add_scenario("hash", scenario_hash, validate_pipe);
    add_scenario("verify", scenario_verify, validate_pipe);
    add_scenario("cancel", scenario_cancel, validate_pipe);
    add_scenario("iofail", scenario_iofail, validate_pipe);
    add_scenario("life", scenario_life, validate_pipe);
    add_scenario("resfail", scenario_resfail, validate_pipe);
    add_property("C01", [](Spec& s, Rng& r, bool t) { hash_gen(s, r, t, 1); });
    add_property("C02", [](Spec& s, Rng& r, bool t) { hash_gen(s, r, t, 2); });
    add_property("C03", [](Spec& s, Rng& r, bool t) { hash_gen(s, r, t, 3); });
    add_property("C04", [](Spec& s, Rng& r, bool t) { hash_gen(s, r, t, (int)r.range(1, 3)); checks_gen(s, r, 1, 3); });
    add_property("C05", [](Spec& s, Rng& r, bool t) { verify_gen(s, r, t, 1); });
    add_property("C06", [](Spec& s, Rng& r, bool t) { verify_gen(s, r, t, (int)r.range(2, 3)); });
    add_property("C07", [](Spec& s, Rng& r, bool t) {
        int proto = (int)r.range(1, 3);
        if (r.chance(0.35)) verify_gen(s, r, t, proto);
        else { hash_gen(s, r, t, proto); if (r.chance(0.3)) checks_gen(s, r, 1, 3); if (r.chance(0.2)) { s.set("par", r.range(2, 3)); s.set("again", 0); } }
        if (r.chance(0.3)) { s.set("threads", 1); s.set("mem", 1); }
        s.setd("p_spurious", r.pick(std::vector<double>{0, 0.01, 0.05}));
    });
    add_property("C08", cancel_gen);
    add_property("C09", [](Spec& s, Rng& r, bool t) {
        hash_gen(s, r, t, (int)r.range(1, 3));
        s.set("scenario", "iofail");
        s.set("autops", 0);
        s.set("again", 0);
        s.set("polls", 0);
        if (r.chance(0.3)) checks_gen(s, r, 1, 2);
        if (r.chance(0.4)) s.setd("p_eio", r.pick(std::vector<double>{0.01, 0.1}));
        if (r.chance(0.2)) s.setd("p_open_fail", r.pick(std::vector<double>{0.1, 0.4}));
        if (r.chance(0.15)) s.setd("p_stat_fail", r.pick(std::vector<double>{0.02, 0.1}));
        if (r.chance(0.1)) s.setd("p_close_fail", 0.3);
        if (r.chance(0.5)) {
            std::vector<long> l;
            for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) l.push_back((long)r.below(10) * 10000000 + (long)r.below(6) * 1000000 + (long)r.below(1000000));
            s.setlist("lost", l);
            s.setd("p_resize", r.pick(std::vector<double>{0.05, 0.3}));
        }
        if (r.chance(0.5)) s.set("max_faults", 1);
    });
    add_property("C14", [](Spec& s, Rng& r, bool t) {
        if (r.chance(0.3)) verify_gen(s, r, t, (int)r.range(1, 3));
        else { hash_gen(s, r, t, (int)r.range(1, 3)); if (r.chance(0.2)) checks_gen(s, r, 1, 1); }
        s.set("again", 0);
        s.set("polls", r.range(1, 14));
        s.set("pollgap", r.range(0, 40));
        s.set("poller", r.chance(0.4));
    });
#ifndef DOTTORRENT_USE_ISAL
    add_property("C15", [](Spec& s, Rng& r, bool t) {
        switch (r.below(12)) {
        case 0: gen_queue_race(s, r, t); break;
        case 1: gen_pool_race(s, r, t); break;
        case 2: gen_processor_race(s, r, t); break;
        case 3: gen_merkle_race(s, r, t); break;
        default: gen_pipe_race(s, r, t);
        }
    });
#endif
    add_property("C18", [](Spec& s, Rng& r, bool t) {
        int proto = (int)r.range(1, 3);
        if (r.chance(0.3)) verify_gen(s, r, t, proto);
        else { hash_gen(s, r, t, proto); s.set("again", 0); if (r.chance(0.4)) checks_gen(s, r, 1, 2); }
        s.set("memcheck", 1);
        s.set("autops", 0);
        // more blocks than buffers, and consumers that fall behind
        if (r.chance(0.7)) { auto f = s.list("files"); long blk = s.num("iob") ? std::max(s.num("iob"), s.num("ps")) : 65536; s.set("iob", blk); f.push_back(blk * r.range(3, 9) + r.range(0, 1)); s.setlist("files", f); }
        if (r.chance(0.6)) { s.set("strategy", (long)ST_STARVE); s.set("starve_mask", (long)(r.next() & 0xfc)); s.setd("p_switch", 0.1); }
        s.set("threads", r.pick({1, 1, 2}));
        if (r.chance(0.7)) s.set("mem", std::max(s.num("iob"), s.num("ps")) * r.range(0, 6));
    });
    add_property("C19", life_gen);
    add_property("C22", [](Spec& s, Rng& r, bool t) {
        cancel_gen(s, r, t);
        s.set("scenario", "resfail");
        s.set("again", 0);
        s.set("before", 0);
        s.set("cancel", r.chance(0.2));
        if (!s.num("verify") && r.chance(0.3)) checks_gen(s, r, 1, 3);
        int k = (int)r.below(5);
        if (k < 2) { s.setd("p_thread_fail", r.pick(std::vector<double>{0.1, 0.3})); s.set("retry", r.chance(0.5)); }
        else if (k < 4) s.setd("p_alloc_fail", r.pick(std::vector<double>{0.0005, 0.003, 0.02}));
        else s.setd("p_digest_fail", r.pick(std::vector<double>{0.005, 0.05}));
        if (r.chance(0.7)) s.set("max_faults", 1);
    });
}
#endif
