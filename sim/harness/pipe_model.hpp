// Reference model of BitTorrent v1, v2 and hybrid metadata over in-memory contents, and the
// construction of simulated storages.  Independent of the library's own hashing code.
#pragma once
#include "runner.hpp"
#include "common.hpp"
#include <array>
#include <cstring>
#include "dottorrent/file_storage.hpp"
#include "dottorrent/general.hpp"

namespace pmod {

using H1 = std::array<unsigned char, 20>;
using H2 = std::array<unsigned char, 32>;
using Bytes = std::vector<unsigned char>;

struct MFile {
    std::string name;         // relative to the root
    size_t size = 0;
    bool pad = false;
    Bytes data;               // original content (zeros for padding)
    int attr = 0;             // 0 added without options, 1 with attributes, 2 executable, with attributes, 3 symbolic link added as such, 4 symbolic link to the data
    std::string link;         // 3: target, relative to the root
};

struct MV2 { H2 root{}; std::vector<H2> layer; };

// Contents never contain zero bytes, so that missing data (which reads as zeros) never matches.
inline Bytes content(size_t n, uint64_t seed)
{
    Bytes d(n);
    uint64_t x = seed * 7919 + 13;
    size_t i = 0;
    while (i < n) {
        uint64_t v = sim_splitmix(x) | 0x0101010101010101ull;
        size_t k = std::min<size_t>(8, n - i);
        memcpy(d.data() + i, &v, k);
        i += k;
    }
    return d;
}

inline std::vector<H1> ref_v1(const std::vector<MFile>& files, size_t ps)
{
    std::vector<H1> r;
    Bytes cur;
    cur.reserve(ps);
    for (auto& f : files) {
        size_t o = 0;
        while (o < f.size) {
            size_t k = std::min(ps - cur.size(), f.size - o);
            cur.insert(cur.end(), f.data.begin() + o, f.data.begin() + o + k);
            o += k;
            if (cur.size() == ps) { H1 h; sim_ref_sha1(cur.data(), ps, h.data()); r.push_back(h); cur.clear(); }
        }
    }
    if (!cur.empty()) { H1 h; sim_ref_sha1(cur.data(), cur.size(), h.data()); r.push_back(h); }
    return r;
}

inline H2 parent(const H2& a, const H2& b)
{
    unsigned char t[64];
    memcpy(t, a.data(), 32);
    memcpy(t + 32, b.data(), 32);
    H2 h;
    sim_ref_sha256(t, 64, h.data());
    return h;
}

inline MV2 ref_v2(const Bytes& d, size_t ps)
{
    const size_t B = 16384;
    MV2 r;
    if (d.empty()) return r;
    std::vector<H2> cur;
    for (size_t o = 0; o < d.size(); o += B) { H2 h; sim_ref_sha256(d.data() + o, std::min(B, d.size() - o), h.data()); cur.push_back(h); }
    size_t w = 1;
    while (w < cur.size()) w *= 2;
    cur.resize(w, H2{});
    size_t span = B;
    size_t pieces = (d.size() + ps - 1) / ps;
    for (;;) {
        if (span == ps && d.size() > ps) r.layer.assign(cur.begin(), cur.begin() + pieces);
        if (cur.size() == 1) break;
        std::vector<H2> up(cur.size() / 2);
        for (size_t i = 0; i < up.size(); ++i) up[i] = parent(cur[2 * i], cur[2 * i + 1]);
        cur.swap(up);
        span *= 2;
    }
    r.root = cur[0];
    return r;
}

inline std::vector<MFile> ref_hybrid_layout(const std::vector<MFile>& in, size_t ps)
{
    std::vector<MFile> r;
    for (size_t i = 0; i < in.size(); ++i) {
        r.push_back(in[i]);
        size_t rem = in[i].size % ps;
        if (i + 1 < in.size() && rem && !in[i].pad) {
            MFile p;
            p.pad = true;
            p.size = ps - rem;
            p.data.assign(p.size, 0);
            p.name = ".pad/" + std::to_string(p.size);
            r.push_back(p);
        }
    }
    return r;
}

template <typename HA, typename V> bool same(const HA& h, const V& v) { return v.size() == h.size() && memcmp(v.data(), h.data(), h.size()) == 0; }
template <typename V> bool is_zero(const V& v) { for (size_t i = 0; i < v.size(); ++i) if ((unsigned char)((const unsigned char*)v.data())[i]) return false; return true; }

// ---- workload ----
struct Work {
    std::string root = "/simfs/r";
    std::vector<MFile> files;   // as added
    size_t ps = 16384, iob = 0, mem = 0;
    int threads = 2;
    int proto = 1;              // 1 v1, 2 v2, 3 hybrid
    uint64_t cseed = 1;
    bool mb = true;             // multi-buffer hashing, if built in
    bool autops = false;        // the library chooses the piece size
};

// 0: different names, 1: the same base name in every directory, 2: directories that sort differently by path and by text, 3: directories and files of the same name at different levels
inline std::string file_name(long mode, size_t i)
{
    static const char* D[] = {"", "b/", "b.c/", "b-/", "b/c/", "B/", "\xc3\xa9/", "b 0/"};
    static const char* E[] = {"", "b/", "b/b/", "c/", "c/b/", "bc/", "d/c/b/", "b.c/"};
    if (mode == 1) return i ? "d" + std::to_string(7 - i % 8) + (i > 7 ? "/e" + std::to_string(i / 8) : "") + "/f" : "f";
    if (mode == 2) return std::string(D[i % 8]) + "x" + std::to_string(i / 8);
    if (mode == 3) return std::string(E[i % 8]) + "a" + (i > 7 ? std::to_string(i / 8) : "");
    return (i % 3 == 1 ? "d/" : i % 3 == 2 ? "d/e/" : "") + ("f" + std::to_string(i));
}

inline Work work_of(const Spec& s, const std::string& root = "/simfs/r")
{
    Work w;
    w.root = root;
    w.mb = s.num("mb", 1);
    w.autops = s.num("autops", 0);
    w.ps = (size_t)s.num("ps", 16384);
    w.iob = (size_t)s.num("iob", 0);
    w.mem = (size_t)s.num("mem", 0);
    w.threads = (int)s.num("threads", 2);
    w.proto = (int)s.num("proto", 1);
    w.cseed = (uint64_t)s.num("cseed", 1);
    auto sizes = s.list("files");
    auto pads = s.list("pads");
    for (size_t i = 0; i < sizes.size(); ++i) {
        MFile f;
        f.size = (size_t)sizes[i];
        for (long p : pads) if ((size_t)p == i && w.proto == 1) f.pad = true;
        if (f.pad) { f.data.assign(f.size, 0); f.name = ".pad/" + std::to_string(f.size); }
        else { f.data = content(f.size, w.cseed * 1000 + (s.num("same", 0) ? i % 2 : i)); f.name = file_name(s.num("names", 0), i); }
        w.files.push_back(std::move(f));
    }
    auto attrs = s.list("attrs");
    for (size_t i = 0; i < attrs.size() && i < w.files.size(); ++i) {
        auto& f = w.files[i];
        if (f.pad) continue;
        f.attr = (int)(attrs[i] % 5);
        if (f.attr == 3) {
            size_t t = 0;
            while (t < w.files.size() && (w.files[t].pad || t == i || (t < attrs.size() && attrs[t] % 5 == 3))) ++t;
            f.link = t < w.files.size() ? w.files[t].name : ".root";
            f.size = 0;
            f.data.clear();
        }
    }
    return w;
}

inline std::string disk_path(const Work& w, const MFile& f) { return f.attr == 4 ? w.root + ".store/" + f.name : w.root + "/" + f.name; }

inline void put_files(const Work& w)
{
    simfs_create((w.root + "/.root").c_str(), "x", 1);
    for (auto& f : w.files) {
        if (f.pad) continue;
        if (f.attr == 3) { simfs_link((w.root + "/" + f.name).c_str(), (w.root + "/" + f.link).c_str()); continue; }
        if (f.attr == 4) simfs_link((w.root + "/" + f.name).c_str(), disk_path(w, f).c_str());
        simfs_create(disk_path(w, f).c_str(), f.data.data(), f.size);
        if (f.attr == 2) simfs_chmod(disk_path(w, f).c_str(), 0755);
    }
}

inline dottorrent::protocol proto_of(int p) { return p == 1 ? dottorrent::protocol::v1 : p == 2 ? dottorrent::protocol::v2 : dottorrent::protocol::hybrid; }

inline void fill_storage(dottorrent::file_storage& st, const Work& w)
{
    namespace fs = std::filesystem;
    st.set_root_directory(fs::path(w.root));
    for (auto& f : w.files) {
        if (f.pad) st.add_file(dottorrent::make_padding_file_entry(f.size));
        else {
            using enum dottorrent::file_options;
            const dottorrent::file_options opt[] = {none, add_attributes, add_attributes, copy_symlinks, none};
            st.add_file(fs::path(w.root) / f.name, opt[f.attr]);
        }
    }
    if (!w.autops) st.set_piece_size(w.ps);
}

// queue capacity and block size as documented by the options
inline size_t io_block(const Work& w)
{
#ifdef DOTTORRENT_USE_ISAL
    return std::max(w.ps, w.iob ? w.iob : 16 * w.ps);
#else
    return std::max(w.ps, w.iob ? w.iob : size_t(1) << 20);
#endif
}
inline size_t capacity(const Work& w) { return w.mem ? std::max<size_t>(4, w.mem / io_block(w)) : std::max<size_t>(4, 4 * (size_t)w.threads); }

bool valid_work(const Spec& s);
void gen_work(Spec& s, Rng& r, bool thorough);
void gen_read_noise(Spec& s, Rng& r);

} // namespace pmod
