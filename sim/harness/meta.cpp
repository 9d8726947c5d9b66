// C17: saving and loading metafiles on a faulty disk, end to end: hash, save, (crash), load, verify.
#define PIPE_HELPERS_ONLY
#include "pipe.cpp"

#include <algorithm>
#include <fstream>
#include <sstream>
#include "dottorrent/metafile.hpp"
#include "dottorrent/metafile_serialization.hpp"

namespace {

// a stream that takes only so many bytes
struct LimitedBuf : std::streambuf {
    std::string data;
    size_t limit;
    explicit LimitedBuf(size_t n) : limit(n) {}
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (data.size() >= limit) return traits_type::eof();
        data.push_back((char)c);
        return c;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        std::streamsize k = std::min<std::streamsize>(n, (std::streamsize)(limit - data.size()));
        data.append(p, (size_t)k);
        return k;
    }
};

struct Fields {     // what the workload puts into the metafile
    std::string name, comment, created_by, source;
    long date = 0;
    bool priv = false;
    std::vector<std::pair<std::string, size_t>> trackers;
    std::vector<std::string> web, http, coll;
    std::vector<std::pair<std::string, int>> dht;
    std::vector<std::string> similar;
    std::vector<std::pair<std::string, std::string>> other;
};

Fields fields_of(const Spec& s, bool single, const Work& w)
{
    Fields f;
    Rng r((uint64_t)s.num("mseed", 1));
    auto text = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) t += (char)(r.chance(0.1) ? r.range(1, 255) : r.range(32, 126)); return t; };
    auto some = [&] { return r.chance(0.4); };
    if (single) f.name = some() ? w.files[0].name : "";
    else if (some()) f.name = "n" + text(r.below(20));
    if (some()) f.comment = text(r.chance(0.1) ? 9000 + r.below(9000) : r.below(60));
    if (some()) f.created_by = text(r.below(30));
    if (some()) f.source = text(r.below(10));
    if (some()) f.date = r.range(1, 2000000000);
    f.priv = some();
    if (some()) { size_t tier = 0; for (int i = 0, n = (int)r.range(1, 5); i < n; ++i) { f.trackers.push_back({"http://t" + std::to_string(r.below(3)) + "x" + std::to_string(i) + "/a", tier}); if (some()) ++tier; } }
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) f.web.push_back("http://w" + std::to_string(i) + "/" + text(r.below(8)));
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) f.http.push_back("http://h" + std::to_string(i) + "/" + text(r.below(8)));
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) f.coll.push_back("c" + std::to_string(i) + text(r.below(8)));
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) f.dht.push_back({"n" + std::to_string(i) + ".example", (int)r.range(1, 65535)});
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { std::string h; for (int k = 0, z = some() ? 20 : 32; k < z; ++k) h += (char)r.below(256); f.similar.push_back(h); }
    if (some()) for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) f.other.push_back({(r.chance(0.5) ? "x" : "Z") + std::to_string(i) + text(r.below(4)), text(r.below(12))});
    return f;
}

void put_fields(dt::metafile& m, const Fields& f)
{
    if (!f.name.empty()) m.set_name(f.name);
    m.set_comment(f.comment);
    m.set_created_by(f.created_by);
    m.set_source(f.source);
    if (f.date) m.set_creation_date((std::time_t)f.date);
    m.set_private(f.priv);
    for (auto& [u, t] : f.trackers) m.add_tracker(u, t);
    for (auto& u : f.web) m.add_web_seed(u);
    for (auto& u : f.http) m.add_http_seed(u);
    for (auto& u : f.coll) m.add_collection(u);
    for (auto& [u, p] : f.dht) m.add_dht_node(u, (uint16_t)p);
    for (auto& h : f.similar) m.add_similar_torrent(dt::info_hash(h.size() == 20 ? dt::protocol::v1 : dt::protocol::v2, h));
    for (auto& [k, v] : f.other) m.other_info_fields().insert_or_assign(k, bencode::bvalue(v));
}

std::string bin(const auto& h) { return std::string((const char*)h.data(), h.size()); }
std::string str(const bencode::bvalue& v) { return std::string(get_string(v)); }

// the metafile holds exactly the fields and the reference metadata of the files
void check_metafile(const dt::metafile& m, const Fields& f, const Work& w, const std::vector<long>& checks, bool single, const char* what, bool loaded)
{
    auto txt = [&](const char* n, const std::string& got, const std::string& want) { if (got != want) sim_fail("meta-field", "%s: %s is \"%.60s\", expected \"%.60s\"", what, n, got.c_str(), want.c_str()); };
    if (loaded) {
        bool file_name = single && w.proto != 2;
        txt("name", m.name(), file_name ? w.files[0].name : !f.name.empty() ? f.name : std::filesystem::path(w.root).filename().string());
    }
    txt("comment", m.comment(), f.comment);
    txt("created by", m.created_by(), f.created_by);
    txt("source", m.source(), f.source);
    if (m.creation_date().count() != f.date) sim_fail("meta-field", "%s: creation date %ld, expected %ld", what, (long)m.creation_date().count(), f.date);
    if (m.is_private() != f.priv) sim_fail("meta-field", "%s: wrong private flag", what);
    std::vector<std::pair<std::string, size_t>> tr;
    for (auto& t : m.trackers()) tr.push_back({t.url, t.tier});
    auto want_tr = f.trackers;
    std::sort(tr.begin(), tr.end());
    std::sort(want_tr.begin(), want_tr.end());
    if (tr != want_tr) sim_fail("meta-field", "%s: wrong trackers (%zu, expected %zu)", what, tr.size(), want_tr.size());
    if (m.web_seeds() != f.web) sim_fail("meta-field", "%s: wrong web seeds", what);
    if (m.http_seeds() != f.http) sim_fail("meta-field", "%s: wrong http seeds", what);
    if (m.collections() != std::unordered_set<std::string>(f.coll.begin(), f.coll.end())) sim_fail("meta-field", "%s: wrong collections", what);
    std::vector<std::pair<std::string, int>> dn;
    for (auto& n : m.dht_nodes()) dn.push_back({n.url, n.port});
    if (dn != f.dht) sim_fail("meta-field", "%s: wrong dht nodes", what);
    std::vector<std::string> sim, want_sim = f.similar;
    for (auto& h : m.similar_torrents()) sim.push_back(std::string(h.get_binary(h.version())));
    std::sort(sim.begin(), sim.end());
    std::sort(want_sim.begin(), want_sim.end());
    if (sim != want_sim) sim_fail("meta-field", "%s: wrong similar torrents", what);

    if (m.other_info_fields().size() != f.other.size()) sim_fail("meta-field", "%s: %zu other info fields, expected %zu", what, m.other_info_fields().size(), f.other.size());
    for (auto& [k, v] : f.other) { auto it = m.other_info_fields().find(k); if (it == m.other_info_fields().end() || str(it->second) != v) sim_fail("meta-field", "%s: other info field %s is missing or wrong", what, k.c_str()); }

    check_hashed(m.storage(), w, checks, false, what);
    if (m.storage().file_count() == 1 && w.proto != 2 && (m.storage().file_mode() == dt::file_mode::single) != single) sim_fail("meta-field", "%s: wrong file mode", what);
    size_t reg = 0;
    for (auto& e : w.files) if (!e.pad) reg += e.size;
    if (m.total_regular_file_size() != reg) sim_fail("meta-field", "%s: total regular file size %zu, expected %zu", what, m.total_regular_file_size(), reg);
}

// position and length of the value of the top level key "info"
std::string info_bytes(const std::string& t)
{
    size_t p = 1;
    std::function<void()> skip = [&] {
        if (t.at(p) == 'i') { p = t.find('e', p) + 1; return; }
        if (t.at(p) == 'l' || t.at(p) == 'd') { ++p; while (t.at(p) != 'e') skip(); ++p; return; }
        size_t c = t.find(':', p);
        p = c + 1 + (size_t)atol(t.substr(p, c - p).c_str());
    };
    while (t.at(p) != 'e') {
        size_t c = t.find(':', p);
        size_t n = (size_t)atol(t.substr(p, c - p).c_str());
        std::string key = t.substr(c + 1, n);
        p = c + 1 + n;
        size_t q = p;
        skip();
        if (key == "info") return t.substr(q, p - q);
    }
    return "";
}

void check_attr(const auto& e, const MFile& f, const char* where)
{
    std::string a = e.contains("attr") ? str(e.at("attr")) : "";
    if ((a.find('x') != std::string::npos) != (f.attr == 2) && f.attr != 3) sim_fail("meta-encoding", "%s: %s has the attributes \"%s\"", where, f.name.c_str(), a.c_str());
    if ((a.find('l') != std::string::npos) != (f.attr == 3) || e.contains("symlink path") != (f.attr == 3)) sim_fail("meta-encoding", "%s: wrong link attribute or target of %s", where, f.name.c_str());
    if (f.attr == 3) {
        std::string path;
        for (auto& c : get_list(e.at("symlink path"))) path += (path.empty() ? "" : "/") + str(c);
        if (path != f.link) sim_fail("meta-encoding", "%s: %s leads to %s", where, f.name.c_str(), path.c_str());
    }
}

// the encoding carries the reference metadata
void check_encoding(const std::string& enc, const Work& w, const std::vector<MFile>& layout, bool single)
{
    auto root = bencode::decode_value(std::string_view(enc));
    const auto& info = get_dict(get_dict(root).at("info"));
    if ((size_t)get_integer(info.at("piece length")) != w.ps) sim_fail("meta-encoding", "wrong piece length");
    if (w.proto != 2) {
        std::string p;
        for (auto& h : ref_v1(layout, w.ps)) p += bin(h);
        if (str(info.at("pieces")) != p) sim_fail("meta-encoding", "wrong v1 pieces string");
        if (single) {
            if ((size_t)get_integer(info.at("length")) != layout[0].size || str(info.at("name")) != layout[0].name) sim_fail("meta-encoding", "wrong name or length of a single file");
        } else {
            const auto& l = get_list(info.at("files"));
            if (l.size() != layout.size()) sim_fail("meta-encoding", "%zu files in the v1 list, expected %zu", l.size(), layout.size());
            for (size_t i = 0; i < l.size(); ++i) {
                const auto& e = get_dict(l[i]);
                std::string path;
                for (auto& c : get_list(e.at("path"))) path += (path.empty() ? "" : "/") + str(c);
                if (path != layout[i].name || (size_t)get_integer(e.at("length")) != layout[i].size) sim_fail("meta-encoding", "v1 entry %zu is %s", i, path.c_str());
                bool pad = e.contains("attr") && str(e.at("attr")).find('p') != std::string::npos;
                if (pad != layout[i].pad) sim_fail("meta-encoding", "v1 entry %zu has a wrong padding attribute", i);
                check_attr(e, layout[i], "v1 list");
            }
        }
    }
    if (w.proto != 1) {
        if (get_integer(info.at("meta version")) != 2) sim_fail("meta-encoding", "wrong meta version");
        size_t leaves = 0;
        std::map<std::string, const bencode::bvalue*> tree;
        std::function<void(const bencode::bvalue&, std::string)> walk = [&](const bencode::bvalue& v, std::string at) {
            for (auto& [k, e] : get_dict(v)) { if (k.empty()) { tree[at] = &e; ++leaves; } else walk(e, at.empty() ? k : at + "/" + k); }
        };
        walk(info.at("file tree"), "");
        const auto& layers = get_dict(get_dict(root).at("piece layers"));
        size_t nl = 0, nf = 0;
        std::set<std::string> roots;
        for (auto& f : layout) {
            if (f.pad) continue;
            ++nf;
            if (!tree.count(f.name)) sim_fail("meta-encoding", "%s is not in the file tree", f.name.c_str());
            const auto& e = get_dict(*tree[f.name]);
            if ((size_t)get_integer(e.at("length")) != f.size) sim_fail("meta-encoding", "wrong length in the file tree");
            check_attr(e, f, "file tree");
            if (!f.size) continue;
            auto ref = ref_v2(f.data, w.ps);
            if (str(e.at("pieces root")) != bin(ref.root)) sim_fail("meta-encoding", "wrong pieces root in the file tree");
            if (f.size <= w.ps) continue;
            std::string l;
            for (auto& h : ref.layer) l += bin(h);
            if (roots.insert(bin(ref.root)).second) ++nl;
            auto it = layers.find(bin(ref.root));
            if (it == layers.end() || str(it->second) != l) sim_fail("meta-encoding", "wrong or missing piece layer");
        }
        if (leaves != nf) sim_fail("meta-encoding", "%zu files in the tree, expected %zu", leaves, nf);
        if (layers.size() != nl) sim_fail("meta-encoding", "%zu piece layers, expected %zu", layers.size(), nl);
    }
}

const int HARD[] = {CH_EIO, CH_OPEN_FAIL, CH_WRITE_FAIL, CH_CLOSE_FAIL, CH_ALLOC_FAIL, CH_EVP_FAIL};

struct Saver {
    std::string path;
    int op = 0;
    bool threw = false, ok = false;
    std::string stored;          // what the sink holds afterwards
};

void do_save(Saver& sv, const dt::metafile& m, dt::protocol proto, size_t limit, bool alloc)
{
    try {
        if (alloc) sim_arm(CH_ALLOC_FAIL, 1);
        if (sv.op == 0) { dt::save_metafile(sv.path, m, proto); sv.ok = true; }
        else if (sv.op == 1) {
            std::ofstream os(sv.path, std::ios::binary);
            dt::write_metafile_to(os, m, proto);
            os.close();
            sv.ok = !os.fail();
        } else if (sv.op == 2) {
            LimitedBuf b(limit);
            std::ostream os(&b);
            dt::write_metafile_to(os, m, proto);
            sv.ok = !os.fail();
            sim_arm(CH_ALLOC_FAIL, 0);
            sv.stored = b.data;
        } else {
            std::string t;
            dt::write_metafile_to(std::back_inserter(t), m, proto);
            sv.ok = true;
            sim_arm(CH_ALLOC_FAIL, 0);
            sv.stored = t;
        }
    } catch (const std::exception&) { sv.threw = true; sv.ok = false; }
    sim_arm(CH_ALLOC_FAIL, 0);
    if (sv.op < 2 && simfs_size(sv.path.c_str()) != (size_t)-1) sv.stored.assign((const char*)simfs_data(sv.path.c_str()), simfs_size(sv.path.c_str()));
}

void scenario_meta(const Spec& s)
{
    for (int k : HARD) sim_arm_all(k, 0);
    Work w = work_of(s);
    put_files(w);
    bool single = s.num("single", 0) && w.files.size() == 1;
    auto checks = s.list("checks");
    // a hybrid storage can be saved as any protocol; ws: the workload as it is in what is saved
    Work ws = w;
    if (w.proto == 3 && s.num("as", 0)) {
        ws.proto = (int)s.num("as", 0);
        if (ws.proto == 1) ws.files = ref_hybrid_layout(w.files, w.ps);
    }
    auto proto = proto_of(ws.proto);
    Fields f = fields_of(s, single, w);

    dt::metafile made;
    fill_storage(made.storage(), w);
    if (single) made.storage().set_file_mode(dt::file_mode::single);
    else made.storage().set_file_mode(dt::file_mode::multi);
    {
        dt::storage_hasher h(made.storage(), hasher_opts(w, checks));
        h.start();
        h.wait();
    }
    put_fields(made, f);
    dt::metafile m = s.num("copy", 0) == 1 ? dt::metafile(made) : s.num("copy", 0) == 2 ? [&] { dt::metafile t; t = made; return t; }() : std::move(made);

    // ---- save
    std::string enc = dt::write_metafile(m, proto);
    bool hard = s.num("disk", -1) >= 0;
    for (const char* k : {"p_open_fail", "p_write_fail", "p_close_fail", "p_alloc_fail"}) if (s.dbl(k, 0) > 0) hard = true;
    auto ops = s.list("save");
    size_t limit = (size_t)s.num("limit", 0) % (enc.size() + 2);
    std::vector<Saver> sv(std::max<size_t>(1, ops.size()));
    for (size_t i = 0; i < sv.size(); ++i) {
        sv[i].path = "/simfs/out" + std::to_string(i) + ".torrent";
        sv[i].op = ops.empty() ? 0 : (int)(ops[i] % 4);
        if (long old = s.num("old", 0)) { std::string junk((size_t)old, 'x'); simfs_create(sv[i].path.c_str(), junk.data(), junk.size()); }
    }
    if (s.num("disk", -1) >= 0) simfs_set_disk_limit((long)((size_t)s.num("disk") % (enc.size() + 2)));
    for (int k : {CH_OPEN_FAIL, CH_WRITE_FAIL, CH_CLOSE_FAIL}) sim_arm_all(k, 1);
    bool alloc = s.dbl("p_alloc_fail", 0) > 0;
    sim_expect_terminate("out of memory or a failing disk while saving");
    if (sv.size() == 1) do_save(sv[0], m, proto, limit, alloc);
    else {
        std::vector<std::thread> th;
        for (auto& x : sv) th.emplace_back([&x, &m, proto, limit, alloc] { do_save(x, m, proto, limit, alloc); });
        for (auto& t : th) t.join();
    }
    for (int k : HARD) sim_arm_all(k, 0);
    simfs_set_disk_limit(-1);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after saving", simfs_open_count());
    for (auto& x : sv) {
        if (x.ok && x.stored != enc) sim_fail("meta-save-silent", "saving (way %d) reported success but %zu of %zu bytes of the encoding are there", x.op, x.stored.size(), enc.size());
        if (!x.ok && x.op != 2 && !hard) sim_fail("meta-save-spurious", "saving (way %d) reported a failure although every write succeeded in the end", x.op);
        if (x.op == 2 && !x.ok && limit >= enc.size() && !hard) sim_fail("meta-save-spurious", "writing to a stream reported a failure although everything was written");
        sim_probe(x.ok ? 52 : 53);
    }

    // ---- crash, load
    Saver& x = sv[0];
    std::string path = "/simfs/in.torrent";
    std::string there = x.stored;
    if (s.num("cut", 0)) { there.resize((size_t)s.num("cut") % (there.size() + 1)); }
    simfs_create(path.c_str(), there.data(), there.size());
    bool complete = there == enc, lhard = false;
    for (const char* k : {"p_eio", "p_open_fail", "p_alloc_fail"}) if (s.dbl(k, 0) > 0) lhard = true;
    for (int k : {CH_EIO, CH_OPEN_FAIL}) sim_arm_all(k, 1);
    dt::metafile got;
    bool loaded = false;
    try {
        if (alloc) sim_arm(CH_ALLOC_FAIL, 1);
        switch (s.num("load", 0) % 4) {
        case 0: got = dt::load_metafile(path); break;
        case 1: { std::ifstream is(path, std::ios::binary); got = dt::read_metafile(is); break; }
        case 2: got = dt::read_metafile(std::string_view(there)); break;
        default: got = dt::read_metafile(std::span<const std::byte>((const std::byte*)there.data(), there.size())); break;
        }
        loaded = true;
    } catch (const std::exception& e) { sim_note("load failed: %s", e.what()); }
    sim_arm(CH_ALLOC_FAIL, 0);
    for (int k : HARD) sim_arm_all(k, 0);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after loading", simfs_open_count());
    if (loaded && !complete) sim_fail("meta-load-silent", "%zu of %zu bytes of the encoding loaded without an error", there.size(), enc.size());
    if (!loaded && complete && !lhard) sim_fail("meta-load-failed", "a complete metafile of %zu bytes could not be loaded", enc.size());
    sim_probe(loaded ? 54 : 55);

    // ---- verify the files against what was loaded
    std::vector<uint8_t> verdict;
    std::vector<OnDisk> disk;
    Work w2 = ws;
    bool verify = loaded && s.num("verify", 0);
    bool as_v1 = ws.proto == 1;
    std::vector<size_t> perm;
    if (loaded) {
        // v2 metafiles list files in tree order
        w2.files.clear();
        for (const auto& e : got.storage()) {
            if (ws.proto == 3 && e.is_padding_file()) continue;
            size_t i = 0;
            for (; i < ws.files.size(); ++i) if (ws.files[i].name == e.path().generic_string() && std::find(perm.begin(), perm.end(), i) == perm.end()) break;
            if (i == ws.files.size()) sim_fail("wrong-layout", "loaded metafile lists the unknown file %s", e.path().generic_string().c_str());
            perm.push_back(i);
            w2.files.push_back(ws.files[i]);
        }
        if (w2.files.size() != ws.files.size()) sim_fail("wrong-layout", "loaded metafile lists %zu files, expected %zu", w2.files.size(), ws.files.size());
        if (ws.proto != 2) for (size_t i = 0; i < perm.size(); ++i) if (perm[i] != i) sim_fail("wrong-layout", "loaded metafile lists the files in another order");
    }
    if (verify) {
        disk = apply_damage(w2, s.list("damage"));
        got.storage().set_root_directory(std::filesystem::path(w.root));
        dt::storage_verifier v(got.storage(), verifier_opts(w2, true, as_v1));
        v.start();
        v.wait();
        verdict = v.result();
        sim_probe(56);
    }
    dt::sha1_hash ih1{}, lh1{};
    dt::sha256_hash ih2{}, lh2{};
    bool all_empty = true;
    for (auto& e : w.files) if (e.size) all_empty = false;
    const dt::metafile& own = ws.proto == w.proto ? m : got;    // the metafile whose info dictionary was saved
    if (ws.proto != 2) { if (ws.proto == w.proto || loaded) ih1 = dt::info_hash_v1(own); if (loaded) lh1 = dt::info_hash_v1(got); }
    if (ws.proto != 1) { if (ws.proto == w.proto || loaded) ih2 = dt::info_hash_v2(own); if (loaded) lh2 = dt::info_hash_v2(got); }
    bool hashed = ws.proto == w.proto || loaded;
    sim_leave();

    auto layout = ws.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : ws.files;
    check_metafile(m, f, w, checks, single, "metafile before saving", false);
    std::string info;
    try {
        check_encoding(enc, ws, layout, single);
        info = info_bytes(enc);
    } catch (const std::exception& e) { sim_fail("meta-encoding", "the encoding lacks a required part: %s", e.what()); }
    unsigned char d1[20], d2[32];
    sim_ref_sha1(info.data(), info.size(), d1);
    sim_ref_sha256(info.data(), info.size(), d2);
    if (hashed && ws.proto != 2 && (memcmp(d1, ih1.data(), 20) || (loaded && memcmp(d1, lh1.data(), 20)))) sim_fail("meta-infohash", "the v1 info hash is not the digest of the info dictionary that was saved");
    if (hashed && ws.proto != 1 && (memcmp(d2, ih2.data(), 32) || (loaded && memcmp(d2, lh2.data(), 32)))) sim_fail("meta-infohash", "the v2 info hash is not the digest of the info dictionary that was saved");
    if (loaded) check_metafile(got, f, w2, checks, single, "loaded metafile", true);
    if (verify) {
        std::vector<int> want;
        std::vector<double> wp;
        auto layout2 = w2.proto == 3 ? ref_hybrid_layout(w2.files, w2.ps) : w2.files;
        expect_verify(w2, layout2, disk, as_v1, want, wp);
        check_verdict(verdict, want, false);
    }
}

// ---- C25: a metafile that rotted on disk

// offsets outside long strings: lengths, keys, numbers, short texts
std::vector<size_t> structure(const std::string& t)
{
    std::vector<size_t> r;
    for (size_t p = 0; p < t.size();) {
        if (t[p] < '0' || t[p] > '9') {
            if (t[p] == 'i') { size_t e = t.find('e', p); while (p <= e) r.push_back(p++); }
            else r.push_back(p++);
            continue;
        }
        size_t c = t.find(':', p), n = (size_t)atol(t.substr(p, c - p).c_str());
        while (p <= c) r.push_back(p++);
        if (n <= 20) for (size_t k = 0; k < n; ++k) r.push_back(p + k);
        else { r.push_back(p); r.push_back(p + n - 1); }
        p += n;
    }
    return r;
}

std::string rot(const std::string& enc, const std::string& other, uint64_t seed)
{
    Rng r(seed);
    std::string t = enc;
    auto at = structure(enc);
    static const char CH[] = "0123456789:ilde-\0\xff./";
    for (int i = 0, n = (int)r.range(1, 3); i < n && !t.empty(); ++i) {
        size_t p = r.chance(0.9) ? at[r.below(at.size())] % t.size() : r.below(t.size());
        switch (r.below(10)) {
        case 0: case 1: case 2: t[p] = (char)(t[p] ^ (1 << r.below(8))); break;                         // bit flip
        case 3: case 4: case 5: if (t[p] >= '0' && t[p] <= '9') { t[p] = (char)('0' + r.below(10)); break; } [[fallthrough]];
        case 6: t[p] = CH[r.below(sizeof CH - 1)]; break;                                                // a byte
        case 7: { size_t k = r.range(1, r.chance(0.5) ? 8 : 512); for (size_t j = p; j < t.size() && j < p + k; ++j) t[j] = 0; break; }   // zeroed
        case 8: { size_t k = r.range(1, 512), from = at[r.below(at.size())] % t.size(); std::string b = t.substr(from, k); for (size_t j = 0; j < b.size() && p + j < t.size(); ++j) t[p + j] = b[j]; break; }   // another block
        default: { if (r.chance(0.5)) { std::string b = t.substr(p, (size_t)r.range(1, 60)); t.insert(p, b); } else t.erase(p, (size_t)r.range(1, 60)); break; }   // block written twice or lost
        }
    }
    if (r.chance(0.05)) { size_t k = r.below(t.size() + 1); t = t.substr(0, k) + (k < other.size() ? other.substr(k) : ""); }   // torn: old data behind the new
    return t;
}

dt::metafile load_way(long way, const std::string& path, const std::string& there)
{
    switch (way % 4) {
    case 0: return dt::load_metafile(path);
    case 1: { std::ifstream is(path, std::ios::binary); return dt::read_metafile(is); }
    case 2: return dt::read_metafile(std::string_view(there));
    default: return dt::read_metafile(std::span<const std::byte>((const std::byte*)there.data(), there.size()));
    }
}

// loads a metafile that may be damaged: it is refused or loaded as a whole
void load_damaged(long way, const std::string& path, const std::string& there, bool alloc)
{
    try {
        if (alloc) sim_arm(CH_ALLOC_FAIL, 1);
        dt::metafile got = load_way(way, path, there);
        sim_arm(CH_ALLOC_FAIL, 0);
        sim_probe(57);
        // whatever was loaded is a whole metafile
        const auto& st = got.storage();
        size_t total = 0, i = 0;
        auto p = st.protocol();
        for (const auto& e : st) {
            total += e.file_size();
            if (e.is_symlink() != e.symlink_path().has_value() && e.is_symlink()) sim_fail("rot-inconsistent", "a link without a target was loaded");
            if (e.path().empty()) sim_fail("rot-inconsistent", "a file without a name was loaded");
            if (e.has_v2_data() && e.file_size() > st.piece_size() && !e.is_padding_file()) {
                size_t n = (e.file_size() + st.piece_size() - 1) / st.piece_size();
                if (e.piece_layer().size() != n) sim_fail("rot-inconsistent", "file %zu has %zu of %zu piece layer nodes", i, e.piece_layer().size(), n);
            }
            for (auto& [k, v] : e.checksums()) (void)v->hex_string();
            ++i;
        }
        if (st.total_file_size() != total) sim_fail("rot-inconsistent", "the total size is %zu, the files have %zu", st.total_file_size(), total);
        if (!st.piece_size() || (st.piece_size() & (st.piece_size() - 1))) sim_fail("rot-inconsistent", "the piece size is %zu", st.piece_size());
        if (!st.pieces().empty() && st.pieces().size() != st.piece_count()) sim_fail("rot-inconsistent", "%zu pieces for %zu bytes", st.pieces().size(), total);
        if (p == dt::protocol::none) sim_fail("rot-inconsistent", "no metadata was loaded");
        // ... that can be saved and loaded again
        const char* step = "saved";
        try {
            std::string again = dt::write_metafile(got, p);
            step = "loaded";
            dt::metafile twice = dt::read_metafile(std::string_view(again));
            // padding of a v2 metafile is not kept, and without any content the protocol is open
            auto regular = [](const dt::file_storage& x) { size_t n = 0; for (const auto& e : x) n += !e.is_padding_file(); return n; };
            const auto& st2 = twice.storage();
            if (st.total_regular_file_size() > 0 && (st2.total_regular_file_size() != st.total_regular_file_size() || regular(st2) != regular(st) || st2.protocol() != p))
                sim_fail("rot-inconsistent", "what was loaded from a damaged metafile (%zu files, %zu bytes, protocol %d) differs after it was saved (%zu, %zu, %d)", regular(st), st.total_regular_file_size(), (int)p, regular(st2), st2.total_regular_file_size(), (int)st2.protocol());
        } catch (const std::exception& e) { sim_fail("rot-inconsistent", "what was loaded from a damaged metafile cannot be %s again: %s", step, e.what()); }
    } catch (const std::exception& e) { sim_arm(CH_ALLOC_FAIL, 0); sim_probe(58); sim_note("refused: %s", e.what()); }
}

void scenario_rot(const Spec& s)
{
    for (int k : HARD) sim_arm_all(k, 0);
    Work w = work_of(s);
    put_files(w);
    bool single = s.num("single", 0) && w.files.size() == 1;
    auto layout = w.proto == 3 ? ref_hybrid_layout(w.files, w.ps) : w.files;
    Fields f = fields_of(s, single, w);
    dt::metafile m;
    fill_metadata(m.storage(), w, layout);
    for (size_t i = 0; i < layout.size(); ++i) for (long c : s.list("checks")) if (!layout[i].pad && layout[i].attr != 3) {
        unsigned char ref[64];
        unsigned rl = 0;
        sim_ref_digest(HN[c % 7], layout[i].data.data(), layout[i].size, ref, &rl);
        auto cs = dt::make_checksum(HF[c % 7]);
        if (cs->value().size() == rl) { memcpy(cs->value().data(), ref, rl); m.storage().at(i).add_checksum(std::move(cs)); }
    }
    m.storage().set_file_mode(single ? dt::file_mode::single : dt::file_mode::multi);
    put_fields(m, f);
    std::string enc = dt::write_metafile(m, proto_of(w.proto));
    m.set_comment(m.comment() + "older");
    m.add_tracker("http://older.example/a");
    std::string other = dt::write_metafile(m, proto_of(w.proto));
    bool alloc = s.dbl("p_alloc_fail", 0) > 0;
    auto rots = s.list("rots");
    int loaders = (int)s.num("loaders", 1);
    auto loader = [&](int me) {
        for (size_t k = (size_t)me; k < rots.size(); k += (size_t)loaders) {
            std::string path = "/simfs/in" + std::to_string(me) + ".torrent", there = rot(enc, other, (uint64_t)rots[k]);
            simfs_create(path.c_str(), there.data(), there.size());
            sim_count_fault();
            load_damaged(rots[k], path, there, alloc);
        }
        if (s.num("rewrite", 0)) for (int k = 0; k < 3; ++k) load_damaged(k % 2, "/simfs/shared.torrent", "", alloc);
    };
    if (loaders == 1 && !s.num("rewrite", 0)) loader(0);
    else {
        simfs_create("/simfs/shared.torrent", enc.data(), enc.size());
        std::vector<std::thread> th;
        for (int k = 0; k < loaders; ++k) th.emplace_back(loader, k);
        // a metafile that is written again while it is loaded
        if (s.num("rewrite", 0)) th.emplace_back([&] {
            for (int k = 0; k < 3; ++k) { std::ofstream os("/simfs/shared.torrent", std::ios::binary); os << (k % 2 ? enc : other); }
        });
        for (auto& x : th) x.join();
    }
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open after loading", simfs_open_count());
}

bool validate_meta(const Spec& s)
{
    if (!valid_work(s)) return false;
    if (s.num("single", 0) && s.list("files").size() != 1) return false;
    if (s.num("single", 0)) for (long a : s.list("attrs")) if (a % 5 == 3) return false;
    if (!s.list("pads").empty() || s.num("as", 0) < 0 || s.num("as", 0) > 2) return false;
    if (s.num("proto", 1) == 3) { bool any = false; for (auto& f : work_of(s).files) any |= f.size > 0; if (!any) return false; }
    for (const char* k : {"save", "checks", "damage"}) for (long x : s.list(k)) if (x < 0) return false;
    if (s.list("save").size() > 3) return false;
    for (const char* k : {"old", "cut", "limit", "load"}) if (s.num(k, 0) < 0) return false;
    return s.num("old", 0) < 300000;
}

void gen_meta(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "meta");
    gen_work(s, r, t);
    s.set("proto", r.range(1, 3));
    if (r.chance(0.3)) { s.setlist("files", {s.list("files")[0]}); s.set("single", 1); auto a = s.list("attrs"); if (a.size() > 1) s.setlist("attrs", {a[0]}); }
    if (r.chance(0.35)) { std::vector<long> a; for (size_t i = 0; i < s.list("files").size(); ++i) a.push_back(r.chance(0.6) ? (long)r.below(5) : 0); s.setlist("attrs", a); }
    if (s.num("single", 0) || s.num("proto") == 3) { auto a = s.list("attrs"); if (!a.empty() && a[0] % 5 == 3) { a[0] = 2; s.setlist("attrs", a); } }
    if (s.num("proto") == 3) { auto f = s.list("files"); f[0] = std::max(f[0], 1l); s.setlist("files", f); }
    if (s.num("proto") == 3 && r.chance(0.3)) s.set("as", r.range(1, 2));
    if (r.chance(0.3)) checks_gen(s, r, 1, 2);
    s.set("mseed", (long)r.below(1000000));
    if (r.chance(0.25)) s.set("copy", r.range(1, 2));
    std::vector<long> ops;
    for (int i = 0, n = r.chance(0.2) ? (int)r.range(2, 3) : 1; i < n; ++i) ops.push_back(r.chance(0.6) ? 0 : (long)r.below(4));
    s.setlist("save", ops);
    s.set("limit", (long)r.below(1000000));
    if (r.chance(0.3)) s.set("old", r.range(1, 40000));
    if (r.chance(0.3)) s.set("cut", 1 + (long)r.below(1000000));
    s.set("load", (long)r.below(4));
    if (r.chance(0.6)) { s.set("verify", 1); damage(s, r); }
    gen_read_noise(s, r);
    if (r.chance(0.4)) s.setd("p_short_write", r.pick(std::vector<double>{0.2, 0.8}));
    if (r.chance(0.2)) s.setd("p_eintr", 0.3);
    int k = (int)r.below(8);
    if (k == 0) s.set("disk", (long)r.below(1000000));
    else if (k == 1) s.setd("p_write_fail", r.pick(std::vector<double>{0.2, 0.6}));
    else if (k == 2) s.setd("p_close_fail", 0.6);
    else if (k == 3) s.setd("p_open_fail", 0.4);
    else if (k == 4) s.setd("p_eio", 0.3);
    else if (k == 5) { s.setd("p_alloc_fail", r.pick(std::vector<double>{0.002, 0.02})); }
    if (k < 6 && r.chance(0.4)) s.set("max_faults", 1);
    if (r.chance(0.2)) s.set("race", 1);
}

bool validate_rot(const Spec& s)
{
    if (!validate_meta(s)) return false;
    for (long x : s.list("rots")) if (x < 0) return false;
    if (s.num("loaders", 1) < 1 || s.num("loaders", 1) > 4) return false;
    return s.list("rots").size() <= 40;
}

void gen_rot(Spec& s, Rng& r, bool t)
{
    gen_meta(s, r, t);
    s.set("scenario", "rot");
    for (const char* k : {"save", "damage", "old", "cut", "copy", "verify", "disk", "p_write_fail", "p_close_fail", "p_open_fail", "p_eio", "p_short_write", "as", "autops", "load", "limit", "max_faults", "p_alloc_fail"}) s.kv.erase(k);
    auto f = s.list("files");
    for (auto& z : f) z = std::min(z, 100000l);
    s.setlist("files", f);
    std::vector<long> v;
    for (int i = 0; i < 16; ++i) v.push_back((long)r.below(1000000000));
    s.setlist("rots", v);
    if (r.chance(0.5)) s.set("loaders", r.range(2, 3));
    if (r.chance(0.3)) s.set("rewrite", 1);
    if (r.chance(0.1)) { s.setd("p_alloc_fail", 0.01); s.set("max_faults", 3); }
}

} // namespace

void register_meta()
{
    add_scenario("rot", scenario_rot, validate_rot);
    add_property("C25", gen_rot);
    add_scenario("meta", scenario_meta, validate_meta);
    add_property("C17", gen_meta);
}
