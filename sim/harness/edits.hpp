// C24: a storage over its whole life: edits, runs, cancelled runs, changing contents, copies.
// Part of pipe.cpp.
#pragma once
#include <algorithm>
#include <set>

namespace {
namespace sfs = std::filesystem;

using Digest = std::vector<unsigned char>;

// what the workload knows about one entry
struct Ent {
    MFile f;                                    // f.data: contents now (zeros for padding)
    int disk = -1;                              // file on disk
    // versions of the metadata the entry may carry: contents and piece size it was computed from; none: absent
    std::vector<Bytes> v2;
    bool v2_absent = true;
    std::map<int, std::pair<std::vector<Bytes>, bool>> sums;    // algorithm: contents, may be absent
};

struct Model {
    Work w;                                     // root, threads, block size
    std::vector<Ent> es;
    size_t ps = 0;
    int v1 = 0;                                 // 0 no pieces, 1 exact, 2 of a cancelled run
    std::vector<H1> pieces;
    std::vector<Bytes> disk;
    std::map<std::pair<const void*, int>, Digest> cache;
};

std::vector<MFile> layout_of(const Model& m) { std::vector<MFile> r; for (auto& e : m.es) r.push_back(e.f); return r; }

bool v2_matches(const dt::file_entry& e, const MFile& f, const Bytes& d, size_t ps)
{
    auto ref = ref_v2(d, ps);
    auto l = e.piece_layer();
    if (!same(ref.root, e.pieces_root()) || l.size() != ref.layer.size()) return false;
    for (size_t k = 0; k < l.size(); ++k) if (!same(ref.layer[k], l[k])) return false;
    return true;
}

// the storage agrees with the history; full: also the hashes
void check_state(const dt::file_storage& st, Model& m, const char* after, bool full)
{
    if (st.file_count() != m.es.size() || st.size() != m.es.size()) sim_fail("edit-count", "%zu entries after %s, expected %zu", st.file_count(), after, m.es.size());
    if (st.piece_size() != m.ps) sim_fail("edit-piece-size", "piece size %zu after %s, expected %zu", st.piece_size(), after, m.ps);
    size_t total = 0, reg = 0, nreg = 0, i = 0;
    for (auto& x : m.es) {
        const auto& e = st.at(i);
        if (e.is_padding_file() != x.f.pad || e.file_size() != x.f.size || (!x.f.pad && e.path().generic_string() != x.f.name)) sim_fail("edit-entry", "entry %zu of %zu is %s of %zu bytes after %s, expected %s of %zu", i, m.es.size(), e.path().generic_string().c_str(), e.file_size(), after, x.f.name.c_str(), x.f.size);
        if (!x.f.pad) check_attributes(e, x.f, i, after);
        total += x.f.size;
        if (!x.f.pad) { reg += x.f.size; ++nreg; }
        ++i;
    }
    if (st.total_file_size() != total) sim_fail("edit-total", "total size %zu after %s, the entries have %zu", st.total_file_size(), after, total);
    if (st.total_regular_file_size() != reg || st.regular_file_count() != nreg) sim_fail("edit-total", "%zu regular files of %zu bytes after %s, expected %zu of %zu", st.regular_file_count(), st.total_regular_file_size(), after, nreg, reg);
    if (m.ps && st.piece_count() != (total + m.ps - 1) / m.ps) sim_fail("edit-total", "%zu pieces after %s, expected %zu", st.piece_count(), after, (total + m.ps - 1) / m.ps);
    if (m.es.size() > 1 && st.file_mode() != dt::file_mode::multi) sim_fail("edit-mode", "wrong file mode after %s", after);
    if (m.es.empty() && st.file_mode() != dt::file_mode::empty) sim_fail("edit-mode", "wrong file mode after %s", after);

    // which protocols it claims to support
    bool must1 = m.v1 == 1 && total, may1 = m.v1 && total, must2 = true, may2 = true;
    for (auto& x : m.es) {
        if (x.f.pad || x.f.attr == 3 || !x.f.size) continue;
        if (x.v2.empty()) may2 = false;
        if (x.v2_absent) must2 = false;
    }
    auto p = st.protocol();
    bool has1 = (p & dt::protocol::v1) == dt::protocol::v1, has2 = (p & dt::protocol::v2) == dt::protocol::v2;
    if (total) {
        if (has1 && !may1) sim_fail("edit-stale", "v1 metadata is claimed after %s although the current files were never hashed so", after);
        if (has2 && !may2) sim_fail("edit-stale", "v2 metadata is claimed after %s although the current files were never hashed so", after);
        if (must1 && !has1) sim_fail("edit-lost", "v1 metadata is gone after %s", after);
        if (must2 && !has2) sim_fail("edit-lost", "v2 metadata is gone after %s", after);
    }
    if (!m.v1 && !st.pieces().empty()) sim_fail("edit-stale", "%zu v1 pieces are left after %s", st.pieces().size(), after);
    if (m.v1 && st.pieces().size() != m.pieces.size()) sim_fail("edit-lost", "%zu v1 pieces after %s, expected %zu", st.pieces().size(), after, m.pieces.size());
    if (!full) return;

    auto pieces = st.pieces();
    for (size_t k = 0; m.v1 && k < pieces.size(); ++k) {
        if (m.v1 == 2 && is_zero(pieces[k])) continue;
        if (!same(m.pieces[k], pieces[k])) sim_fail("edit-v1", "piece %zu of %zu is wrong after %s", k, pieces.size(), after);
    }
    i = 0;
    for (auto& x : m.es) {
        const auto& e = st.at(i++);
        if (x.f.pad || x.f.attr == 3) continue;
        if (x.f.size) {
            bool has = e.has_v2_data();
            if (has && x.v2.empty()) sim_fail("edit-stale", "file %s has v2 data after %s", x.f.name.c_str(), after);
            if (!has && !x.v2_absent) sim_fail("edit-lost", "file %s has lost its v2 data after %s", x.f.name.c_str(), after);
            if (has) {
                bool ok = false;
                for (auto& d : x.v2) if (v2_matches(e, x.f, d, m.ps)) { ok = true; break; }
                if (!ok) sim_fail("edit-v2", "root or piece layer of %s (%zu bytes) is wrong after %s", x.f.name.c_str(), x.f.size, after);
            }
        }
        for (int c = 0; c < 7; ++c) {
            auto it = x.sums.find(c);
            const dt::checksum* cs = e.get_checksum(HF[c]);
            if (!cs) { if (it != x.sums.end() && !it->second.second) sim_fail("edit-checksum", "file %s has lost its %s checksum after %s", x.f.name.c_str(), HN[c], after); continue; }
            if (it == x.sums.end()) sim_fail("edit-checksum", "file %s has a %s checksum after %s that nobody asked for", x.f.name.c_str(), HN[c], after);
            bool ok = false;
            auto v = cs->value();
            for (auto& d : it->second.first) {
                unsigned char ref[64];
                unsigned rl = 0;
                sim_ref_digest(HN[c], d.data(), d.size(), ref, &rl);
                if (v.size() == rl && !memcmp(v.data(), ref, rl)) { ok = true; break; }
            }
            if (!ok) sim_fail("edit-checksum", "%s of %s (%zu bytes) is wrong after %s", HN[c], x.f.name.c_str(), x.f.size, after);
        }
    }
}

void check_directories(const dt::file_storage& st, const Model& m, const char* after)
{
    std::set<std::string> dirs, real;
    for (auto& x : m.es) {
        const std::string& n = x.f.name;
        for (size_t p = n.find('/'); p != std::string::npos; p = n.find('/', p + 1)) { dirs.insert(n.substr(0, p)); if (!x.f.pad) real.insert(n.substr(0, p)); }
    }
    if (dt::directory_count(st) != dirs.size()) sim_fail("edit-directories", "%zu directories after %s, expected %zu", dt::directory_count(st), after, dirs.size());
    if (dt::directory_count(st, "", false) != real.size()) sim_fail("edit-directories", "%zu directories without padding after %s, expected %zu", dt::directory_count(st, "", false), after, real.size());
    auto ask = dirs;
    for (const char* d : {"d", "b", "a", "a/b", "d0", "nowhere", ".pad", "d/e"}) ask.insert(d);
    for (auto& x : m.es) ask.erase(x.f.name);       // a file, not a directory
    for (auto& d : ask) {
        std::multiset<std::string> want, got;
        for (auto& x : m.es) if (x.f.name.rfind(d + "/", 0) == 0) want.insert(x.f.name);
        for (auto* e : st.directory_contents(d)) {
            bool mine = false;
            for (const auto& k : st) if (&k == e) mine = true;
            if (!mine) sim_fail("edit-directories", "the contents of %s after %s are not entries of the storage", d.c_str(), after);
            got.insert(e->path().generic_string());
        }
        if (want != got) sim_fail("edit-directories", "%zu entries in %s after %s, expected %zu", got.size(), d.c_str(), after, want.size());
        bool pad = true;
        for (auto& x : m.es) if (x.f.name.rfind(d + "/", 0) == 0 && !x.f.pad) pad = false;
        if (dt::is_padding_directory(st, d) != pad) sim_fail("edit-directories", "%s is wrongly taken for a directory of padding or not, after %s", d.c_str(), after);
    }
}

void edited(Model& m) { m.v1 = 0; m.pieces.clear(); }

// the entries as a hybrid run lays them out
void hybrid_layout(Model& m)
{
    std::vector<Ent> r, reg;
    for (auto& e : m.es) if (!e.f.pad) reg.push_back(e);
    for (size_t i = 0; i < reg.size(); ++i) {
        r.push_back(reg[i]);
        size_t rem = reg[i].f.size % m.ps;
        if (i + 1 < reg.size() && rem) {
            Ent p;
            p.f.pad = true;
            p.f.size = m.ps - rem;
            p.f.data.assign(p.f.size, 0);
            p.f.name = ".pad/" + std::to_string(p.f.size);
            r.push_back(p);
        }
    }
    m.es.swap(r);
}

void ran(Model& m, int proto, const std::vector<long>& checks, bool complete)
{
    if (proto != 2) { m.v1 = complete ? 1 : 2; m.pieces = ref_v1(layout_of(m), m.ps); }
    for (auto& x : m.es) {
        if (x.f.pad || x.f.attr == 3) continue;
        if (proto != 1) {
            if (complete) { x.v2.clear(); x.v2_absent = false; }
            x.v2.push_back(x.f.data);
        }
        for (long c : checks) {
            bool fresh = !x.sums.count((int)(c % 7));
            auto& s = x.sums[(int)(c % 7)];
            if (complete) { s.first.clear(); s.second = false; }
            else if (fresh) s.second = true;
            s.first.push_back(x.f.data);
        }
    }
}

void scenario_edits(const Spec& s)
{
    Model m;
    m.w = work_of(s);
    Work& w = m.w;
    put_files(w);
    for (auto& f : w.files) m.disk.push_back(f.data);
    std::vector<long> alls = {16384, 32768, 65536};
    auto st = std::make_unique<dt::file_storage>();
    st->set_root_directory(w.root);
    auto checks = s.list("checks");
    auto ops = s.list("hist");
    uint64_t salt = 1;
    int step = 0;
    for (long o : ops) {
        int kind = (int)(o % 16);
        long a = o / 16;
        size_t fi = (size_t)a % w.files.size();
        char what[80] = "";
        bool hashed = false;
        auto find = [&](size_t k) { return std::find_if(m.es.begin(), m.es.end(), [&](const Ent& e) { return e.disk == (int)k; }); };
        switch (kind) {
        case 0: case 1: case 2: {        // add
            if (w.files[fi].pad || find(fi) != m.es.end()) continue;
            using enum dt::file_options;
            const dt::file_options opt[] = {none, add_attributes, add_attributes, copy_symlinks, none};
            const auto& f = w.files[fi];
            if (kind == 2 && f.attr == 0) { dt::file_entry e{sfs::path(f.name), f.size}; if (a & 8) st->add_file(e); else st->add_file(std::move(e)); }
            else st->add_file(sfs::path(w.root) / f.name, opt[f.attr]);
            Ent e;
            e.f = f;
            e.f.data = m.disk[fi];
            e.disk = (int)fi;
            m.es.push_back(e);
            edited(m);
            snprintf(what, sizeof what, "adding %s (step %d)", f.name.c_str(), step);
            sim_probe(62);
            break;
        }
        case 3: case 4: {                // remove
            if (m.es.empty()) continue;
            size_t k = (size_t)a % m.es.size();
            // the first entry with the same path goes
            for (size_t j = 0; j < k; ++j) if (m.es[j].f.name == m.es[k].f.name) { k = j; break; }
            dt::file_entry key{st->at(k).path(), 0};
            if (kind == 4) { st->remove_file(st->at(k)); } else st->remove_file(key);
            snprintf(what, sizeof what, "removing %s (step %d)", m.es[k].f.name.c_str(), step);
            m.es.erase(m.es.begin() + (long)k);
            edited(m);
            sim_probe(63);
            break;
        }
        case 5: if (a % 2 && !m.es.empty()) {       // remove a checksum
            size_t k = (size_t)(a / 2) % m.es.size();
            auto& x = m.es[k];
            int c = (int)(checks.empty() ? a % 7 : checks[(size_t)a % checks.size()] % 7);
            st->at(k).remove_checksum(std::string(to_string(HF[c])));
            x.sums.erase(c);
            snprintf(what, sizeof what, "removing a checksum (step %d)", step);
            break;
        } else {                         // remove something that is not there
            st->remove_file(dt::file_entry{"no/such/file", 1});
            snprintf(what, sizeof what, "removing an unknown file (step %d)", step);
            if (m.v1) continue;          // whether that counts as an edit is open
            break;
        }
        case 6:                          // clear
            if (a % 3) continue;
            st->clear();
            m.es.clear();
            edited(m);
            snprintf(what, sizeof what, "clearing (step %d)", step);
            break;
        case 7: {                        // piece size
            size_t ps = (size_t)alls[(size_t)a % 3];
            if (ps == m.ps && (m.v1 || !m.es.empty())) continue;
            st->set_piece_size(ps);
            m.ps = ps;
            edited(m);
            for (auto& e : m.es) { e.v2.clear(); e.v2_absent = true; }
            snprintf(what, sizeof what, "setting the piece size to %zu (step %d)", ps, step);
            sim_probe(64);
            break;
        }
        case 8: {                        // the file changes on disk
            if (w.files[fi].attr == 3 || w.files[fi].pad) continue;
            m.disk[fi] = content(w.files[fi].size, w.cseed * 1000 + 500000 + salt++);
            simfs_create(disk_path(w, w.files[fi]).c_str(), m.disk[fi].data(), m.disk[fi].size());
            if (w.files[fi].attr == 2) simfs_chmod(disk_path(w, w.files[fi]).c_str(), 0755);
            auto it = find(fi);
            if (it != m.es.end()) it->f.data = m.disk[fi];
            snprintf(what, sizeof what, "a change of %s (step %d)", w.files[fi].name.c_str(), step);
            break;
        }
        case 9: {                        // copies
            auto n = std::make_unique<dt::file_storage>();
            if (a % 3 == 0) *n = *st;
            else if (a % 3 == 1) n = std::make_unique<dt::file_storage>(*st);
            else { n->add_file(dt::file_entry{"old", 5}); *n = std::move(*st); }
            st = std::move(n);
            snprintf(what, sizeof what, "copying (step %d)", step);
            sim_probe(65);
            break;
        }
        case 10: {                       // explicit padding
            size_t z = 1 + (size_t)a % 40000;
            st->add_file(dt::make_padding_file_entry(z));
            Ent e;
            e.f.pad = true;
            e.f.size = z;
            e.f.data.assign(z, 0);
            e.f.name = ".pad/" + std::to_string(z);
            m.es.push_back(e);
            edited(m);
            snprintf(what, sizeof what, "adding padding (step %d)", step);
            break;
        }
        default: {                       // a run
            if (!m.ps) { m.ps = (size_t)alls[(size_t)a % 3]; st->set_piece_size(m.ps); }
            int proto = 1 + (int)(a % 3);
            Work rw = w;
            rw.proto = proto;
            rw.ps = m.ps;
            rw.iob = w.iob && w.iob % m.ps ? m.ps * 2 : w.iob;
            bool empty = true;
            for (auto& e : m.es) if (e.f.size && !(proto != 1 && e.f.pad)) empty = false;
            if (empty && proto == 3) continue;
            // v2 torrents have no padding; a v1 run over entries that only a hybrid run may lay out is fine
            if (proto == 2) { bool pads = false; for (auto& e : m.es) pads |= e.f.pad; if (pads) continue; }
            std::vector<long> cs;
            for (size_t k = 0; k < checks.size(); ++k) if ((a >> (3 + k)) & 1) cs.push_back(checks[k]);
            bool cancel = kind == 15;
            if (kind == 14) {            // verification of what was hashed last
                bool as_v1 = proto != 2;
                if (as_v1 && m.v1 != 1) continue;
                bool ok = true, hybrid = false;
                size_t tot = 0;
                for (auto& e : m.es) { tot += e.f.size; hybrid |= e.f.pad; if (!e.f.pad && e.f.attr != 3 && e.f.size && (e.v2.size() != 1 || e.v2_absent)) ok = false; }
                if (!tot || (!as_v1 && (!ok || hybrid))) continue;
                Work vw = rw;
                vw.proto = as_v1 ? 1 : 2;
                vw.files = layout_of(m);
                std::vector<OnDisk> disk;
                std::vector<int> want;
                std::vector<double> pct;
                dt::storage_verifier v(*st, verifier_opts(vw, true, as_v1));
                v.start();
                v.wait();
                auto got = v.result();
                if (as_v1) {
                    auto now = ref_v1(vw.files, m.ps);
                    for (size_t k = 0; k < now.size(); ++k) want.push_back(now[k] == m.pieces[k]);
                } else {
                    for (size_t k = 0; k < vw.files.size(); ++k) { vw.files[k].data = m.es[k].v2.empty() ? Bytes() : m.es[k].v2[0]; disk.push_back({true, m.es[k].f.data}); }
                    expect_verify(vw, vw.files, disk, false, want, pct);
                }
                check_verdict(got, want, false);
                snprintf(what, sizeof what, "a verification (step %d)", step);
                sim_probe(67);
                break;
            }
            {
                dt::storage_hasher h(*st, hasher_opts(rw, cs));
                if (proto == 3) hybrid_layout(m);
                h.start();
                if (cancel) { sim_wait_steps((uint64_t)(a / 64 % 200)); h.cancel(); }
                else h.wait();
            }
            ran(m, proto, cs, !cancel);
            hashed = true;
            snprintf(what, sizeof what, "a %s run that was %s (step %d)", proto == 1 ? "v1" : proto == 2 ? "v2" : "hybrid", cancel ? "cancelled" : "completed", step);
            sim_probe(cancel ? 61 : 60);
        }
        }
        ++step;
        check_state(*st, m, what, hashed || step == (int)ops.size() || a % 4 == 0);
        if (a % 5 == 0) check_directories(*st, m, what);
    }
    check_state(*st, m, "the last step", true);
    check_directories(*st, m, "the last step");
    if (sim_live_threads() > 1) sim_fail("threads-left", "%d threads are alive at the end", sim_live_threads() - 1);
    if (simfs_open_count()) sim_fail("files-left-open", "%d files are open at the end", simfs_open_count());
}

bool validate_edits(const Spec& s)
{
    if (!valid_work(s) || !s.list("pads").empty()) return false;
    for (const char* k : {"hist", "checks"}) for (long x : s.list(k)) if (x < 0) return false;
    return s.list("hist").size() <= 40;
}

void gen_edits(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "edits");
    gen_work(s, r, t);
    s.kv.erase("pads");
    auto f = s.list("files");
    for (auto& z : f) z = std::min(z, 150000l);
    s.setlist("files", f);
    s.set("names", (long)r.below(4));
    checks_gen(s, r, 1, 3);
    std::vector<long> h;
    for (size_t i = 0; i < f.size(); ++i) if (r.chance(0.8)) h.push_back((long)(r.below(100) * f.size() + i) * 16 + (long)r.below(3));
    int runs = 0;
    for (int i = 0, n = (int)r.range(4, t ? 20 : 11); i < n; ++i) {
        long k = r.chance(0.45) && runs < (t ? 7 : 4) ? 11 + (long)r.below(5) : r.chance(0.25) ? 8 : (long)r.below(11);
        runs += k > 10;
        h.push_back((long)r.below(1000000) * 16 + k);
    }
    s.setlist("hist", h);
    gen_read_noise(s, r);
}

} // namespace

void register_edits()
{
    add_scenario("edits", scenario_edits, validate_edits);
    add_property("C24", gen_edits);
}
