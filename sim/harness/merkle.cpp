// C20: merkle trees and per-file checksum maps filled by several threads.
#include "runner.hpp"
#include "common.hpp"
#include <array>
#include <atomic>
#include <thread>
#include "dottorrent/checksum.hpp"
#include "dottorrent/file_entry.hpp"
#include "dottorrent/merkle_tree.hpp"

using namespace dottorrent;

namespace {

using H = std::array<unsigned char, 32>;
H leaf_value(long i, long salt)
{
    H h;
    uint64_t x = (uint64_t)i * 977 + (uint64_t)salt * 1000003 + 5;
    for (auto& b : h) b = (unsigned char)sim_splitmix(x);
    return h;
}

template <typename V> H bytes_of(const V& v) { H h; memcpy(h.data(), v.data(), 32); return h; }
template <typename V> V value_of(const H& h) { V v{}; memcpy((void*)v.data(), h.data(), 32); return v; }

std::vector<std::vector<H>> reference(const std::vector<H>& leaves)
{
    size_t w = 1;
    while (w < leaves.size()) w *= 2;
    std::vector<std::vector<H>> layers;
    std::vector<H> cur(leaves);
    cur.resize(w, H{});
    layers.push_back(cur);
    while (cur.size() > 1) {
        std::vector<H> up(cur.size() / 2);
        for (size_t i = 0; i < up.size(); ++i) {
            unsigned char b[64];
            memcpy(b, cur[2 * i].data(), 32);
            memcpy(b + 32, cur[2 * i + 1].data(), 32);
            sim_ref_sha256(b, 64, up[i].data());
        }
        cur = up;
        layers.insert(layers.begin(), cur);
    }
    return layers;
}

using Tree = merkle_tree<hash_function::sha256>;
using V = Tree::value_type;

void compare(Tree& t, const std::vector<H>& leaves, const char* what)
{
    auto ref = reference(leaves);
    if (t.tree_height() + 1 != ref.size()) sim_fail("merkle-shape", "%s: height %zu for %zu leaves, expected %zu", what, (size_t)t.tree_height(), leaves.size(), ref.size() - 1);
    for (size_t d = 0; d < ref.size(); ++d) {
        auto l = t.get_layer(d);
        if (l.size() != ref[d].size()) sim_fail("merkle-shape", "%s: layer %zu has %zu nodes, expected %zu", what, d, l.size(), ref[d].size());
        for (size_t i = 0; i < l.size(); ++i) {
            if (bytes_of(l[i]) != ref[d][i]) sim_fail("merkle-wrong", "%s: node %zu of layer %zu is wrong (%zu leaves)", what, i, d, leaves.size());
            if (bytes_of(t.get_node(d, i)) != ref[d][i]) sim_fail("merkle-wrong", "%s: get_node %zu of layer %zu is wrong (%zu leaves)", what, i, d, leaves.size());
        }
    }
    if (bytes_of(t.root()) != ref[0][0]) sim_fail("merkle-wrong", "%s: wrong root (%zu leaves)", what, leaves.size());
    for (size_t i = 0; i < leaves.size(); ++i)
        if (bytes_of(t.get_leaf(i)) != leaves[i]) sim_fail("merkle-wrong", "%s: leaf %zu is not the one that was set", what, i);
}

void scenario_tree(const Spec& s)
{
    sim_arm_all(CH_EVP_FAIL, 0);
    size_t n = (size_t)s.num("leaves", 5);
    int nt = (int)s.num("threads", 2);
    int rounds = (int)s.num("rounds", 1);
    auto order = s.list("order");        // permutation seed per thread
    std::vector<H> leaves(n, H{});
    Tree tree = s.num("ctor", 0) ? Tree(n, V{}) : Tree(n);
    std::vector<char> set(n, 0);
    struct Write { size_t leaf; H value; long from, to; };
    long dup = s.num("dup", 0);          // this many leaves are set by every thread, to different values
    std::atomic<long> clock{0};
    for (int rd = 0; rd < rounds; ++rd) {
        std::vector<std::vector<Write>> shared((size_t)nt);
        std::vector<H> todo(n);
        for (size_t i = 0; i < n; ++i) todo[i] = leaf_value((long)i, rd);
        {
            std::vector<std::thread> th;
            for (int t = 0; t < nt; ++t)
                th.emplace_back([&, t] {
                    std::vector<size_t> mine;
                    for (size_t i = t; i < n; i += nt) if (!(s.num("partial", 0) && i % 5 == 3)) mine.push_back(i);
                    Rng r((uint64_t)(order.empty() ? t : order[(size_t)t % order.size()]) + 31 * rd);
                    for (size_t k = mine.size(); k > 1; --k) std::swap(mine[k - 1], mine[r.below(k)]);
                    for (long k = 0; k < dup; ++k) mine.insert(mine.begin() + (long)r.below(mine.size() + 1), ((size_t)k * 3 + (size_t)rd) % n + n);
                    for (size_t i : mine) {
                        if (i < n) { tree.set_leaf(i, value_of<V>(todo[i])); continue; }
                        Write wr{i - n, leaf_value((long)(i - n), 1000 + 10 * rd + t), ++clock, 0};
                        tree.set_leaf(i - n, value_of<V>(wr.value));
                        wr.to = ++clock;
                        shared[(size_t)t].push_back(wr);
                    }
                });
            for (auto& t : th) t.join();
        }
        for (size_t i = 0; i < n; ++i) if (!(s.num("partial", 0) && i % 5 == 3)) leaves[i] = todo[i];
        // a leaf set several times holds the value of a call that no other call followed
        std::vector<Write> all;
        for (auto& v : shared) all.insert(all.end(), v.begin(), v.end());
        for (auto& a : all) {
            H now = bytes_of(tree.get_leaf(a.leaf));
            bool fine = false;
            for (auto& c : all)
                if (c.leaf == a.leaf && c.value == now) {
                    fine = true;
                    for (auto& d : all) if (d.leaf == a.leaf && d.from > c.to) fine = false;
                    if (fine) break;
                }
            if (now == todo[a.leaf]) fine = true;    // the same leaf was also set by its owner
            if (!fine) sim_fail("merkle-torn", "leaf %zu, set by several threads, holds no value that was set last", a.leaf);
            leaves[a.leaf] = now;
        }
        bool ok = false;
        for (int tries = 0; tries < 30 && !ok; ++tries) {
            try {
                if (tries < 4) sim_arm(CH_EVP_FAIL, 1);
                if (rd % 2) { auto h = make_hasher(hash_function::sha256); tree.update(*h); }
                else tree.update();
                ok = true;
            } catch (const std::exception&) { sim_probe(1); }
            sim_arm(CH_EVP_FAIL, 0);
        }
        if (!ok) sim_fail("merkle-error", "update keeps failing");
        compare(tree, leaves, "tree");
        if (s.num("copy", 0)) {
            Tree c(tree);
            compare(c, leaves, "copy");
            Tree m(std::move(c));
            compare(m, leaves, "moved");
        }
    }
    sim_probe(2);
}

const hash_function HF[] = {hash_function::md5, hash_function::sha1, hash_function::sha224, hash_function::sha256, hash_function::sha384, hash_function::sha512, hash_function::blake2s_256, hash_function::ripemd160};

// Writers add different checksums to one entry while readers look them up.
void scenario_checksums(const Spec& s)
{
    int nt = (int)s.num("threads", 2), nr = (int)s.num("readers", 1), na = (int)s.num("algos", 4);
    long polls = s.num("polls", 3);
    file_entry e(fs::path("a/b"), 100);
    auto val = [](int a, size_t i) { return (unsigned char)(a * 31 + (int)i * 7 + 1); };
    auto good = [&](const checksum* c, int a) {
        auto v = c->value();
        for (size_t i = 0; i < v.size(); ++i) if ((unsigned char)v[i] != val(a, i)) return false;
        return v.size() != 0 && c->name() == to_string(HF[a]);
    };
    {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                for (int a = t; a < na; a += nt) {
                    auto c = make_checksum(HF[a]);
                    auto v = c->value();
                    for (size_t i = 0; i < v.size(); ++i) v[i] = (std::byte)val(a, i);
                    e.add_checksum(std::move(c));
                    const checksum* p = e.get_checksum(HF[a]);
                    if (!p) sim_fail("checksum-lost", "%s is not found right after it was added", std::string(to_string(HF[a])).c_str());
                    if (!good(p, a)) sim_fail("checksum-altered", "%s has a different value right after it was added", std::string(to_string(HF[a])).c_str());
                }
            });
        for (int t = 0; t < nr; ++t)
            th.emplace_back([&] {
                std::vector<char> seen(na, 0);
                for (long k = 0; k < polls; ++k)
                    for (int a = 0; a < na; ++a) {
                        const checksum* p = (k % 2) ? e.get_checksum(HF[a]) : e.get_checksum(to_string(HF[a]));
                        if (!p) { if (seen[a]) sim_fail("checksum-lost", "%s was found and is gone", std::string(to_string(HF[a])).c_str()); continue; }
                        seen[a] = 1;
                        sim_probe(3);
                        if (!good(p, a)) sim_fail("checksum-altered", "%s is seen with a wrong value", std::string(to_string(HF[a])).c_str());
                    }
            });
        for (auto& t : th) t.join();
    }
    for (int a = 0; a < na; ++a) {
        const checksum* p = e.get_checksum(HF[a]);
        if (!p) sim_fail("checksum-lost", "%s is missing", std::string(to_string(HF[a])).c_str());
        if (!good(p, a)) sim_fail("checksum-altered", "%s has a wrong value", std::string(to_string(HF[a])).c_str());
    }
    if ((int)e.checksums().size() != na) sim_fail("checksum-extra", "%zu checksums stored, %d added", (size_t)e.checksums().size(), na);
}

bool validate(const Spec& s)
{
    if (s.str("scenario") == "merkle") return s.num("leaves", 5) >= 1 && s.num("leaves", 5) <= 300 && s.num("threads", 2) >= 1 && s.num("threads", 2) <= 6 && s.num("rounds", 1) >= 1 && s.num("dup", 0) >= 0 && s.num("dup", 0) <= 5;
    return s.num("threads", 2) >= 1 && s.num("readers", 1) >= 0 && s.num("algos", 4) >= 1 && s.num("algos", 4) <= 8 && s.num("polls", 3) <= 20;
}

void gen(Spec& s, Rng& r, bool thorough)
{
    gen_schedule(s, r, false);
    if (r.chance(0.65)) {
        s.set("scenario", "merkle");
        long n = r.chance(0.5) ? r.range(1, 20) : (1l << r.range(0, thorough ? 7 : 5)) + r.range(-1, 1);
        s.set("leaves", n < 1 ? 1 : n);
        s.set("threads", r.range(1, 4));
        s.set("rounds", r.chance(0.3) ? 2 : 1);
        s.set("copy", r.chance(0.3));
        s.set("ctor", r.chance(0.3));
        s.set("partial", r.chance(0.15));
        if (r.chance(0.35)) s.set("dup", r.range(1, 3));
        s.setlist("order", {r.range(0, 1000), r.range(0, 1000), r.range(0, 1000)});
        if (r.chance(0.25)) { s.setd("p_digest_fail", 0.03); s.set("max_faults", r.range(1, 3)); }
    } else {
        s.set("scenario", "checksums");
        s.set("threads", r.range(1, 4));
        s.set("readers", r.range(0, 2));
        s.set("algos", r.range(1, 8));
        s.set("polls", r.range(1, 6));
    }
}

} // namespace

void gen_merkle_race(Spec& s, Rng& r, bool thorough)
{
    gen(s, r, thorough);
    s.set("race", 1);
}

void register_merkle()
{
    add_scenario("merkle", scenario_tree, validate);
    add_scenario("checksums", scenario_checksums, validate);
    add_property("C20", [](Spec& s, Rng& r, bool t) { gen(s, r, t); if (r.chance(0.3)) s.set("race", 1); });
}
