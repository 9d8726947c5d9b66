// C16: streaming digests through the hasher interface.
#include "runner.hpp"
#include "common.hpp"
#include <map>
#include <thread>
#include "dottorrent/checksum.hpp"
#include "dottorrent/hasher/factory.hpp"

using namespace dottorrent;

namespace {

struct Algo { hash_function f; const char* ref; };
const Algo ALGOS[] = {
    {hash_function::md5, "MD5"}, {hash_function::sha1, "SHA1"}, {hash_function::sha224, "SHA224"}, {hash_function::sha256, "SHA256"},
    {hash_function::sha384, "SHA384"}, {hash_function::sha512, "SHA512"}, {hash_function::sha3_224, "SHA3-224"}, {hash_function::sha3_256, "SHA3-256"},
    {hash_function::sha3_384, "SHA3-384"}, {hash_function::sha3_512, "SHA3-512"}, {hash_function::blake2b_512, "BLAKE2b512"}, {hash_function::blake2s_256, "BLAKE2s256"},
    {hash_function::ripemd160, "RIPEMD160"}, {hash_function::shake128, "SHAKE128"}, {hash_function::shake256, "SHAKE256"},
};
const int NALGO = sizeof ALGOS / sizeof *ALGOS;

// Reference results are compared after the run, outside the simulation.
struct Out { int algo; std::vector<unsigned char> in, out; bool guard_ok; const char* via; };

struct Slot {
    int algo = 0;
    std::unique_ptr<single_buffer_hasher> h;
    std::vector<unsigned char> fed;
};

bool make(Slot& s, long& errors)
{
    for (int i = 0; i < 20; ++i) {
        try {
            sim_arm(CH_EVP_FAIL, 1);
            s.h = make_hasher(ALGOS[s.algo].f);
            sim_arm(CH_EVP_FAIL, 0);
            s.fed.clear();
            return true;
        } catch (const std::exception& e) {
            sim_arm(CH_EVP_FAIL, 0);
            sim_note("creating a %s hasher failed: %s (%lx)", ALGOS[s.algo].ref, e.what(), (long)dynamic_cast<const std::system_error*>(&e)->code().value());
            sim_probe(1);
            ++errors;
        }
    }
    return false;
}

void thread_main(int t, const std::vector<long>& prog, const std::vector<long>& algos, std::vector<Out>& outs, long* errors)
{
    Slot slot[3];
    for (int i = 0; i < 3; ++i) slot[i].algo = (int)(algos[(t * 3 + i) % algos.size()] % NALGO);
    uint64_t x = 1234567 + (uint64_t)t;
    for (long op : prog) {
        if (op / 10000000 != t) continue;
        Slot& s = slot[(op / 1000000) % 10 % 3];
        long v = op % 1000000;
        if (!s.h && !make(s, *errors)) return;
        if (v == 0) {   // finalise
            auto cs = make_checksum(ALGOS[s.algo].f);
            size_t n = cs->value().size();
            std::vector<unsigned char> buf(n + 64, 0xA5);
            bool ok = true;
            try {
                sim_arm(CH_EVP_FAIL, 1);
                s.h->finalize_to(std::span<std::byte>((std::byte*)buf.data(), n));
                sim_arm(CH_EVP_FAIL, 0);
            } catch (const std::exception&) {
                sim_arm(CH_EVP_FAIL, 0);
                sim_probe(2);
                ++*errors;
                ok = false;
                s.h.reset();
            }
            bool g = true;
            for (size_t i = n; i < buf.size(); ++i) if (buf[i] != 0xA5) g = false;
            if (!g) sim_fail("digest-overflow", "finalising %s wrote beyond the %zu-byte buffer of its declared size", ALGOS[s.algo].ref, n);
            if (ok) outs.push_back({s.algo, s.fed, std::vector<unsigned char>(buf.begin(), buf.begin() + n), g, "stream"});
            s.fed.clear();
        } else {
            size_t n = (size_t)v - 1;
            std::vector<unsigned char> d(n);
            for (auto& b : d) b = (unsigned char)sim_splitmix(x);
            try {
                sim_arm(CH_EVP_FAIL, 1);
                if (op % 3 == 0) s.h->update(std::string_view((const char*)d.data(), n));
                else s.h->update(std::span<const std::byte>((const std::byte*)d.data(), n));
                sim_arm(CH_EVP_FAIL, 0);
                s.fed.insert(s.fed.end(), d.begin(), d.end());
            } catch (const std::exception&) {
                sim_arm(CH_EVP_FAIL, 0);
                sim_probe(3);
                ++*errors;
                s.h.reset();
            }
            std::fill(d.begin(), d.end(), 0xEE);   // the hasher must not keep a reference to its input
        }
    }
}

void scenario(const Spec& s)
{
    sim_arm_all(CH_EVP_FAIL, 0);
    int nt = (int)s.num("threads", 2);
    auto prog = s.list("prog"), algos = s.list("algos");
    if (algos.empty()) algos.push_back(0);
    std::vector<std::vector<Out>> outs(nt);
    std::vector<long> errors(nt, 0);
    {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { thread_main(t, prog, algos, outs[t], &errors[t]); });
        for (auto& t : th) t.join();
    }
    if (s.num("oneshot", 0)) {
        std::vector<unsigned char> d((size_t)s.num("oneshot"), 0x5a);
        sim_arm(CH_EVP_FAIL, 1);
        try {
            auto a = make_hash<hash_function::sha256>(std::span<const std::byte>((const std::byte*)d.data(), d.size()));
            outs[0].push_back({3, d, std::vector<unsigned char>((const unsigned char*)a.data(), (const unsigned char*)a.data() + a.size()), true, "make_hash"});
            auto b = make_hash<hash_function::sha1>(std::span<const std::byte>((const std::byte*)d.data(), d.size()));
            outs[0].push_back({1, d, std::vector<unsigned char>((const unsigned char*)b.data(), (const unsigned char*)b.data() + b.size()), true, "make_hash"});
        } catch (const std::exception&) { ++errors[0]; sim_probe(4); }
        sim_arm(CH_EVP_FAIL, 0);
    }
    // an algorithm the library does not provide is refused, not computed as something else
    if (s.num("missing", 0)) {
        unsigned char tmp[64];
        unsigned l;
        if (!sim_ref_digest("whirlpool", "", 0, tmp, &l)) {
            bool threw = false;
            try { auto h = make_hasher(hash_function::whirlpool); } catch (const std::exception&) { threw = true; }
            if (!threw) sim_fail("digest-missing", "a hasher for an algorithm the library cannot provide was created");
            sim_probe(5);
        }
    }
    uint64_t faults = sim_user_faults();
    int64_t live = sim_evp_live();
    sim_leave();
    if (live != 0) sim_fail("digest-leak", "%ld digest contexts are still alive after every hasher was destroyed", (long)live);
    long ne = 0;
    for (long e : errors) ne += e;
    if (ne && !faults) sim_fail("digest-error", "the hasher reported an error although every library call succeeded");
    for (auto& v : outs)
        for (auto& o : v) {
            unsigned char ref[64];
            unsigned rl = 0;
            if (!sim_ref_digest(ALGOS[o.algo].ref, o.in.data(), o.in.size(), ref, &rl)) sim_fail("internal", "no reference for %s", ALGOS[o.algo].ref);
            if (rl != o.out.size()) sim_fail("digest-size", "%s has %u bytes, the library declares %zu", ALGOS[o.algo].ref, rl, o.out.size());
            if (memcmp(ref, o.out.data(), rl)) sim_fail("digest-wrong", "%s (%s) over %zu bytes differs from the reference%s", ALGOS[o.algo].ref, o.via, o.in.size(), faults ? ", after a library call had failed" : "");
            sim_probe(6);
        }
}

bool validate(const Spec& s)
{
    long t = s.num("threads", 2);
    if (t < 1 || t > 6) return false;
    for (long op : s.list("prog")) if (op < 0 || op % 1000000 > 200000) return false;
    return s.num("oneshot", 0) >= 0 && s.num("oneshot", 0) < 200000;
}

void gen(Spec& s, Rng& r, bool thorough)
{
    s.set("scenario", "digest");
    gen_schedule(s, r, false);
    int nt = (int)r.range(1, 4);
    s.set("threads", nt);
    std::vector<long> algos, prog;
    for (int i = 0; i < nt * 3; ++i) algos.push_back((long)r.below(NALGO));
    int n = (int)r.range(2, thorough ? 40 : 24);
    for (int i = 0; i < n; ++i) {
        long t = (long)r.below(nt), h = (long)r.below(3);
        long v;
        if (r.chance(0.3)) v = 0;
        else {
            long base = r.pick({0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 168, 200, 1000, 4096, 16384});
            v = 1 + (r.chance(0.3) ? (long)r.below(300) : base);
        }
        prog.push_back(t * 10000000 + h * 1000000 + v);
    }
    for (int t = 0; t < nt; ++t) for (int h = 0; h < 3; ++h) if (r.chance(0.7)) prog.push_back(t * 10000000l + h * 1000000l);
    s.setlist("algos", algos);
    s.setlist("prog", prog);
    if (r.chance(0.3)) s.set("oneshot", (long)r.below(3000) + 1);
    if (r.chance(0.1)) s.set("missing", 1);
    if (r.chance(0.6)) { s.setd("p_digest_fail", r.pick(std::vector<double>{0.01, 0.05, 0.2})); if (r.chance(0.5)) s.set("max_faults", 1); }
}

} // namespace

void register_digest()
{
    add_scenario("digest", scenario, validate);
    add_property("C16", gen);
}
