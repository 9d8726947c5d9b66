// C21: the multi-buffer hasher interface used directly by several threads.
#include "runner.hpp"
#include "common.hpp"
#include <cstring>
#include <memory>
#include <thread>
#include "dottorrent/hash_function.hpp"
#include "dottorrent/hasher/factory.hpp"

namespace dt = dottorrent;
namespace {

const dt::hash_function MF[] = {dt::hash_function::sha1, dt::hash_function::sha256, dt::hash_function::md5, dt::hash_function::sha512};
const char* MN[] = {"SHA1", "SHA256", "MD5", "SHA512"};
const size_t ML[] = {20, 32, 16, 64};

std::vector<std::byte> bytes(size_t n, uint64_t seed)
{
    std::vector<std::byte> b(n);
    uint64_t x = seed;
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = (std::byte)(x >> (8 * (i % 8))); }
    return b;
}

size_t part_size(Rng& r) { return (size_t)r.pick({0, 1, 31, 32, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000, 4096, 16384}); }

void worker(uint64_t seed, int rounds)
{
    Rng r(seed);
    int a = (int)r.below(4);
    auto h = dt::make_multi_buffer_hasher(MF[a]);
    std::vector<std::vector<std::vector<std::byte>>> job;   // parts per job
    for (int k = 0; k < rounds; ++k) {
        size_t n = (size_t)r.pick({1, 1, 2, 3, 4, 7, 16, 17, 33, 40});
        bool append = r.chance(0.3);
        if (append) h->reset(); else h->resize(n);
        if (!append && h->job_count() != n) sim_fail("mb-jobs", "%zu jobs after resize(%zu)", h->job_count(), n);
        job.assign(n, {});
        std::vector<size_t> left(n), at(n, 0);
        size_t total = 0;
        for (size_t i = 0; i < n; ++i) {
            size_t p = r.chance(0.6) ? 1 : (size_t)r.range(2, 4);
            for (size_t q = 0; q < p; ++q) job[i].push_back(bytes(part_size(r), seed * 131 + k * 17 + i * 5 + q));
            left[i] = p;
            total += p;
        }
        std::vector<size_t> id(n);
        if (append) for (size_t i = 0; i < n; ++i) {   // these overloads open a new job
            id[i] = left[i] == 1 ? h->submit(std::span<const std::byte>(job[i][0])) : h->submit_first(std::span<const std::byte>(job[i][0]));
            if (id[i] != i) sim_fail("mb-jobs", "job %zu got number %zu", i, id[i]);
            at[i] = 1; --total;
        }
        while (total) {
            size_t i = (size_t)r.below(n);
            while (at[i] == job[i].size()) i = (i + 1) % n;
            auto d = std::span<const std::byte>(job[i][at[i]]);
            if (job[i].size() == 1) h->submit(i, d);
            else if (at[i] == 0) h->submit_first(i, d);
            else if (at[i] + 1 < job[i].size()) h->submit_update(i, d);
            else h->submit_last(i, d);
            ++at[i]; --total;
        }
        size_t off = (size_t)r.below(n), step = n > 1 && r.chance(0.5) ? n - 1 : 1;
        for (size_t q = 0, i = off; q < n; ++q, i = (i + step) % n) {
            std::vector<std::byte> out(ML[a]), all;
            h->finalize_to(i, out);
            for (auto& p : job[i]) all.insert(all.end(), p.begin(), p.end());
            unsigned char ref[64]; unsigned rl = 0;
            sim_ref_digest(MN[a], all.data(), all.size(), ref, &rl);
            if (rl != out.size() || memcmp(ref, out.data(), rl)) sim_fail("mb-digest", "%s of job %zu of %zu (%zu bytes in %zu parts) is wrong", MN[a], i, n, all.size(), job[i].size());
        }
        sim_probe(50);
    }
}

void scenario(const Spec& s)
{
    std::vector<std::thread> th;
    for (long i = 0; i < s.num("threads", 1); ++i) th.emplace_back([&s, i] { worker((uint64_t)(s.num("cseed", 1) * 1000 + i), (int)s.num("rounds", 2)); });
    for (auto& t : th) t.join();
}

bool validate(const Spec& s) { return s.num("threads", 1) >= 1 && s.num("threads", 1) <= 4 && s.num("rounds", 2) >= 1 && s.num("rounds", 2) <= 8; }
}

void gen_mbdigest(Spec& s, Rng& r, bool t)
{
    s.set("scenario", "mbdigest");
    gen_schedule(s, r, r.chance(0.5));
    s.set("threads", r.range(1, 3));
    s.set("rounds", r.range(1, t ? 5 : 3));
    s.set("cseed", r.range(1, 1000000));
}
void register_mbdigest() { add_scenario("mbdigest", scenario, validate); }
