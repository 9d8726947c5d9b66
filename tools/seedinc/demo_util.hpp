// Helpers for the demonstrations: files in a scratch directory and reference hashes.
#pragma once
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <openssl/evp.h>

namespace du {
namespace fs = std::filesystem;
using bytes = std::vector<unsigned char>;

inline bytes content(std::size_t n, std::uint64_t seed)
{
    bytes b(n);
    std::uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    for (auto& c : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (unsigned char)(x >> 32) | 1; }
    return b;
}
inline void write(const fs::path& p, const bytes& b)
{
    fs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f.write((const char*)b.data(), (std::streamsize)b.size());
}
inline bytes digest(const char* name, const unsigned char* p, std::size_t n)
{
    bytes out(64); unsigned len = 0;
    EVP_Digest(p, n, out.data(), &len, EVP_get_digestbyname(name), nullptr);
    out.resize(len);
    return out;
}
inline bytes digest(const char* name, const bytes& b) { return digest(name, b.data(), b.size()); }
template <typename V> bool same(const bytes& a, const V& v) { return v.size() == a.size() && !std::memcmp(a.data(), v.data(), a.size()); }

// SHA-1 of every piece of the concatenation
inline std::vector<bytes> v1_pieces(const std::vector<bytes>& files, std::size_t ps)
{
    bytes all;
    for (auto& f : files) all.insert(all.end(), f.begin(), f.end());
    std::vector<bytes> r;
    for (std::size_t o = 0; o < all.size(); o += ps) r.push_back(digest("SHA1", all.data() + o, std::min(ps, all.size() - o)));
    return r;
}
// all layers of the v2 merkle tree, leaves first
inline std::vector<std::vector<bytes>> v2_layers(const bytes& d)
{
    std::vector<bytes> l;
    for (std::size_t o = 0; o < d.size(); o += 16384) l.push_back(digest("SHA256", d.data() + o, std::min<std::size_t>(16384, d.size() - o)));
    std::size_t w = 1;
    while (w < l.size()) w *= 2;
    l.resize(w, bytes(32, 0));
    std::vector<std::vector<bytes>> r{l};
    while (r.back().size() > 1) {
        std::vector<bytes> u;
        for (std::size_t i = 0; i < r.back().size(); i += 2) { bytes t = r.back()[i]; t.insert(t.end(), r.back()[i + 1].begin(), r.back()[i + 1].end()); u.push_back(digest("SHA256", t)); }
        r.push_back(u);
    }
    return r;
}
inline bytes v2_root(const bytes& d) { return v2_layers(d).back()[0]; }

[[noreturn]] inline void fail(const char* what) { std::printf("FAILED: %s\n", what); std::fflush(stdout); std::_Exit(1); }
inline void check(bool ok, const char* what) { if (!ok) fail(what); }
// ends the process with a failure if the program has not finished after s seconds
inline void watchdog(int s, const char* what)
{
    std::thread([=] { std::this_thread::sleep_for(std::chrono::seconds(s)); fail(what); }).detach();
}
}
