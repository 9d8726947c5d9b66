// Search / replay driver shared by all harness executables.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "../rt/simrt.h"

struct Spec {
    std::map<std::string, std::string> kv;
    void set(const std::string& k, const std::string& v) { kv[k] = v; }
    void set(const std::string& k, long v) { kv[k] = std::to_string(v); }
    void setd(const std::string& k, double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); kv[k] = b; }
    bool has(const std::string& k) const { return kv.count(k) != 0; }
    std::string str(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long num(const std::string& k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
    double dbl(const std::string& k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atof(i->second.c_str()); }
    std::vector<long> list(const std::string& k) const
    {
        std::vector<long> r;
        std::string s = str(k);
        size_t p = 0;
        while (p < s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); r.push_back(atol(s.substr(p, e - p).c_str())); p = e + 1; }
        return r;
    }
    void setlist(const std::string& k, const std::vector<long>& v)
    {
        std::string s;
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); }
        kv[k] = s;
    }
    std::string text() const { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "\n"; return s; }
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0xd1342543de82ef95ull + 77) { next(); }
    uint64_t next() { return sim_splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    long pick(std::initializer_list<long> v) { return *(v.begin() + below(v.size())); }
};

struct Property {
    const char* id;
    std::function<void(Spec&, Rng&, bool thorough)> gen;   // workload, fault rates, scenario=...
};
using ScenarioFn = void (*)(const Spec&);

// Supplied by each harness executable.
void register_all();
void add_property(const char* id, std::function<void(Spec&, Rng&, bool)> gen);
void add_scenario(const char* name, ScenarioFn fn, bool (*validate)(const Spec&) = nullptr);

// Schedule and preemption parameters, common to all workloads.
void gen_schedule(Spec& s, Rng& r, bool race);

int runner_main(int argc, char** argv);
