// C12 (and the pool part of C15): dottorrent::pool::object_pool.
#include "runner.hpp"
#include "common.hpp"
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <thread>
#include "dottorrent/object_pool.hpp"

namespace {

// Bookkeeping is updated at the linearisation points of the harness only, by whichever simulated
// thread runs; it is plain data because only one simulated thread executes at a time.
long g_live, g_peak, g_made, g_out, g_cap;
bool g_pool_gone;
long g_ids[4096];     // 0 unknown, 1 alive, 2 destroyed

__attribute__((no_sanitize("thread"))) void obj_made(long id) { if (id < 4096) g_ids[id] = 1; ++g_live; if (g_live > g_peak) g_peak = g_live; }
__attribute__((no_sanitize("thread"))) void obj_gone(long id)
{
    if (id < 0 || id >= 4096 || g_ids[id] != 1) sim_fail("pool-double-destroy", "pooled object %ld destroyed twice", id);
    g_ids[id] = 2;
    --g_live;
}
__attribute__((no_sanitize("thread"))) long next_id() { return g_made++; }
__attribute__((no_sanitize("thread"))) void took() { ++g_out; if (g_out > g_cap) sim_fail("pool-over-capacity", "%ld objects of a pool with capacity %ld are held at the same time", g_out, g_cap); }
__attribute__((no_sanitize("thread"))) void gave() { --g_out; }

struct Obj {
    long id, owner = 0, refs = 1;
    bool dirty = false, recycled = false;
    std::unique_ptr<long> heap;
    Obj() : id(next_id()), heap(new long(7)) { obj_made(id); }
    ~Obj() { obj_gone(id); }
    Obj(const Obj&) = delete;
};

struct Policy {
    static std::shared_ptr<Obj> construct() { return std::make_shared<Obj>(); }
    static void recycle(std::shared_ptr<Obj>& p) { p->dirty = false; }
};
using Pool = dottorrent::pool::object_pool<Obj, Policy>;
using Ptr = std::shared_ptr<Obj>;

struct Mailbox {
    std::mutex m;
    std::condition_variable cv;
    std::deque<Ptr> q;
    bool closed = false;
    void put(Ptr p) { { std::lock_guard l(m); q.push_back(std::move(p)); } cv.notify_all(); }
    void close() { { std::lock_guard l(m); closed = true; } cv.notify_all(); }
    bool get(Ptr& p)
    {
        std::unique_lock l(m);
        cv.wait(l, [&] { return closed || !q.empty(); });
        if (q.empty()) return false;
        p = std::move(q.front());
        q.pop_front();
        return true;
    }
};

// The token identifying the present tenancy of an object travels in the object itself.
__attribute__((no_sanitize("thread"))) void on_get(Obj& o, long tok)
{
    if (o.owner != 0) sim_fail("pool-shared-object", "object %ld was handed out while its holder %ld still has it", o.id, o.owner);
    if (o.dirty) sim_fail("pool-not-recycled", "object %ld was handed out again without having been recycled", o.id);
    if (!o.heap || *o.heap != 7) sim_fail("pool-bad-object", "object %ld is damaged", o.id);
    o.owner = tok;
    o.refs = 1;
    o.dirty = true;
    took();
}
// Several holders may share one object; the pool may have it back once the last one lets go.
__attribute__((no_sanitize("thread"))) void let_go(Obj& o) { if (--o.refs == 0) { o.owner = 0; gave(); } }
__attribute__((no_sanitize("thread"))) void set_refs(Obj& o, long n) { o.refs = n; }
__attribute__((no_sanitize("thread"))) long owner_of(Obj& o) { return o.owner; }
void drop(Ptr& p)
{
    let_go(*p);
    p.reset();
}

void scenario(const Spec& s)
{
    sim_arm_all(CH_ALLOC_FAIL, 0);
    long cap = s.num("cap", 1), pre = s.num("pre", 0);
    g_cap = cap;
    int nh = (int)s.num("holders", 2);
    int ng = (int)s.num("getters", 1);
    long hold = s.num("hold", 2);
    bool early = s.num("early", 0);         // pool destroyed while objects are still out
    bool moved = s.num("moved", 0);
    std::vector<long> prog = s.list("prog");   // per get: destination holder, or -1 released at once, -2 kept until the end of the getter's turn
    {
        std::optional<Pool> pool;
        if (pre >= 0) pool.emplace((Pool::size_type)cap, (Pool::size_type)pre); else pool.emplace((Pool::size_type)cap);
        std::optional<Pool> second;
        if (moved) { second.emplace(std::move(*pool)); pool.reset(); pool.emplace(std::move(*second)); second.reset(); }
        std::vector<std::unique_ptr<Mailbox>> mb;
        for (int i = 0; i < nh; ++i) mb.push_back(std::make_unique<Mailbox>());
        std::vector<std::thread> th;
        for (int i = 0; i < nh; ++i)
            th.emplace_back([&, i] {
                Ptr p;
                while (mb[i]->get(p)) {
                    long o = owner_of(*p), id = p->id;
                    for (long k = 0; k < hold; ++k) {
                        sim_yield();
                        if (owner_of(*p) != o || p->id != id || !p->heap || *p->heap != 7) sim_fail("pool-shared-object", "object %ld changed under its holder", id);
                    }
                    drop(p);
                }
            });
        std::mutex gm;
        auto get_one = [&](long tok) -> Ptr {
            for (int tries = 0; tries < 50; ++tries) {
                try {
                    sim_arm_once(CH_ALLOC_FAIL);
                    Ptr p = pool->get();
                    sim_arm(CH_ALLOC_FAIL, 0);
                    if (!p) sim_fail("pool-null", "get returned a null pointer");
                    on_get(*p, tok);
                    return p;
                } catch (const std::bad_alloc&) {
                    sim_arm(CH_ALLOC_FAIL, 0);
                    sim_probe(1);
                }
            }
            sim_fail("pool-get-fails", "get keeps failing although allocations succeed");
            return {};
        };
        std::vector<std::thread> gt;
        for (int g = 0; g < ng; ++g)
            gt.emplace_back([&, g] {
                std::vector<Ptr> kept;
                for (size_t k = g; k < prog.size(); k += ng) {
                    Ptr p;
                    {
                        std::lock_guard l(gm);        // get is called by one thread at a time
                        if (kept.size() * ng + 1 > (size_t)cap) { for (auto& x : kept) drop(x); kept.clear(); }
                        p = get_one((long)k + 1);
                    }
                    if (prog[k] >= 1000 && nh > 1) {
                        long n = 2 + prog[k] % 2;
                        set_refs(*p, n);
                        sim_probe(6);
                        for (long j = 1; j < n; ++j) mb[(prog[k] + j) % nh]->put(p);
                        mb[prog[k] % nh]->put(std::move(p));
                        continue;
                    }
                    if (prog[k] == -1 || nh == 0) drop(p);
                    else if (prog[k] == -2 && (kept.size() + 1) * ng < (size_t)cap) kept.push_back(std::move(p));
                    else if (prog[k] == -2) drop(p);
                    else mb[prog[k] % nh]->put(std::move(p));
                }
                for (auto& x : kept) drop(x);
            });
        for (auto& t : gt) t.join();
        if (early) { pool.reset(); sim_probe(2); }
        for (auto& m : mb) m->close();
        for (auto& t : th) t.join();
        if (!early) {
            // everything has been released: the pool must be able to deliver its whole capacity again
            std::vector<Ptr> all;
            if (cap <= 16) {
                for (long i = 0; i < cap; ++i) { sim_arm(CH_ALLOC_FAIL, 0); Ptr p = pool->get(); if (!p) sim_fail("pool-null", "get returned a null pointer"); on_get(*p, 1000 + i); all.push_back(p); p.reset(); }
                sim_probe(3);
            }
            if (s.num("outlive", 0)) { pool.reset(); sim_probe(4); }
            for (auto& p : all) {
                if (!p->heap || *p->heap != 7) sim_fail("pool-bad-object", "object %ld is damaged after the pool was destroyed", p->id);
                drop(p);
            }
            all.clear();
            if (pool) {
                if ((long)pool->size() > cap) sim_fail("pool-over-capacity", "pool stores %ld objects, capacity %ld", (long)pool->size(), cap);
                pool.reset();
            }
        }
    }
    if (g_peak > cap) sim_fail("pool-over-capacity", "%ld objects existed at the same time, capacity %ld", g_peak, cap);
    if (g_live != 0) sim_fail("pool-leak", "%ld pooled objects were never destroyed", g_live);
}

bool validate(const Spec& s)
{
    long cap = s.num("cap", 1), pre = s.num("pre", 0), g = s.num("getters", 1);
    return cap >= 1 && cap <= 64 && pre >= -1 && pre <= cap && g >= 1 && g <= 4 && s.num("holders", 2) >= 0 && s.num("holders", 2) <= 6 && s.list("prog").size() <= 60;
}

void gen(Spec& s, Rng& r, bool thorough)
{
    s.set("scenario", "pool");
    gen_schedule(s, r, false);
    long cap = r.pick({1, 1, 2, 2, 3, 4, 5});
    s.set("cap", cap);
    s.set("pre", r.chance(0.5) ? -1 : r.range(0, cap));
    int nh = (int)r.range(0, 4);
    s.set("holders", nh);
    s.set("getters", r.chance(0.7) ? 1 : r.range(2, 3));
    s.set("hold", r.range(0, 4));
    s.set("early", r.chance(0.3));
    s.set("moved", r.chance(0.2));
    s.set("outlive", r.chance(0.5));
    std::vector<long> p;
    int n = (int)r.range(1, thorough ? 20 : 12);
    for (int i = 0; i < n; ++i) p.push_back(r.chance(0.2) ? -1 : r.chance(0.2) ? -2 : r.chance(0.3) ? 1000 + (long)r.below(12) : (long)r.below(nh ? nh : 1));
    s.setlist("prog", p);
    if (r.chance(0.3)) s.setd("p_alloc_fail", r.pick(std::vector<double>{0.05, 0.3}));
}

} // namespace

void gen_pool_race(Spec& s, Rng& r, bool thorough)
{
    gen(s, r, thorough);
    s.set("race", 1);
    s.kv.erase("p_alloc_fail");
}

void register_pool()
{
    add_scenario("pool", scenario, validate);
    add_property("C12", gen);
}
