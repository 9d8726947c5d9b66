// C13 (and the processor part of C15): dottorrent::concurrent_queue_processor.
#include "runner.hpp"
#include "common.hpp"
#include <algorithm>
#include <chrono>
#include <optional>
#include <thread>
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/concurrent_queue_processor.hpp"

namespace {

struct Item {
    long v = -1, nv = 0;
    std::unique_ptr<long> heap;
    Item() = default;
    explicit Item(long x) : v(x), nv(~x), heap(new long(x)) {}
    Item(Item&& o) noexcept { take(o); }
    Item& operator=(Item&& o) noexcept { take(o); return *this; }
    Item(const Item& o) : v(o.v), nv(o.nv), heap(o.heap ? new long(*o.heap) : nullptr) {}
    Item& operator=(const Item& o) { v = o.v; nv = o.nv; heap.reset(o.heap ? new long(*o.heap) : nullptr); return *this; }
    void take(Item& o) { v = o.v; nv = o.nv; heap = std::move(o.heap); o.v = -1; o.nv = 0; }
    long get() const { return v == ~nv && heap && *heap == v ? v : -999; }
};

enum { EV_CALL = 1, EV_DONE, EV_QUEUED };
long g_inside;
bool g_returned;
__attribute__((no_sanitize("thread"))) void enter(long id)
{
    ++g_inside;
    if (g_returned) sim_fail("processor-late-call", "the work function was invoked with item %ld after wait had returned", id);
}
__attribute__((no_sanitize("thread"))) void leave() { --g_inside; }
__attribute__((no_sanitize("thread"))) void set_returned() { g_returned = true; }
__attribute__((no_sanitize("thread"))) long inside() { return g_inside; }

using Proc = dottorrent::concurrent_queue_processor<Item>;

void scenario(const Spec& s)
{
    long cap = s.num("cap", 4);
    int workers = (int)s.num("workers", 1);
    int producers = (int)s.num("producers", 1);
    int items = (int)s.num("items", 4);
    std::string mode = s.str("mode", "stop");     // stop, cancel, destroy, never
    long delay = s.num("delay", 0);
    long work = s.num("work", 1);
    bool concurrent = s.num("concurrent", 0);     // producers still running when the cancellation is requested
    {
        auto proc = std::make_unique<Proc>(cap == 0 ? std::numeric_limits<std::size_t>::max() : (size_t)cap);
        proc->set_work_function([work](Item&& it) {
            long id = it.get();
            enter(id);
            sim_hist(EV_CALL, id, 0, 0);
            for (long i = 0; i < work; ++i) sim_yield();
            Item mine(std::move(it));
            if (mine.get() != id) sim_fail("processor-altered-item", "item %ld changed while it was being processed", id);
            sim_hist(EV_DONE, id, 0, 0);
            leave();
        });
        proc->set_max_concurrency((size_t)workers);
        if (proc->started() || proc->running()) sim_fail("processor-state", "reports started before start");
        if (mode != "never") {
            auto queue = proc->get_queue();
            bool before = s.num("before", 0) && (cap == 0 || items <= cap);   // items queued before start
            auto produce = [&](int p) {
                for (int i = p; i < items; i += producers) {
                    sim_hist(EV_QUEUED, i, 0, 0);
                    std::optional<Item> it(std::in_place, (long)i);
                    if (i % 2) queue->push(std::move(it)); else queue->push(it);
                }
            };
            std::vector<std::thread> th;
            if (before) { for (int p = 0; p < producers; ++p) produce(p); }
            proc->start();
            if (!proc->started()) sim_fail("processor-state", "does not report started after start");
            if (!before) for (int p = 0; p < producers; ++p) th.emplace_back([&, p] { produce(p); });
            if (mode == "cancel") {
                if (!concurrent) { for (auto& t : th) t.join(); th.clear(); }
                sim_wait_steps((uint64_t)delay);
                proc->request_cancellation();
                if (!proc->cancelled()) sim_fail("processor-state", "does not report cancelled after a cancellation request");
                for (auto& t : th) t.join();
                if (!s.num("nowait", 0)) proc->wait(); else proc.reset();
            } else {
                for (auto& t : th) t.join();
                sim_wait_steps((uint64_t)delay);
                if (mode == "stop") { proc->request_stop(); proc->wait(); }
            }
            if (mode == "destroy") proc.reset();
            set_returned();
            if (inside()) sim_fail("processor-early-return", "wait returned while %ld invocations were running", inside());
            if (proc && !proc->done()) sim_fail("processor-state", "does not report done after wait returned");
            if (sim_live_threads() > 1) sim_fail("processor-threads-left", "%d worker threads are alive after wait returned", sim_live_threads() - 1);
        }
        proc.reset();
    }
    sim_leave();
    if (mode == "never") return;
    size_t n;
    const SimEv* h = sim_hist_get(&n);
    std::vector<int> calls(items, 0), fin(items, 0);
    for (size_t i = 0; i < n; ++i) {
        if (h[i].op == EV_CALL) {
            if (h[i].a < 0 || h[i].a >= items) sim_fail("processor-altered-item", "the work function received an item that was never queued (%ld)", (long)h[i].a);
            calls[h[i].a]++;
        }
        if (h[i].op == EV_DONE) fin[h[i].a]++;
    }
    int missed = 0;
    for (int i = 0; i < items; ++i) {
        if (calls[i] > 1) sim_fail("processor-twice", "item %d was processed %d times", i, calls[i]);
        if (calls[i] != fin[i]) sim_fail("processor-unfinished", "the invocation for item %d did not finish", i);
        if (calls[i] == 0) { ++missed; if (mode != "cancel") sim_fail("processor-lost", "item %d, queued before the stop request, was never processed", i); }
    }
    if (missed) sim_probe(1);
}

bool validate(const Spec& s)
{
    long w = s.num("workers", 1), p = s.num("producers", 1), n = s.num("items", 4), cap = s.num("cap", 4);
    if (w < 0 || w > 8 || p < 1 || p > 4 || n < 0 || n > 60 || cap < 0) return false;
    if (s.num("concurrent", 0) && cap != 0) return false;
    std::string m = s.str("mode", "stop");
    if (w == 0 && s.num("nprocs", 1) < 1) return false;
    return m == "stop" || m == "cancel" || m == "destroy" || m == "never";
}

void gen(Spec& s, Rng& r, bool thorough)
{
    s.set("scenario", "processor");
    gen_schedule(s, r, false);
    s.set("cap", r.pick({0, 0, 1, 1, 2, 3, 4, 8}));
    s.set("workers", r.pick({0, 1, 1, 2, 2, 3, 4}));
    s.set("producers", r.range(1, 3));
    s.set("items", r.range(0, thorough ? 24 : 14));
    int m = (int)r.below(20);
    s.set("mode", m < 9 ? "stop" : m < 16 ? "cancel" : m < 19 ? "destroy" : "never");
    s.set("delay", r.chance(0.3) ? 0 : (long)r.below(r.chance(0.5) ? 30 : 250));
    if (s.str("mode") == "cancel" && r.chance(0.15)) s.set("nowait", 1);
    s.set("work", r.range(0, 3));
    s.set("before", r.chance(0.2));
    s.set("concurrent", s.num("cap") == 0 && r.chance(0.5));
}

} // namespace

void gen_processor_race(Spec& s, Rng& r, bool thorough)
{
    gen(s, r, thorough);
    s.set("race", 1);
}

void register_processor()
{
    add_scenario("processor", scenario, validate);
    add_property("C13", gen);
}
