// C10, C11 (and the queue part of C15): dottorrent::concurrent_queue under arbitrary histories.
#include <atomic>
#include <mutex>
#include "runner.hpp"
#include "common.hpp"
#include <set>
#include <thread>
#include <unordered_set>
#include "dottorrent/concurrent_queue.hpp"

namespace {

struct Elem {
    long v = 0, nv = ~0l;
    std::unique_ptr<long> heap;
    Elem() = default;
    explicit Elem(long x) : v(x), nv(~x), heap(new long(x)) {}
    Elem(const Elem& o) { maybe_throw(); v = o.v; nv = o.nv; if (o.heap) heap.reset(new long(*o.heap)); }
    Elem(Elem&& o) { maybe_throw(); take(o); }
    Elem& operator=(const Elem& o) { maybe_throw(); v = o.v; nv = o.nv; heap.reset(o.heap ? new long(*o.heap) : nullptr); return *this; }
    Elem& operator=(Elem&& o) { maybe_throw(); take(o); return *this; }
    void take(Elem& o) { v = o.v; nv = o.nv; heap = std::move(o.heap); o.v = -1; o.nv = 0; }
    static void maybe_throw() { if (sim_fault(CH_USER_THROW, 1)) throw std::runtime_error("element operation failed"); }
    long get() const { return (v == ~nv && heap && *heap == v) ? v : -999; }
};

enum { QPUSH = 1, QTPUSH_OK, QTPUSH_NO, QPOP, QTPOP_OK, QTPOP_NO, QSIZE, QSETCAP };

struct Op { uint64_t inv, res; int kind; long val; int tid; };

// Wing and Gong search with memoisation on (set of linearised operations, queue contents is a
// function of that set's order only through its FIFO state, so the state is part of the key).
struct Lin {
    std::vector<Op> ops;
    std::unordered_set<std::string> seen;
    uint64_t visited = 0;
    long cap0;
    bool gave_up = false;
    bool go(uint64_t done, std::vector<long>& q, size_t head, long cap)
    {
        size_t n = ops.size();
        if (done == (n == 64 ? ~0ull : ((1ull << n) - 1))) return true;
        if (++visited > 400000) { gave_up = true; return true; }
        std::string key((const char*)&done, 8);
        key.append((const char*)&cap, 8);
        key.append((const char*)(q.data() + head), (q.size() - head) * sizeof(long));
        if (!seen.insert(key).second) return false;
        uint64_t minres = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].res < minres) minres = ops[i].res;
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1) continue;
            const Op& o = ops[i];
            if (o.inv > minres) continue;
            long sz = (long)(q.size() - head);
            switch (o.kind) {
            case QPUSH: case QTPUSH_OK:
                if (sz >= cap) break;
                q.push_back(o.val);
                if (go(done | 1ull << i, q, head, cap)) return true;
                q.pop_back();
                break;
            case QTPUSH_NO: if (sz >= cap && go(done | 1ull << i, q, head, cap)) return true; break;
            case QPOP: case QTPOP_OK:
                if (sz > 0 && q[head] == o.val && go(done | 1ull << i, q, head + 1, cap)) return true;
                break;
            case QTPOP_NO: if (sz == 0 && go(done | 1ull << i, q, head, cap)) return true; break;
            case QSIZE: if (sz == o.val && go(done | 1ull << i, q, head, cap)) return true; break;
            case QSETCAP: if (go(done | 1ull << i, q, head, o.val)) return true; break;
            }
        }
        return false;
    }
};

const char* opname(int k)
{
    static const char* N[] = {"?", "push", "try_push->true", "try_push->false", "pop", "try_pop->true", "try_pop->false", "size", "set_capacity"};
    return N[k];
}

using Queue = dottorrent::concurrent_queue<Elem>;

struct Shared {
    Queue q;
    std::mutex capmu;      // capacity changes are issued one at a time, so the harness knows the capacity in force
    explicit Shared(size_t c) : q(c) {}
};
// per-thread state kept outside instrumented memory semantics: written by one simulated thread, read at quiescence
struct TState { volatile int pending = 0; volatile int done = 0; };

void record(uint64_t inv, int kind, long val) { sim_hist(kind, (int64_t)inv, val, 0); }

void exec_op(Shared& S, const std::string& tok, TState& st, std::atomic<long>& curcap)
{
    char c = tok[0];
    long a = tok.size() > 1 ? atol(tok.c_str() + 1) : 0;
    sim_arm(CH_USER_THROW, 0);
    sim_arm(CH_ALLOC_FAIL, 0);
    uint64_t inv = sim_event();
    auto arm = [](int on) { sim_arm(CH_USER_THROW, on); if (on) sim_arm_once(CH_ALLOC_FAIL); else sim_arm(CH_ALLOC_FAIL, 0); };
    try {
        switch (c) {
        case 'P': { Elem e(a); st.pending = 1; arm(1); S.q.push(e); arm(0); st.pending = 0; record(inv, QPUSH, a); break; }
        case 'M': { Elem e(a); st.pending = 1; arm(1); S.q.push(std::move(e)); arm(0); st.pending = 0; record(inv, QPUSH, a); break; }
        case 'T': { Elem e(a); arm(1); bool ok = S.q.try_push(std::move(e)); arm(0); record(inv, ok ? QTPUSH_OK : QTPUSH_NO, a);
                    if (!ok && e.get() != a) sim_fail("queue-try-push-consumed", "try_push refused item %ld but moved it away", a);
                    break; }
        case 'O': { Elem e; st.pending = 2; arm(1); S.q.pop(e); arm(0); st.pending = 0; record(inv, QPOP, e.get()); break; }
        case 'Y': { Elem e; arm(1); bool ok = S.q.try_pop(e); arm(0); record(inv, ok ? QTPOP_OK : QTPOP_NO, ok ? e.get() : 0); break; }
        case 'S': { long n = (long)S.q.size(); record(inv, QSIZE, n); break; }
        case 'C': { std::lock_guard<std::mutex> lk(S.capmu); inv = sim_event(); S.q.set_capacity((size_t)a); curcap = a; record(inv, QSETCAP, a); break; }
        case 'W': for (long i = 0; i < a; ++i) sim_yield(); break;
        }
    } catch (const std::exception&) {
        sim_arm(CH_USER_THROW, 0);
        sim_arm(CH_ALLOC_FAIL, 0);
        st.pending = 0;
        sim_probe(1);      // an operation failed and must have had no effect
        if (sim_user_faults() == 0) sim_fail("queue-exception", "an operation threw although nothing failed underneath");
    }
    sim_arm(CH_USER_THROW, 0);
    sim_arm(CH_ALLOC_FAIL, 0);
}

void scenario(const Spec& s)
{
    sim_arm_all(CH_USER_THROW, 0);
    sim_arm_all(CH_ALLOC_FAIL, 0);
    long cap0 = s.num("cap", 1);
    std::atomic<long> curcap{cap0};
    int nt = (int)s.num("threads", 2);
    bool check_block = s.num("block", 0), check_lin = s.num("lin", 0);
    std::vector<std::vector<std::string>> prog(nt);
    for (int i = 0; i < nt; ++i) prog[i] = split(s.str("t" + std::to_string(i)));
    std::vector<TState> st(nt + 1);
    auto* S = new Shared((size_t)cap0);
    {
        std::vector<std::thread> th;
        for (int i = 0; i < nt; ++i)
            th.emplace_back([&, i] { for (auto& t : prog[i]) exec_op(*S, t, st[i], curcap); st[i].done = 1; });
        long filler = 100000;
        for (int round = 0;; ++round) {
            sim_wait_quiescent();
            int push = 0, pop = 0, live = 0;
            for (int i = 0; i < nt; ++i) {
                if (!st[i].done) ++live;
                if (st[i].pending == 1) ++push;
                if (st[i].pending == 2) ++pop;
            }
            if (!live) break;
            if (push) sim_probe(2);
            if (pop) sim_probe(3);
            if (!push && !pop) sim_fail("queue-stuck", "a thread is blocked in an operation that must not block");
            uint64_t inv = sim_event();
            long sz = (long)S->q.size();
            record(inv, QSIZE, sz);
            if (check_block && push && sz < curcap)
                sim_fail("queue-needless-block", "%d thread(s) blocked in push although the queue holds %ld of %ld items and nothing else is running", push, sz, curcap.load());
            if (check_block && pop && sz > 0)
                sim_fail("queue-needless-block", "%d thread(s) blocked in pop although the queue holds %ld items and nothing else is running", pop, sz);
            if (!check_block && ((push && sz < curcap) || (pop && sz > 0))) break;   // C11's business: stop here, judge the history so far
            TState dummy;
            if (push && s.num("raise", 0) && round % 2 == 0) exec_op(*S, "C" + std::to_string(curcap + 1), dummy, curcap);
            else if (push && sz > 0) exec_op(*S, "Y", dummy, curcap);
            else if (push) exec_op(*S, "C" + std::to_string(curcap + 1), dummy, curcap);   // capacity was zero
            else if (sz < curcap) exec_op(*S, "T" + std::to_string(filler++), dummy, curcap);
            else exec_op(*S, "C" + std::to_string(curcap + 1), dummy, curcap);
            if (round > 400) sim_fail("queue-stuck", "blocked operations did not finish although their conditions were met");
        }
        bool all = true;
        for (int i = 0; i < nt; ++i) all = all && st[i].done;
        if (all) {
            for (auto& t : th) t.join();
            TState dummy;
            for (int k = 0; k < 300; ++k) {
                uint64_t inv = sim_event();
                long n = (long)S->q.size();
                record(inv, QSIZE, n);
                if (n == 0) break;
                exec_op(*S, "Y", dummy, curcap);
            }
            exec_op(*S, "Y", dummy, curcap);
            delete S;
            sim_probe(4);
        } else {
            for (auto& t : th) t.detach();
            th.clear();
        }
        sim_leave();
    }
    if (!check_lin) return;
    Lin L;
    L.cap0 = cap0;
    size_t n;
    const SimEv* h = sim_hist_get(&n);
    for (size_t i = 0; i < n; ++i) L.ops.push_back(Op{(uint64_t)h[i].a, h[i].seq, h[i].op, (long)h[i].b, h[i].tid});
    if (L.ops.size() > 64) { sim_probe(60); return; }
    std::vector<long> q;
    q.reserve(128);
    bool ok = L.go(0, q, 0, cap0);
    if (L.gave_up) sim_probe(61);
    if (!ok) {
        std::string m;
        for (auto& o : L.ops) {
            char b[160];
            snprintf(b, sizeof b, "\n   T%d %s(%ld) from %lu to %lu", o.tid, opname(o.kind), o.val, (unsigned long)o.inv, (unsigned long)o.res);
            m += b;
        }
        sim_fail("queue-not-linearizable", "no sequential order of a FIFO with initial capacity %ld explains the history%s", cap0, m.c_str());
    }
}

bool validate(const Spec& s)
{
    long nt = s.num("threads", 2);
    if (nt < 1 || nt > 8 || s.num("cap", 1) < 0) return false;
    int setters = 0;
    size_t ops = 0;
    for (int i = 0; i < nt; ++i) {
        bool set = false;
        for (auto& t : split(s.str("t" + std::to_string(i)))) { if (t.empty()) return false; if (t[0] == 'C') set = true; if (t[0] != 'W') ++ops; }
        setters += set;
    }
    for (int i = (int)nt; i < 9; ++i) if (s.has("t" + std::to_string(i))) return false;
    return setters <= 1 && ops <= 34;
}

void gen(Spec& s, Rng& r, bool thorough, bool lin, bool block)
{
    s.set("scenario", "queue");
    gen_schedule(s, r, false);
    int nt = (int)r.range(2, thorough ? 6 : 5);
    s.set("threads", nt);
    long cap = r.pick({1, 1, 1, 2, 2, 3, 4, 0, 8, 1000000});
    s.set("cap", cap);
    s.set("lin", lin);
    s.set("block", block);
    int setter = r.chance(0.35) ? (int)r.below(nt) : -1;
    if (r.chance(0.3)) s.set("raise", 1);
    int total = (int)r.range(4, thorough ? 24 : 18);
    long val = 1;
    int style = (int)r.below(4);   // mixed, blocking only, producers/consumers, non-blocking heavy
    std::vector<std::string> p(nt);
    for (int k = 0; k < total; ++k) {
        int t = (int)r.below(nt);
        std::string tok;
        int x = (int)r.below(100);
        if (t == setter && r.chance(0.3)) tok = "C" + std::to_string(r.pick({0, 1, 1, 2, 2, 3, 4}));
        else if (style == 1) tok = x < 50 ? (x < 25 ? "P" : "M") : "O";
        else if (style == 2) tok = t % 2 ? (x < 80 ? "O" : "Y") : (x < 40 ? "P" : x < 80 ? "M" : "T");
        else if (style == 3) tok = x < 40 ? "T" : x < 80 ? "Y" : x < 90 ? "P" : "O";
        else tok = x < 16 ? "P" : x < 32 ? "M" : x < 48 ? "T" : x < 70 ? "O" : x < 86 ? "Y" : x < 95 ? "S" : "W3";
        if (tok == "P" || tok == "M" || tok == "T") tok += std::to_string(val++);
        p[t] += (p[t].empty() ? "" : ",") + tok;
    }
    for (int i = 0; i < nt; ++i) s.set("t" + std::to_string(i), p[i]);
    if (lin && r.chance(0.2)) { s.setd("p_user_throw", 0.15); }
    if (lin && r.chance(0.15)) { s.setd("p_alloc_fail", 0.3); }
}

} // namespace

void gen_queue_race(Spec& s, Rng& r, bool thorough)
{
    gen(s, r, thorough, false, false);
    s.set("race", 1);
}

void register_queue()
{
    add_scenario("queue", scenario, validate);
    add_property("C10", [](Spec& s, Rng& r, bool t) { gen(s, r, t, true, false); });
    add_property("C11", [](Spec& s, Rng& r, bool t) { gen(s, r, t, false, true); });
}
