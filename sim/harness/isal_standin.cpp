// Stand-in for isa-l_crypto's multi-buffer managers.  A submitted job stays in flight, its buffer
// unread, until the simulator lets it complete: during a later submit (of any job) or a flush, in any
// order; a full manager completes at least one job per submit, a flush at least one if there is any.
#define OPENSSL_SUPPRESS_DEPRECATED
#include <string.h>
#include <new>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include "isa-l_crypto/md5_mb.h"
#include "isa-l_crypto/sha1_mb.h"
#include "isa-l_crypto/sha256_mb.h"
#include "isa-l_crypto/sha512_mb.h"
#include "../rt/simrt.h"

namespace {

struct Md5 { using C = MD5_CTX; enum { BLOCK = 64, OUT = 16 }; static void init(C* c) { MD5_Init(c); } static void up(C* c, const void* p, size_t n) { MD5_Update(c, p, n); } static void fin(unsigned char* o, C* c) { MD5_Final(o, c); }
    static uint32_t word(const unsigned char* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; } };
struct S1 { using C = SHA_CTX; enum { BLOCK = 64, OUT = 20 }; static void init(C* c) { SHA1_Init(c); } static void up(C* c, const void* p, size_t n) { SHA1_Update(c, p, n); } static void fin(unsigned char* o, C* c) { SHA1_Final(o, c); }
    static uint32_t word(const unsigned char* p) { return (uint32_t)p[3] | (uint32_t)p[2] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[0] << 24; } };
struct S256 { using C = SHA256_CTX; enum { BLOCK = 64, OUT = 32 }; static void init(C* c) { SHA256_Init(c); } static void up(C* c, const void* p, size_t n) { SHA256_Update(c, p, n); } static void fin(unsigned char* o, C* c) { SHA256_Final(o, c); }
    static uint32_t word(const unsigned char* p) { return S1::word(p); } };
struct S512 { using C = SHA512_CTX; enum { BLOCK = 128, OUT = 64 }; static void init(C* c) { SHA512_Init(c); } static void up(C* c, const void* p, size_t n) { SHA512_Update(c, p, n); } static void fin(unsigned char* o, C* c) { SHA512_Final(o, c); }
    static uint64_t word(const unsigned char* p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; return v; } };

template <typename A, typename CTX> typename A::C* state(CTX* c) { static_assert(sizeof(typename A::C) <= sizeof(c->state)); return (typename A::C*)c->state; }

template <typename A, typename CTX> void feed(CTX* ctx)
{
    const unsigned char* p = (const unsigned char*)ctx->incoming_buffer;
    for (size_t n = ctx->incoming_buffer_length; n;) {   // through a copy, so that the reads are seen by the race detector
        unsigned char t[2048];
        size_t k = n < sizeof t ? n : sizeof t;
        memcpy(t, p, k);
        A::up(state<A>(ctx), t, k);
        p += k;
        n -= k;
    }
    ctx->incoming_buffer = nullptr;
    ctx->incoming_buffer_length = 0;
}

template <typename A, typename MGR> auto complete(MGR* m, unsigned i)
{
    auto* ctx = m->lane[i];
    for (unsigned k = i; k + 1 < m->in_flight; ++k) m->lane[k] = m->lane[k + 1];
    --m->in_flight;
    feed<A>(ctx);
    if (ctx->status & HASH_CTX_STS_LAST) {
        unsigned char out[64];
        A::fin(out, state<A>(ctx));
        for (size_t k = 0; k < A::OUT / sizeof(ctx->job.result_digest[0]); ++k) ctx->job.result_digest[k] = A::word(out + k * sizeof(ctx->job.result_digest[0]));
        ctx->status = HASH_CTX_STS_COMPLETE;
    } else ctx->status = HASH_CTX_STS_IDLE;
    return ctx;
}

template <typename A, typename MGR, typename CTX> CTX* submit(MGR* m, CTX* ctx, const void* buf, uint32_t len, HASH_CTX_FLAG flags)
{
    sim_yield();
    if (((uintptr_t)m | (uintptr_t)ctx) % 16) sim_fail("isal-alignment", "a job or its manager is not aligned");
    if (flags & ~HASH_ENTIRE) { ctx->error = HASH_CTX_ERROR_INVALID_FLAGS; return ctx; }
    if (ctx->status & HASH_CTX_STS_PROCESSING) { ctx->error = HASH_CTX_ERROR_ALREADY_PROCESSING; return ctx; }
    if ((ctx->status & HASH_CTX_STS_COMPLETE) && !(flags & HASH_FIRST)) { ctx->error = HASH_CTX_ERROR_ALREADY_COMPLETED; return ctx; }
    if (flags & HASH_FIRST) { A::init(state<A>(ctx)); ctx->total_length = 0; }
    ctx->error = HASH_CTX_ERROR_NONE;
    ctx->incoming_buffer = buf;
    ctx->incoming_buffer_length = len;
    ctx->status = flags & HASH_LAST ? (HASH_CTX_STS)(HASH_CTX_STS_PROCESSING | HASH_CTX_STS_LAST) : HASH_CTX_STS_PROCESSING;
    size_t part = ctx->total_length % A::BLOCK;
    ctx->total_length += len;
    if (!(flags & HASH_LAST) && part + len < A::BLOCK) {   // only buffered inside the context
        feed<A>(ctx);
        ctx->status = HASH_CTX_STS_IDLE;
        return ctx;
    }
    CTX* r = nullptr;
    const unsigned lanes = sizeof(m->lane) / sizeof(m->lane[0]);
    if (m->in_flight == lanes) r = complete<A>(m, sim_choose(lanes, CH_JOB_ORDER));
    m->lane[m->in_flight++] = ctx;
    // any number of jobs may be through by the time submit returns; it returns one of them
    while (m->in_flight && sim_choose(4, CH_JOB_ORDER) == 3) r = complete<A>(m, sim_choose(m->in_flight, CH_JOB_ORDER));
    return r;
}

}

#define STANDIN(NAME, name, A)                                                                              \
    extern "C" void name##_ctx_mgr_init(NAME##_HASH_CTX_MGR* m) { memset(m, 0, sizeof *m); }                  \
    extern "C" NAME##_HASH_CTX* name##_ctx_mgr_submit(NAME##_HASH_CTX_MGR* m, NAME##_HASH_CTX* c, const void* b, uint32_t n, HASH_CTX_FLAG f) { return submit<A>(m, c, b, n, f); } \
    extern "C" NAME##_HASH_CTX* name##_ctx_mgr_flush(NAME##_HASH_CTX_MGR* m) { sim_yield(); return m->in_flight ? complete<A>(m, sim_choose(m->in_flight, CH_JOB_ORDER)) : nullptr; }
STANDIN(MD5, md5, Md5)
STANDIN(SHA1, sha1, S1)
STANDIN(SHA256, sha256, S256)
STANDIN(SHA512, sha512, S512)
