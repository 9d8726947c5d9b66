// Digest calls: real libcrypto behind a seam that can schedule other threads before every call and
// make any call report failure, plus reference digests for the oracles.
#include "rt_internal.h"
#include <dlfcn.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <string.h>
#include <initializer_list>

#define RA __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

static int64_t g_live = 0;
static struct {
    EVP_MD_CTX* (*ctx_new)();
    void (*ctx_free)(EVP_MD_CTX*);
    int (*ctx_reset)(EVP_MD_CTX*);
    int (*init_ex)(EVP_MD_CTX*, const EVP_MD*, ENGINE*);
    int (*init)(EVP_MD_CTX*, const EVP_MD*);
    int (*update)(EVP_MD_CTX*, const void*, size_t);
    int (*final_ex)(EVP_MD_CTX*, unsigned char*, unsigned*);
    int (*final)(EVP_MD_CTX*, unsigned char*, unsigned*);
    int (*final_xof)(EVP_MD_CTX*, unsigned char*, size_t);
    int (*digest)(const void*, size_t, unsigned char*, unsigned*, const EVP_MD*, ENGINE*);
    unsigned long (*get_error)();
} V;

static void load()
{
    if (V.ctx_new) return;
    *(void**)&V.ctx_free = rt_real("EVP_MD_CTX_free");
    *(void**)&V.ctx_reset = rt_real("EVP_MD_CTX_reset");
    *(void**)&V.init_ex = rt_real("EVP_DigestInit_ex");
    *(void**)&V.init = rt_real("EVP_DigestInit");
    *(void**)&V.update = rt_real("EVP_DigestUpdate");
    *(void**)&V.final_ex = rt_real("EVP_DigestFinal_ex");
    *(void**)&V.final = rt_real("EVP_DigestFinal");
    *(void**)&V.final_xof = rt_real("EVP_DigestFinalXOF");
    *(void**)&V.digest = rt_real("EVP_Digest");
    *(void**)&V.ctx_new = rt_real("EVP_MD_CTX_new");
}

static const size_t CTX_SHADOW = 8;   // bytes of the context used to represent accesses to all of it

static bool seam(void* ctx, const void* ra)
{
    if (!g_cur || rt_foreign(ra)) return false;
    rt_sched_point(OP_EVP, ctx);
    if (ctx) rt_range(ctx, CTX_SHADOW, true, ra);
    return true;
}

EXPORT EVP_MD_CTX* EVP_MD_CTX_new()
{
    load();
    if (seam(nullptr, RA)) {
        if (sim_fault(CH_EVP_FAIL, 1)) return nullptr;
        ++g_live;
    }
    return V.ctx_new();
}
EXPORT void EVP_MD_CTX_free(EVP_MD_CTX* c)
{
    load();
    if (seam(c, RA) && c) --g_live;
    V.ctx_free(c);
}
EXPORT int EVP_MD_CTX_reset(EVP_MD_CTX* c)
{
    load();
    seam(c, RA);
    return V.ctx_reset(c);
}
EXPORT int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e)
{
    load();
    if (seam(c, RA) && sim_fault(CH_EVP_FAIL, 1)) return 0;
    return V.init_ex(c, m, e);
}
EXPORT int EVP_DigestInit(EVP_MD_CTX* c, const EVP_MD* m)
{
    load();
    if (seam(c, RA) && sim_fault(CH_EVP_FAIL, 1)) return 0;
    return V.init(c, m);
}
EXPORT int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n)
{
    load();
    if (seam(c, RA)) {
        rt_range(d, n, false, RA);
        if (sim_fault(CH_EVP_FAIL, 1)) return 0;
        int r = V.update(c, d, n);
        rt_sched_point(OP_EVP, c);
        rt_range(d, n, false, RA);
        return r;
    }
    return V.update(c, d, n);
}
EXPORT int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* md, unsigned* s)
{
    load();
    if (seam(c, RA) && sim_fault(CH_EVP_FAIL, 1)) return 0;
    return V.final_ex(c, md, s);
}
EXPORT int EVP_DigestFinal(EVP_MD_CTX* c, unsigned char* md, unsigned* s)
{
    load();
    if (seam(c, RA) && sim_fault(CH_EVP_FAIL, 1)) return 0;
    return V.final(c, md, s);
}
EXPORT int EVP_DigestFinalXOF(EVP_MD_CTX* c, unsigned char* md, size_t s)
{
    load();
    if (seam(c, RA) && sim_fault(CH_EVP_FAIL, 1)) return 0;
    return V.final_xof(c, md, s);
}

SIM_API int64_t sim_evp_live() { return g_live; }

SIM_API int sim_ref_digest(const char* name, const void* data, size_t n, unsigned char* out, unsigned* outlen)
{
    load();
    SimThread* save = g_cur;
    g_cur = nullptr;
    const EVP_MD* md = EVP_get_digestbyname(name);
    int r = md ? V.digest(data, n, out, outlen, md, nullptr) : 0;
    g_cur = save;
    return r;
}
SIM_API void sim_ref_sha1(const void* data, size_t n, unsigned char out[20]) { SimThread* s = g_cur; g_cur = nullptr; SHA1((const unsigned char*)data, n, out); g_cur = s; }
SIM_API void sim_ref_sha256(const void* data, size_t n, unsigned char out[32]) { SimThread* s = g_cur; g_cur = nullptr; SHA256((const unsigned char*)data, n, out); g_cur = s; }

void rt_evp_init()
{
    load();
    unsigned char out[EVP_MAX_MD_SIZE];
    unsigned l;
    for (const char* n : {"MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512-224", "SHA512-256", "SHA3-224", "SHA3-256",
                          "SHA3-384", "SHA3-512", "BLAKE2b512", "BLAKE2s256", "RIPEMD160", "SM3", "MD5-SHA1", "SHAKE128", "SHAKE256"})
        sim_ref_digest(n, "abc", 3, out, &l);
}
