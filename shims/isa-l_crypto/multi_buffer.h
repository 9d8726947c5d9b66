// Stand-in for isa-l_crypto's multi-buffer interface (the library is not installed here): the
// documented types, states and macros.  The jobs are run by sim/harness/isal_standin.cpp, which lets
// the simulator decide when and in which order the jobs in flight complete.
#pragma once
#include <stddef.h>
#include <stdint.h>

typedef enum { STS_UNKNOWN = 0, STS_BEING_PROCESSED = 1, STS_COMPLETED = 2, STS_INTERNAL_ERROR, STS_ERROR } JOB_STS;
typedef enum { HASH_UPDATE = 0x00, HASH_FIRST = 0x01, HASH_LAST = 0x02, HASH_ENTIRE = 0x03 } HASH_CTX_FLAG;
typedef enum { HASH_CTX_STS_IDLE = 0x00, HASH_CTX_STS_PROCESSING = 0x01, HASH_CTX_STS_LAST = 0x02, HASH_CTX_STS_COMPLETE = 0x04 } HASH_CTX_STS;
typedef enum { HASH_CTX_ERROR_NONE = 0, HASH_CTX_ERROR_INVALID_FLAGS = -1, HASH_CTX_ERROR_ALREADY_PROCESSING = -2, HASH_CTX_ERROR_ALREADY_COMPLETED = -3 } HASH_CTX_ERROR;

#define hash_ctx_user_data(ctx) ((ctx)->user_data)
#define hash_ctx_digest(ctx) ((ctx)->job.result_digest)
#define hash_ctx_processing(ctx) ((ctx)->status & HASH_CTX_STS_PROCESSING)
#define hash_ctx_complete(ctx) ((ctx)->status == HASH_CTX_STS_COMPLETE)
#define hash_ctx_status(ctx) ((ctx)->status)
#define hash_ctx_error(ctx) ((ctx)->error)
#define hash_ctx_init(ctx) do { (ctx)->error = HASH_CTX_ERROR_NONE; (ctx)->status = HASH_CTX_STS_COMPLETE; } while (0)

#define ISAL_STANDIN(NAME, name, WORD, NWORDS, LANES)                                                        \
    typedef struct { uint8_t* buffer; uint64_t len; WORD result_digest[NWORDS]; JOB_STS status; void* user_data; } NAME##_JOB; \
    typedef struct {                                                                                         \
        NAME##_JOB job; HASH_CTX_STS status; HASH_CTX_ERROR error; uint64_t total_length;                    \
        const void* incoming_buffer; uint32_t incoming_buffer_length; uint64_t state[32]; void* user_data;   \
    } NAME##_HASH_CTX;                                                                                       \
    typedef struct { uint32_t in_flight; NAME##_HASH_CTX* lane[LANES]; } NAME##_HASH_CTX_MGR;                \
    extern "C" void name##_ctx_mgr_init(NAME##_HASH_CTX_MGR* mgr);                                           \
    extern "C" NAME##_HASH_CTX* name##_ctx_mgr_submit(NAME##_HASH_CTX_MGR* mgr, NAME##_HASH_CTX* ctx, const void* buffer, uint32_t len, HASH_CTX_FLAG flags); \
    extern "C" NAME##_HASH_CTX* name##_ctx_mgr_flush(NAME##_HASH_CTX_MGR* mgr);
