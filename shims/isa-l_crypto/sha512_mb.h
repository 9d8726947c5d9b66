#pragma once
#include "multi_buffer.h"
#define SHA512_DIGEST_NWORDS 8
#define SHA512_MAX_LANES 8
ISAL_STANDIN(SHA512, sha512, uint64_t, 8, 8)
