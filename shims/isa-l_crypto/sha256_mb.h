#pragma once
#include "multi_buffer.h"
#define SHA256_DIGEST_NWORDS 8
#define SHA256_MAX_LANES 16
ISAL_STANDIN(SHA256, sha256, uint32_t, 8, 16)
