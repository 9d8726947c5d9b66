#pragma once
#include "multi_buffer.h"
#define SHA1_DIGEST_NWORDS 5
#define SHA1_MAX_LANES 16
ISAL_STANDIN(SHA1, sha1, uint32_t, 5, 16)
