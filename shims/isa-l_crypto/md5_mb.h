#pragma once
#include "multi_buffer.h"
#define MD5_DIGEST_NWORDS 4
#define MD5_MAX_LANES 32
ISAL_STANDIN(MD5, md5, uint32_t, 4, 32)
