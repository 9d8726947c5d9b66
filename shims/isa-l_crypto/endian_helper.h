#pragma once
#include <stdint.h>
#define byteswap32(x) __builtin_bswap32(x)
#define byteswap64(x) __builtin_bswap64(x)
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
#define to_be32(x) byteswap32(x)
#define from_be32(x) byteswap32(x)
#define to_be64(x) byteswap64(x)
#define from_be64(x) byteswap64(x)
#define to_le32(x) (x)
#define from_le32(x) (x)
#define to_le64(x) (x)
#define from_le64(x) (x)
#else
#define to_be32(x) (x)
#define from_be32(x) (x)
#define to_be64(x) (x)
#define from_be64(x) (x)
#define to_le32(x) byteswap32(x)
#define from_le32(x) byteswap32(x)
#define to_le64(x) byteswap64(x)
#define from_le64(x) byteswap64(x)
#endif
