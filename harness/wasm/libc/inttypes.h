#pragma once
#include <stdint.h>
#define PRIu8 "u"
#define PRIu16 "u"
#define PRIu32 "u"
#define PRId32 "d"
#define PRIx32 "x"
#define PRIu64 "llu"
#define PRId64 "lld"
#define PRIx64 "llx"
