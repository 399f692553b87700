#include "vc.h"
static uint64_t sumto(uint64_t n) { uint64_t i = 0; while (i < n) ++i; return i; }
VC_HARNESS(h_good) { const uint64_t n = vc_nd<uint64_t>("n"); vc_assert(sumto(n) >= n, "count"); vc_cover("x"); }
VC_HARNESS(h_bad) { const uint64_t n = vc_nd<uint64_t>("n"); vc_assert(sumto(n) != 77, "count"); vc_cover("x"); }
