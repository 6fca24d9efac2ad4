#include "validate.h"
template<typename B, typename T> static bool put(const B& b, bool* has, T* val) { *has = b.hasReason(); if (b.hasReason()) *val = *b.reason; return b; }
extern "C" {
bool x_pred(Integer, Integer);
#define D(n, e) bool n(const std::vector<Integer>& v, bool* has, Integer* val) { return put(e, has, val); }
D(d_any, anyAdjacent(v, x_pred))
D(d_none, noneAdjacent(v, x_pred))
D(d_all, allAdjacent(v, x_pred))
D(d_inc, areIncreasing(v))
D(d_ndec, areNonDecreasing(v))
D(d_dec, areDecreasing(v))
D(d_ninc, areNonIncreasing(v))
D(d_dist, areDistinct(v))
}
