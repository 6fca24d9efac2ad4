#include "validate.h"
template<typename B, typename T> static bool put(const B& b, bool* has, T* val) { *has = b.hasReason(); if (b.hasReason()) *val = *b.reason; return b; }
extern "C" {
bool d_perm(const std::vector<Integer>& v, Integer off, bool* has, Integer* val) { return put(isPerm(v, off), has, val); }
bool d_perm0(const std::vector<Integer>& v, bool* has, Integer* val) { return put(isPerm(v), has, val); }
bool d_perm32(const std::vector<int>& v, int off, bool* has, int* val) { return put(isPerm(v, off), has, val); }
bool d_permU(const std::vector<UInteger>& v, UInteger off, bool* has, UInteger* val) { return put(isPerm(v, off), has, val); }
bool d_perm2(const std::vector<Integer>& v, const std::vector<Integer>& w, bool* has, Integer* val) { return put(isPerm(v, w), has, val); }
}
