#include <bits/stdc++.h>
#include "secure_rng.h"
extern "C" {
void d_key(void* r, const AES::Key& k) { new (r) AES(k); }
void d_enc(AES::Block& out, const AES& a, const AES::Block& in) { out = a(in); }
}
static_assert(sizeof(AES) == 240 && sizeof(AES::Block) == 16 && sizeof(AES::Key) == 32);
