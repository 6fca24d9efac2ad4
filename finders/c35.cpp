#include <bits/stdc++.h>
#include "validate.h"

#include <secure_rng.h>

#include "fz.h"
#include "aesref.h"
using namespace fz;
void fz::search() {
	CHECK(AES_RNG::min() == 0 && AES_RNG::max() == ~0ull, "min() or max()");
	std::array<std::uint8_t, 48> pi; { u64 P[] = {0x3243F6a8885a308d, 0x313198a2e0370734, 0x4a4093822299f31d, 0x0082efa98ec4e6c8, 0x9452821e638d0137, 0x7be5466cf34e90c6}; for (int i = 0; i < 48; i++) pi[i] = (std::uint8_t)(P[i / 8] >> (56 - 8 * (i % 8))); }
	while (more()) {
		bool pair = rnd() % 2; u64 seed = (u64)pick(); std::array<std::uint8_t, 32> k; std::array<std::uint8_t, 16> v; for (auto& x : k) x = (std::uint8_t)rnd(); for (auto& x : v) x = (std::uint8_t)rnd();
		int f = rnd() % 18; for (int i = 0; i < f && i < 16; i++) v[i] = 255; if (f && rnd() % 2) v[0] = (std::uint8_t)(250 + rnd() % 6);
		std::string h = pair ? "AES_RNG(" + aesref::hex(k) + ", " + aesref::hex(v) + ")" : "AES_RNG(" + std::to_string(seed) + "ull)"; kase("%s", h.c_str());
		AES_RNG r = pair ? AES_RNG(k, v) : AES_RNG(seed);
		if (!pair) { std::copy(pi.begin(), pi.begin() + 32, k.begin()); std::copy(pi.begin() + 32, pi.end(), v.begin()); for (int i = 0; i < 8; i++) v[i] ^= (std::uint8_t)(seed >> (8 * i)); }
		AES c(k); int m = 1 + rnd() % 10;
		for (int i = 0; i < m; i++) { unsigned cy = 1; for (auto& x : v) { cy += x; x = (std::uint8_t)cy; cy >>= 8; }
			auto b = c(v); u64 w = 0; for (int j = 0; j < 16; j++) w ^= (u64)b[j] << (8 * (j % 8)); u64 x = r(); h += " next"; kase("%s", h.c_str()); CHECK(x == w, "output " + std::to_string(x) + " instead of " + std::to_string(w)); }
	}
}
