#include <bits/stdc++.h>
#include "validate.h"
#include <secure_rng.h>
#include "fz.h"
#include "aesref.h"
using namespace fz;
void fz::search() {
	while (more()) {
		std::array<std::uint8_t, 32> k; std::array<std::uint8_t, 16> b; for (auto& x : k) x = (std::uint8_t)rnd(); for (auto& x : b) x = (std::uint8_t)rnd();
		auto k0 = k, k1 = k; auto b0 = b;
		kase("AES(%s)(%s)", aesref::hex(k).c_str(), aesref::hex(b).c_str());
		AES a(k); auto r = a(b); auto r2 = a(b); auto want = aesref::enc(aesref::expand(k0), b0);
		CHECK(r == want, "returns " + aesref::hex(r) + " instead of " + aesref::hex(want)); CHECK(r2 == want && k == k1 && b == b0, "second call differs or an argument changed");
	}
}
