#include <bits/stdc++.h>
#include "validate.h"
#include <rng.h>
#include "fz.h"
using namespace fz;
struct Ref {
	u64 s[4];
	static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
	u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
	void jump() { static const u64 J[] = {0x180ec6d33cfd0aba, 0xd5a61266f0c9392c, 0xa9582618e03fc9aa, 0x39abdc4529b1661c}; u64 n[4]{}; for (u64 j : J) for (int b = 0; b < 64; b++) { if (j >> b & 1) for (int i = 0; i < 4; i++) n[i] ^= s[i]; next(); } for (int i = 0; i < 4; i++) s[i] = n[i]; }
};
void fz::search() {
	CHECK(Xoshiro256ss::min() == 0 && Xoshiro256ss::max() == ~0ull, "min() or max()");
	while (more()) {
		bool arr = rnd() % 2; u64 seed = (u64)pick(); std::array<std::uint64_t, 4> a{}; for (auto& x : a) x = rnd() % 3 ? (u64)pick() : 0;
		std::string h = arr ? "Xoshiro256ss({" + std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + "," + std::to_string(a[3]) + "})" : "Xoshiro256ss(" + std::to_string(seed) + "ull)";
		kase("%s", h.c_str()); auto b = a; Xoshiro256ss r = arr ? Xoshiro256ss(a) : Xoshiro256ss(seed); CHECK(a == b, "argument changed"); Ref f{};
		if (arr) for (int i = 0; i < 4; i++) f.s[i] = a[i]; else { u64 pi[] = {0x3243F6a8885a308d, 0x313198a2e0370734, 0x4a4093822299f31d, 0x0082efa98ec4e6c8}; for (int i = 0; i < 4; i++) f.s[i] = pi[i] ^ seed; f.jump(); }
		int m = 1 + rnd() % 12; for (int i = 0; i < m; i++) { if (rnd() % 6 == 0) { r.jump(); f.jump(); h += " jump"; kase("%s", h.c_str()); } u64 x = r(), y = f.next(); h += " next"; kase("%s", h.c_str()); CHECK(x == y, "output " + std::to_string(x) + " instead of " + std::to_string(y)); }
	}
}
