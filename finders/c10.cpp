#include "validate.h"
#include "fz.h"
#include "rng.h"
using namespace fz;
using u128 = unsigned __int128;
static void one(i64 a, i64 b, std::vector<u64> d) {
	std::string ds; for (std::size_t i = 0; i < d.size() && i < 6; i++) ds += (i ? "," : "") + std::to_string(d[i]);
	kase("integer(%lld, %lld) with draws %s...", a, b, ds.c_str());
	std::size_t k = 0; i64 e = 0; u64 s = (u64)b - (u64)a; bool bad = a >= b;
	if (!bad) { u64 rest = (u64)((((u128)1) << 64) % s); while (k < d.size() && (u64)(d[k] * s) < rest) k++; if (k == d.size()) return; e = (i64)((u64)a + (u64)(((u128)d[k] * s) >> 64)); }
	d.push_back(0x1234567812345678ull); d.push_back(42); feed(d);
	i64 r = 0; bool shortform = a == 0 && rnd() % 2;
	std::string o = outcome([&] { r = shortform ? Random::integer(b) : Random::integer(a, b); });
	if (bad) { CHECK(o == "invalid_argument", o); return; }
	CHECK(o == "ok", o);
	CHECK(a <= r && r < b, "out of range: " + std::to_string(r));
	CHECK(r == e, "returned " + std::to_string(r) + " instead of " + std::to_string(e) + " (floor of draw*size/2^64 for the first draw outside the biased part)");
	u64 nx = Random::details::randomNumberGenerator(); u64 en = k + 1 < d.size() ? d[k + 1] : nx;
	CHECK(nx == en, "consumed a different number of draws");
}
void fz::search() {
	if (!feedOk()) { // another engine: only ranges
		while (more()) for (int i = 0; i < 1000; i++) { i64 a = pick(), b = pick(); if (a >= b) continue; kase("integer(%lld, %lld)", a, b); i64 r = Random::integer(a, b); CHECK(a <= r && r < b, "out of range: " + std::to_string(r)); }
		return;
	}
	while (more()) for (int it = 0; it < 200; it++) {
		i64 a = pick(), b = pick(); if (rnd() % 3 == 0) a = 0; if (rnd() % 2 && a > b) std::swap(a, b);
		std::vector<u64> d(1 + rnd() % 5); u64 s = (u64)b - (u64)a;
		for (u64& x : d) {
			x = rnd() % 2 ? rnd() : (u64)pick();
			if (s && rnd() % 2) { // around the border of the rejection: the low half of the product is as small as possible
				u64 q = ~0ull / s, j = rnd() % std::max<u64>(1, std::min<u64>(s, 1ull << 40)); x = (u64)(((u128)j << 64) / s) + rnd() % 3; (void)q;
			}
			if (s && rnd() % 4 == 0 && s % 2) { u64 inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - s * inv; u64 rest = (u64)((((u128)1) << 64) % s); x = inv * (rest + rnd() % 3 - 1); } // low half exactly at the threshold
			if (s && rnd() % 8 == 0 && s % 2) { u64 inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - s * inv; x = inv * (s + rnd() % 3 - 1); }
		}
		one(a, b, d);
		std::vector<u64> q = {rnd() % 2 ? rnd() : (u64)pick()}; kase("bit() and integer() with draw %llu", q[0]);
		feed(q); bool bt = Random::bit(); CHECK(bt == __builtin_popcountll(q[0]) % 2, "bit() is not the parity");
		feed(q); CHECK(Random::integer() == (i64)q[0], "integer() differs from the draw");
	}
}
