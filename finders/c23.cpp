#include "validate.h"
#include "fz.h"
using namespace fz;
static u64 mm(u64 a, u64 b, u64 n) { return (u64)((unsigned __int128)a * b % n); }
static u64 pw(u64 a, u64 e, u64 n) { u64 r = 1 % n; for (; e; e >>= 1, a = mm(a, a, n)) if (e & 1) r = mm(r, a, n); return r; }
static bool ref(i64 n) { // first twelve primes as bases: deterministic below 2^64
	if (n < 2) return false;
	for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if ((u64)n == p) return true; if (n % p == 0) return false; }
	u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
	for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
		u64 v = pw(a, d, n); if (v == 1 || v == (u64)n - 1) continue;
		bool ok = false; for (int i = 1; i < s && !ok; i++) { v = mm(v, v, n); ok = v == (u64)n - 1; }
		if (!ok) return false;
	}
	return true;
}
static void one(i64 n) { kase("isPrime(%lld)", n); bool r = isPrime(n); CHECK(r == ref(n), r ? "returned true" : "returned false"); }
static void rng(i64 a, i64 b) {
	kase("primes(%lld, %lld)", a, b);
	std::vector<Integer> r; std::string o = outcome([&] { r = primes(a, b); });
	if (a >= b) { CHECK(o == "invalid_argument", o); return; }
	CHECK(o == "ok", o);
	std::vector<Integer> e; for (i64 i = std::max<i64>(a, 2); i < b; i++) if (ref(i)) e.push_back(i);
	if (r != e) { std::size_t i = 0; while (i < r.size() && i < e.size() && r[i] == e[i]) i++; CHECK(false, "differs at position " + std::to_string(i) + ": got " + (i < r.size() ? std::to_string(r[i]) : "end") + " expected " + (i < e.size() ? std::to_string(e[i]) : "end")); }
}
void fz::search() {
	for (i64 n = -200; n < 70000; n++) one(n);
	for (i64 n : {2047ll, 3277ll, 4033ll, 561ll, 1105ll, 1729ll, 1373653ll, 25326001ll, 3215031751ll, 2152302898747ll, 3474749660383ll, 341550071728321ll, 3825123056546413051ll, 46856248255981ll, 47636622961201ll, 9223372036854775783ll, 9223372036854775807ll, 4611686014132420609ll, 9223372006790004743ll}) for (i64 d = -2; d <= 2; d++) if (n <= INT64_MAX - 2 || d <= 0) one(n + d);
	for (i64 h : hints) if (h <= INT64_MAX - 2 && h >= INT64_MIN + 2) for (i64 d = -2; d <= 2; d++) one(h + d);
	one(INT64_MIN); one(INT64_MIN + 1);
	for (u64 a : {2ull, 325ull, 9375ull, 28178ull, 450775ull, 9780504ull, 1795265022ull, 8941ull, 13ull * 3ull, 61ull * 37ull}) for (i64 d = -3; d <= 3; d++) { one(a + d); for (i64 k = 2; k < 40; k++) one(a * k + d); }
	for (i64 a = -3; a < 60; a++) for (i64 b = a - 2; b < 130; b++) rng(a, b);
	rng(0, 100000);
	{ kase("primes(100000)"); auto r = primes(100000), e = primes(0, 100000); CHECK(r == e, "differs from primes(0, 100000)"); outcome([] { primes(0); }); CHECK(outcome([] { primes(0); }) == "invalid_argument", "primes(0) accepted"); }
	for (i64 c : {3000ll, 10000ll, 1000000ll, 4294967296ll, 1000000000000ll, 4611686014132420609ll, 9000000000000000000ll}) for (int i = 0; i < 60; i++) { i64 a = c - rnd() % 2000; rng(a, a + rnd() % 2500); }
	// squares of primes, products of neighbouring primes: only the square root of the range reaches their factor
	auto ps = primes(0, 70000);
	while (more()) {
		for (int i = 0; i < 300; i++) { i64 n = pick(2, INT64_MAX); one(n); one(n | 1); }
		for (int i = 0; i < 300; i++) { u64 p = ps[rnd() % ps.size()], q = ps[std::min<std::size_t>(ps.size() - 1, rnd() % ps.size())]; one(p * p); one(p * q); one((2 * p - 1) * p); if (p < 20000) one((6 * p + 1) * (12 * p + 1)); }
		for (int i = 0; i < 60; i++) { u64 p = 1000000000 + rnd() % 2000000000; while (!ref(p)) p++; u64 q = p; if (rnd() % 2) { q = 2 * p - 1; if (p > 2000000000) q = p; while (!ref(q)) q += 2; } if (p <= 3037000499ull && (unsigned __int128)p * q < (1ull << 63)) one(p * q); one(p); }
		for (int i = 0; i < 20; i++) { u64 p = ps[rnd() % ps.size()]; i64 a = p * p - rnd() % 300, len = rnd() % 1200; rng(a, a + len); i64 b = uni(2, 1 << (2 + rnd() % 30)); rng(b, b + rnd() % 700); }
		for (int i = 0; i < 3; i++) { i64 b = pick(2, INT64_MAX - (1ll << 33)); rng(b, b + rnd() % 300); }
	}
}
