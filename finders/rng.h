// chosen draws: sets the state of the engine so that the next outputs are the given ones
#pragma once
#include "fz.h"
namespace fz {
inline u64 untemper(u64 x) { // inverse of the tempering of mt19937_64
	x ^= x >> 43;
	x ^= (x << 37) & 0xFFF7EEE000000000ull;
	{ u64 y = x; for (int i = 0; i < 4; i++) y = x ^ ((y << 17) & 0x71D67FFFEDA60000ull); x = y; }
	{ u64 y = x; for (int i = 0; i < 3; i++) y = x ^ ((y >> 29) & 0x5555555555555555ull); x = y; }
	return x;
}
inline bool feedOk() { return std::is_same_v<RandomEngine, std::mt19937_64>; }
inline void feed(const std::vector<u64>& draws) { // at most 300 draws; what follows are pseudo random ones
	if constexpr (std::is_same_v<RandomEngine, std::mt19937_64>) {
		std::string s; s.reserve(312 * 21); std::size_t n = std::min<std::size_t>(draws.size(), 300), first = 312 - n;
		static u64 salt = 0; salt++;
		for (std::size_t i = 0; i < first; i++) { s += std::to_string(i < 2 ? rnd() : salt * 77777 + i * 1234567891234567ull); s += ' '; }
		for (std::size_t i = 0; i < n; i++) { s += std::to_string(untemper(draws[i])); s += ' '; }
		s += std::to_string(first);
		std::istringstream in(s); in >> Random::details::randomNumberGenerator;
	}
}
inline u64 tail; // engine output after the call
inline std::vector<u64> extremes(std::size_t n) { std::vector<u64> d(n); int m = rnd() % 6; for (u64& x : d) x = m == 0 ? 0 : m == 1 ? ~0ull : m == 2 ? (rnd() % 2 ? 0 : ~0ull) : m == 3 ? (u64)pick() : m == 4 ? rnd() >> (rnd() % 64) : rnd(); return d; }
// forwards the engine: mix of extreme and ordinary draws for the generators built on top
inline void stir() { if (rnd() % 3 == 0) feed(extremes(1 + rnd() % 40)); else Random::seed(rnd()); }
// every one of `kinds` outcomes about equally often (six standard deviations)
template<typename F> void uniform(const char* what, std::size_t kinds, F f, std::size_t per = 4000) {
	std::map<std::string, std::size_t> m; std::size_t n = kinds * per; Random::seed(rnd());
	for (std::size_t i = 0; i < n; i++) { m[f()]++; if (m.size() > kinds) { fail(std::string(what) + ": more outcomes than expected, e.g. " + m.rbegin()->first); return; } }
	double sd = std::sqrt((double)per); caseno++;
	if (m.size() < kinds) { fail(std::string(what) + ": only " + std::to_string(m.size()) + " of " + std::to_string(kinds) + " outcomes occur"); return; }
	for (auto& [k, c] : m) if (std::fabs((double)c - (double)per) > 6 * sd) { fail(std::string(what) + ": outcome " + k + " occurs " + std::to_string(c) + " times instead of about " + std::to_string(per)); return; }
}
}
