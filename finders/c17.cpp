#include "validate.h"
#include "rng.h"
using namespace fz;
void fz::search() {
	kase("bracketSequence(3)"); uniform("bracketSequence", 5, [] { return Random::bracketSequence(3); }, 4000);
	kase("bracketSequence(4)"); uniform("bracketSequence", 14, [] { return Random::bracketSequence(4); }, 4000);
	kase("bracketSequence(5)"); uniform("bracketSequence", 42, [] { return Random::bracketSequence(5); }, 2000);
	kase("string(2, \"abc\")"); uniform("string", 9, [] { return Random::string(2, "abc"); }, 3000);
	kase("string(1)"); uniform("string", 26, [] { return Random::string(1); }, 3000);
	kase("select of {1,2,3,4,5}"); { std::vector<Integer> v{1, 2, 3, 4, 5}; const auto& w = v; int a[] = {1, 2, 3}; const int b[] = {1, 2, 3}; uniform("select", 5, [&] { return std::to_string(Random::select(v)); }); uniform("select const", 5, [&] { return std::to_string(Random::select(w)); });
		uniform("select array", 3, [&] { return std::to_string(Random::select(a)); }); uniform("select const array", 3, [&] { return std::to_string(Random::select(b)); }); uniform("select iterators", 5, [&] { return std::to_string(Random::select(v.begin(), v.end())); });
		uniform("select pair", 2, [&] { return std::to_string(Random::select(std::pair<Integer, Integer>(1, 2))); }); uniform("select complex", 2, [&] { return std::to_string(Random::select(std::complex<double>(1, 2))); }); }
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 n = rnd() % 30; if (rnd() % 30 == 0) n = rnd() % 3000; if (rnd() % 30 == 0) n = -1 - (i64)(rnd() % 3);
		bool over = rnd() % 50 == 0; if (over) n = 0x80000000ll + rnd() % 5; char a = rnd(), b = rnd(); if (a == b) b = a + 1; if (rnd() % 2) a = '(', b = ')'; bool two = a == '(' && rnd() % 2;
		kase("bracketSequence(%lld, %d, %d)", n, a, b); std::string s, o = outcome([&] { s = two ? Random::bracketSequence(n) : Random::bracketSequence(n, a, b); });
		if (n < 0 || over) { CHECK(o == "invalid_argument", o); } else { CHECK(o == "ok", o); CHECK((i64)s.size() == 2 * n, "length"); i64 d = 0; if (two) b = ')'; bool ok = true; for (char c : s) { ok &= c == a || c == b; d += c == a ? 1 : -1; ok &= d >= 0; } CHECK(ok && d == 0, "not balanced: " + s); }
		if (over) n = 0x100000000ll + rnd() % 3; std::string al; for (int i = rnd() % 6; i > 0; i--) al += (char)rnd();
		kase("string(%lld, alphabet of %d)", n, (int)al.size()); o = outcome([&] { s = Random::string(n, al); });
		if (n < 0 || n > 0xFFFFFFFF || al.empty()) CHECK(o == "invalid_argument", o); else { CHECK(o == "ok", o); CHECK((i64)s.size() == n, "length"); for (char c : s) CHECK(al.find(c) != al.npos, "character not in the alphabet"); }
		std::vector<Integer> v(rnd() % 5); for (auto& x : v) x = rnd() % 9; kase("select of %s", show(v).c_str()); Integer r = -1; o = outcome([&] { r = Random::select(v); }); if (v.empty()) CHECK(o == "invalid_argument", o); else CHECK(std::count(v.begin(), v.end(), r), "not an element");
	}
}
