#include "validate.h"
#include "fz.h"
using namespace fz;
static u64 pm(u64 b, u64 e, u64 m) { unsigned __int128 r = 1 % m, x = b % m; for (; e; e >>= 1) { if (e & 1) r = r * x % m; x = x * x % m; } return (u64)r; }
static i64 am(i64 x, i64 m) { i128 r = (i128)x % m; if (r < 0) r += m; return (i64)r; }
void fz::search() {
	while (more()) {
		for (int i = 0; i < 2000; i++) {
			i64 a = pick(), b = pick(), m = pick();
			if (rnd() % 2) m = pick(1, INT64_MAX);
			if (m > 0) { kase("applyMod(%lld, %lld)", a, m); i64 r = applyMod(a, m); CHECK(r == am(a, m), "returned " + std::to_string(r)); }
			kase("mulMod(%lld, %lld, %lld)", a, b, m);
			i64 r = 0; std::string o = outcome([&] { r = mulMod(a, b, m); });
			if (m <= 0) CHECK(o == "domain_error", o);
			else { CHECK(o == "ok", o); CHECK(r == (i64)((i128)am(a, m) * am(b, m) % m), "returned " + std::to_string(r)); }
			kase("powMod(%lld, %lld, %lld)", a, b, m);
			o = outcome([&] { r = powMod(a, b, m); });
			if (m <= 0 || b < 0) CHECK(o == "domain_error", o);
			else { CHECK(o == "ok", o); CHECK((u64)r == pm(am(a, m), b, m), "returned " + std::to_string(r)); }
		}
	}
}
