#include "validate.h"
#include "fz.h"
#include "rng.h"
using namespace fz;
static std::string str(Real x) { char b[64]; std::snprintf(b, 64, "%.21Lg", x); return b; }
static std::string where; // arguments and draws of the current case
static void prep(int n = 12) {
	std::vector<u64> d;
	switch (rnd() % 4) {
		case 0: d = extremes(1 + rnd() % n); break;
		case 1: for (int i = 0; i < n; i++) d.push_back(i % 2 ? rnd() | 1 : ~0ull - (rnd() % 3 == 0 ? rnd() % 4096 : 0)); break; // as large as possible
		case 2: for (int i = 0; i < n; i++) d.push_back(i % 2 ? 1ull << (rnd() % 64) : rnd()); break;
		default: for (int i = 0; i < n; i++) d.push_back(rnd());
	}
	feed(d); where.clear();
	if (feedOk()) { where = " draws "; for (std::size_t i = 0; i < d.size() && i < 6; i++) where += (i ? "," : "") + std::to_string(d[i]); }
}
static Real special() { static const Real S[] = {0.0L, -0.0L, 1.0L, -1.0L, 0.5L, 1e-20L, -1e-20L, 1e300L, INFINITY, -INFINITY, NAN, 2.0L, 0.999999999L, 1.0000001L, 3.7e-4951L, 1.1e-4950L}; return S[rnd() % 16]; }
static Real pos() { return std::ldexp((Real)(rnd() | 1), (int)(rnd() % 100) - 120); }
static Real prob() { switch (rnd() % 6) { case 0: return 1e-20L; case 1: return 0.5L; case 2: return 0.9999999L; case 3: return 0.1L; case 4: return 1e-5L; default: return (Real)(rnd() >> 12) / (1ull << 52); } }
template<class F> static void real_(const std::string& call, bool dom, bool arg, bool ranged, Real l, Real u, F f) {
	prep(); kase("%s%s", call.c_str(), where.c_str());
	Real r = 0; std::string o = outcome([&] { r = f(); });
	if (dom || arg) { CHECK((dom && o == "domain_error") || (arg && o == "invalid_argument"), o); return; }
	CHECK(o == "ok", o);
	if (ranged) CHECK(l <= r && r < u, "out of range: " + str(r));
}
template<class F> static void int_(const std::string& call, bool dom, bool arg, bool ranged, i64 l, i64 u, F f) { // [l, u]
	prep(); kase("%s%s", call.c_str(), where.c_str());
	Integer r = 0; std::string o = outcome([&] { r = f(); });
	if (dom || arg) { CHECK((dom && o == "domain_error") || (arg && o == "invalid_argument"), o); return; }
	CHECK(o == "ok", o);
	if (ranged) CHECK(l <= r && r <= u, "out of range: " + std::to_string(r));
}
static std::string j() { return ")"; }
template<class A, class... B> static std::string j(A a, B... b) { std::string s; if constexpr (std::is_floating_point_v<A>) s = str(a); else s = std::to_string(a); return s + (sizeof...(b) ? ", " : "") + j(b...); }
template<Integer... W> static void disc() {
	std::vector<u64> d = {rnd() % 2 ? rnd() : (u64)pick(), rnd(), rnd()}; feed(d);
	std::string n = "discrete<"; for (Integer w : {W...}) n += std::to_string(w) + ","; n.back() = '>';
	kase("%s draw %llu", n.c_str(), d[0]);
	Integer r = -1; std::string o = outcome([&] { r = Random::discrete<W...>(); });
	std::vector<i64> w = {W...}; i64 sum = 0; for (i64 x : w) sum += x;
	if (sum == 0) { CHECK(o == "invalid_argument", o); return; }
	CHECK(o == "ok", o);
	CHECK(r >= 0 && r < (i64)w.size() && w[r] > 0, "returned the index " + std::to_string(r));
	if (!feedOk()) return;
	feed(d); i64 t = Random::integer(sum), s = 0; std::size_t k = 0; while (s + w[k] <= t) s += w[k++];
	CHECK(r == (i64)k, "returned " + std::to_string(r) + " instead of " + std::to_string(k));
}
void fz::search() {
	while (more()) for (int it = 0; it < 60; it++) {
		{ // real
			std::vector<u64> d = extremes(6); if (rnd() % 2) d[0] = ~0ull - (rnd() % 2 ? rnd() % 5000 : 0); if (rnd() % 2) d[1] = 1ull << (rnd() % 64); if (rnd() % 5 == 0) { d[1] = 0; d[2] = rnd() | 1; }
			if (feedOk()) {
				feed(d); std::size_t k = 1; int e = -64; while (k < d.size() && d[k] == 0) { e -= 64; k++; }
				if (k < d.size()) {
					e -= __builtin_ctzll(d[k]); kase("real() draws %llu,%llu,%llu", d[0], d[1], d[2]); Real r = Random::real();
					CHECK(0 < r && r < 1, "returned " + str(r)); Real w = std::ldexp((Real)(d[0] | 1ull << 63), e); CHECK(r == w, "returned " + str(r) + " instead of " + str(w));
				}
			} else { kase("real()"); Real r = Random::real(); CHECK(0 <= r && r < 1, "returned " + str(r)); }
		}
		{ Real u = rnd() % 3 ? pos() : special(); real_("real(" + j(u), !std::isfinite(u), !(u > 0), true, 0, u, [&] { return Random::real(u); }); }
		{ Real l = rnd() % 3 ? pos() : special(), u = rnd() % 3 ? pos() : special(); if (rnd() % 2) l = -l; if (rnd() % 8 == 0) u = std::nextafter(l, 1e300L);
		  if (rnd() % 8 == 0) { l = -1.1e4932L; u = 1.1e4932L; }
		  real_("real(" + j(l, u), !std::isfinite(l) || !std::isfinite(u), !(l < u), true, l, u, [&] { return Random::real(l, u); }); }
		{ Real m = pos(), s = rnd() % 2 ? pos() : special(); if (std::isinf(s)) s = 1; real_("normal(" + j(m, s), !(s >= 0), false, false, 0, 0, [&] { return Random::normal(m, s); }); }
		{ Real m = pos(), s = rnd() % 2 ? pos() : special(); bool ok = s > 0 && std::isfinite(s); Real sd = ok ? std::sqrt(s) : 1; Real l = m - sd * (rnd() % 3), u = m + sd * (rnd() % 3);
		  if (rnd() % 6 == 0) l = special(); if (rnd() % 6 == 0) u = special();
		  bool dom = std::isnan(l) || std::isnan(u) || !(s >= 0), arg = !(l < u);
		  if (dom || arg || (ok && sd > m * 1e-10L && std::min(u, m + 2 * sd) - std::max(l, m - 2 * sd) > 0.2L * sd)) real_("normal(" + j(l, u, m, s), dom, arg, true, l, u, [&] { return Random::normal(l, u, m, s); }); }
		{ Real p = rnd() % 2 ? pos() : special(); real_("exponential(" + j(p), !(p > 0), false, true, 0, INFINITY, [&] { return p == (Real)INFINITY ? 0 : std::min<Real>(Random::exponential(p), LDBL_MAX); }); }
		{ Real p = rnd() % 2 ? pos() : special(); bool ok = p > 0 && std::isfinite(p); Real l = rnd() % 2 ? 0 : 1 - 2 * pos(), u = l + (ok ? (1 + rnd() % 3) / p : 1);
		  if (rnd() % 6 == 0) l = special(); if (rnd() % 6 == 0) u = special();
		  bool dom = !std::isfinite(l) || std::isnan(u) || !(p > 0), arg = !(l < u);
		  if (dom || arg || (ok && u - l > 0.3L / p)) real_("exponential(" + j(l, u, p), dom, arg, true, l, u, [&] { return Random::exponential(l, u, p); }); }
		{ Real p = rnd() % 2 ? prob() : special(); if (p == 0) p = 0.3L; bool dom = !(0 <= p && p < 1); int_("geometric(" + j(p), dom, false, dom || p > 1e-15L, 0, INT64_MAX, [&] { return Random::geometric(p); }); }
		{ Real p = rnd() % 2 ? prob() : special(); if (p == 0) p = 0.3L; bool dom = !(0 <= p && p < 1); i64 l = pick(), u = rnd() % 2 ? pick() : (i64)((u64)l + rnd() % 50);
		  bool arg = l >= u; if (dom || arg || p * (Real)((u64)u - (u64)l) > 0.05L) int_("geometric(" + j((long long)l, (long long)u, p), dom, arg, true, l, (i64)((u64)u - 1), [&] { return Random::geometric(l, u, p); }); }
		{ Real p = rnd() % 3 ? prob() : special(); i64 n = rnd() % 2 ? (i64)(rnd() % 200) : pick(); if (n == INT64_MAX) n--; bool dom = n < 0 || !(0 <= p && p <= 1);
		  int_("binomial(" + j((long long)n, p), dom, false, true, 0, n, [&] { return Random::binomial(n, p); });
		  if (!dom && p > 0 && p < 1) { Real m = n * p, sd = std::sqrt(m * (1 - p)) + 1; i64 l = (i64)std::max<Real>(0, m - sd * (rnd() % 3)), u = (i64)std::min<Real>(9e18L, l + 2 * sd + 1); if (l <= m && m < u && u - l > sd && (p > 0.01L || m > 1) && (p < 0.99L || n * (1 - p) > 1) && n < (1ll << 60)) int_("binomial(" + j((long long)l, (long long)u, (long long)n, p), false, l >= u, true, l, (i64)((u64)u - 1), [&] { return Random::binomial(l, u, n, p); }); }
		  else if (dom) { i64 l = pick(), u = pick(); int_("binomial(" + j((long long)l, (long long)u, (long long)n, p), dom, l >= u, true, l, (i64)((u64)u - 1), [&] { return Random::binomial(l, u, n, p); }); } }
		{ i64 l = pick(), u = pick(), n = rnd() % 2 ? (i64)(rnd() % 8) - 1 : pick(); if (n == INT64_MIN) n++; bool two = rnd() % 3 == 0; if (two) l = 0; bool bad = l >= u;
		  std::string a = two ? j((long long)u, (long long)n) : j((long long)l, (long long)u, (long long)n);
		  int_("maximum(" + a, false, bad || n <= 0, true, l, (i64)((u64)u - 1), [&] { return two ? Random::maximum(u, n) : Random::maximum(l, u, n); });
		  int_("minimum(" + a, false, bad || n <= 0, true, l, (i64)((u64)u - 1), [&] { return two ? Random::minimum(u, n) : Random::minimum(l, u, n); });
		  int_("minmax(" + a, false, bad || n == 0, true, l, (i64)((u64)u - 1), [&] { return two ? Random::minmax(u, n) : Random::minmax(l, u, n); });
		  if (!bad && n > 0 && n < 5) { u64 s = rnd(); Random::seed(s); i64 m = INT64_MIN; for (i64 i = 0; i < n; i++) m = std::max<i64>(m, Random::integer(l, u)); Random::seed(s); kase("maximum(%lld, %lld, %lld) seed %llu", l, u, n, s); i64 r = Random::maximum(l, u, n); CHECK(r == m, "returned " + std::to_string(r) + " instead of the maximum " + std::to_string(m) + " of the draws"); } }
		disc<7>(); disc<1, 2, 3>(); disc<0, 5, 0, 2, 0>(); disc<0, 0>(); disc<1000000000000, 1, 1000000000000>();
	}
}
