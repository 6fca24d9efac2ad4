#include "validate.h"
#include "rng.h"
#include <list>
#include <deque>
#include <set>
using namespace fz;
static const char SEP[] = {' ', ',', '\n', '\0', '\t', ';', '0', '-', '\xa0', '\x7f', '\xff', '\x01'};
template<typename V> static std::string ref(const V& v, char sep) { std::ostringstream o; o << std::boolalpha << std::fixed << std::setprecision(DEFAULT_PRECISION); bool f = true; for (auto& x : v) { if (!f && sep) o << sep; f = false; o << x; } return o.str(); }
template<typename F> static void eq(const std::string& e, F f, const char* what) { std::ostringstream o; o << "pre"; OutputStream os(o); f(os); CHECK(o.str() == "pre" + e, std::string(what) + ": " + o.str()); }
static std::string R(Real r) { std::ostringstream o; o << std::fixed << std::setprecision(DEFAULT_PRECISION) << r; return o.str(); }
void fz::search() {
	while (more()) for (int it = 0; it < 100; it++) {
		std::size_t n = rnd() % 5; char sep = SEP[rnd() % 12]; std::string ss(sep ? 1 : 0, sep); kase("%zu elements, separator %d", n, (int) sep);
		std::vector<Integer> v; std::vector<std::string> s; std::vector<Real> r; for (std::size_t i = 0; i < n; i++) { v.push_back(uni(-20, 20)); s.push_back(rnd() % 3 ? std::string(rnd() % 3, 'a' + rnd() % 3) : " x"); r.push_back(uni(-50, 50) / 4.0L); }
		eq(ref(v, sep), [&](OutputStream& o) { o.join(v.begin(), v.end(), sep); }, "join"); eq(ref(s, sep), [&](OutputStream& o) { o.join(s.begin(), s.end(), sep); }, "join"); eq(ref(r, sep), [&](OutputStream& o) { o.join(r.begin(), r.end(), sep); }, "join");
		eq(ref(v, ' '), [&](OutputStream& o) { o << v; }, "<< vector"); eq(ref(s, ' '), [&](OutputStream& o) { o << s; }, "<< vector"); eq(ref(r, ' '), [&](OutputStream& o) { o << r; }, "<< vector");
		eq(ref(v, sep), [&](OutputStream& o) { o << join(v, sep); }, "<< join(c, sep)"); eq(ref(v, sep), [&](OutputStream& o) { o << join(v.begin(), v.end(), sep); }, "<< join(b, e, sep)"); eq(ref(v, ' '), [&](OutputStream& o) { o << join(v); }, "<< join(c)"); eq(ref(v, ' '), [&](OutputStream& o) { o << join(v.begin(), v.end()); }, "<< join(b, e)");
		eq(ref(s, sep), [&](OutputStream& o) { o << join(std::vector<std::string>(s), sep); }, "<< join(rvalue, sep)"); CHECK(join(s, sep).asString() == ref(s, sep), "asString"); CHECK(static_cast<std::string>(join(r, sep)) == ref(r, sep), "string");
		std::list<Integer> l(v.begin(), v.end()); std::set<Integer> t(v.begin(), v.end()); std::deque<Integer> d(v.begin(), v.end()); eq(ref(l, ' '), [&](OutputStream& o) { o << l; }, "<< list"); eq(ref(t, ' '), [&](OutputStream& o) { o << t; }, "<< set"); eq(ref(d, sep), [&](OutputStream& o) { o << join(d, sep); }, "<< join(deque)");
		if (n) { std::vector<Integer> w(v.begin() + 1, v.end()); eq(ref(w, sep), [&](OutputStream& o) { o << join(v.begin() + 1, v.end(), sep); }, "<< join(sub)"); }
		Integer a = uni(-9, 9), b = uni(-99, 99), c = uni(-9, 9); Real x = uni(-50, 50) / 4.0L; std::string A = std::to_string(a), B = std::to_string(b), C = std::to_string(c), X = R(x);
		eq(A + " " + X, [&](OutputStream& o) { o << std::pair<Integer, Real>(a, x); }, "<< pair"); eq(A + " " + X + " c " + B, [&](OutputStream& o) { o << std::tuple<Integer, Real, char, Integer>(a, x, 'c', b); }, "<< tuple");
		eq(A + ss + X + ss + C, [&](OutputStream& o) { o.join(std::tuple<Integer, Real, Integer>(a, x, c), std::index_sequence_for<Integer, Real, Integer>(), sep); }, "join tuple"); eq(A + ss + X + ss + C, [&](OutputStream& o) { o << join(std::tuple<Integer, Real, Integer>(a, x, c), sep); }, "<< join(tuple)");
		std::pair<Integer, Real> p(a, x); eq(A + " " + X, [&](OutputStream& o) { o << join(p); }, "<< join(pair)"); eq(A + ss + X, [&](OutputStream& o) { o << join(p, sep); }, "<< join(pair, sep)");
		eq(A + " " + B + " " + C, [&](OutputStream& o) { o << std::pair<std::pair<Integer, Integer>, Integer>({a, b}, c); }, "<< nested pair"); Integer arr[3] = {a, b, c}; eq(A + " " + B + " " + C, [&](OutputStream& o) { o << arr; }, "<< array"); std::array<Integer, 3> ar{a, b, c}; eq(A + " " + B + " " + C, [&](OutputStream& o) { o << ar; }, "<< std::array"); eq(A + ss + B + ss + C, [&](OutputStream& o) { o << join(ar, sep); }, "<< join(std::array)");
		eq(A + ss + B + ss + C, [&](OutputStream& o) { o << join({a, b, c}, sep); }, "<< join{}"); eq("text", [&](OutputStream& o) { o << "text"; }, "<< literal"); eq(A + "x" + X + "true", [&](OutputStream& o) { o << a << 'x' << x << true; }, "<< scalars");
		std::vector<std::vector<Integer>> vv(1 + n % 3, v); std::string e; for (std::size_t i = 0; i < vv.size(); i++) e += (i ? " " : "") + ref(v, ' '); eq(e, [&](OutputStream& o) { o << vv; }, "<< nested vector");
	}
}
