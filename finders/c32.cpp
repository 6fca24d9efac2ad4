#include <bits/stdc++.h>
#include "graph_gen.h"
#include "fz.h"
using namespace fz;
using P = std::pair<Integer, Integer>;
using Rel = std::function<bool(Integer, Integer)>;
template<bool DIR> static void check(const GraphDetail::GraphType<NoData, DIR>& g, Integer n, Rel f, const std::string& h) {
	kase("%s", h.c_str()); CHECK(g.nodeCount() == n && g.getMinId() == 0, "wrong vertices: " + std::to_string(g.nodeCount())); std::set<P> E; Integer c = 0;
	for (const auto& e : g.getEdges()) { c++; E.insert({e.from, e.to}); if (!DIR) E.insert({e.to, e.from}); CHECK(0 <= e.from && e.from < n && 0 <= e.to && e.to < n && e.from != e.to, "edge outside"); }
	CHECK(c == g.edgeCount() && (Integer)E.size() == c * (DIR ? 1 : 2), "edges counted wrong");
	for (Integer i = 0; i < n; i++) for (Integer j = 0; j < n; j++) { bool want = f(i, j) || (!DIR && f(j, i)); CHECK(E.count({i, j}) == (size_t)want && g.hasEdge(i, j) == want, (want ? "missing edge " : "wrong edge ") + std::to_string(i) + " " + std::to_string(j)); }
}
template<bool DIR> static void rnds(const GraphDetail::GraphType<NoData, DIR>& g, Integer n, Integer k, Rel ok, const std::string& h) {
	kase("%s", h.c_str()); CHECK(g.nodeCount() == n && g.getMinId() == 0, "wrong vertices"); CHECK(g.edgeCount() == k, "number of edges " + std::to_string(g.edgeCount()) + " instead of " + std::to_string(k));
	for (const auto& e : g.getEdges()) CHECK(ok(e.from, e.to) || (!DIR && ok(e.to, e.from)), "impossible edge " + std::to_string(e.from) + " " + std::to_string(e.to));
}
#define S(x) std::to_string(x)
template<bool DIR> static void one() {
	Integer n = rnd() % 9, m = rnd() % 9; std::string d = DIR ? "<NoData,true>(" : "(", nm = d + S(n) + "," + S(m) + ")", n1 = d + S(n) + ")";
	auto bip = [](Integer n, Integer m) { return Rel([=](Integer a, Integer b) { return a < n && b >= n && b < n + m; }); };
	auto pth = [](Integer n) { return Rel([=](Integer a, Integer b) { return b == a + 1 && b <= n; }); };
	auto lt = Rel([](Integer a, Integer b) { return a < b; });
	switch (rnd() % 12) {
	case 0: check<DIR>(independent<NoData, DIR>(n), n, [](Integer, Integer) { return false; }, "independent" + n1); break;
	case 1: check<DIR>(clique<NoData, DIR>(n), n, lt, "clique" + n1); break;
	case 2: check<DIR>(bipartite<NoData, DIR>(n, m), n + m, bip(n, m), "bipartite" + nm); break;
	case 3: check<DIR>(star<NoData, DIR>(n), n + 1, bip(1, n), "star" + n1); break;
	case 4: check<DIR>(path<NoData, DIR>(n), n + 1, pth(n), "path" + n1); break;
	case 5: if (n > 2) check<DIR>(cycle<NoData, DIR>(n), n, [=](Integer a, Integer b) { return b == (a + 1) % n; }, "cycle" + n1); break;
	case 6: if constexpr (!DIR) if (n > 2) check<DIR>(wheel(n), n + 1, [=](Integer a, Integer b) { return (a == 0 && b) || (a && b == a % n + 1); }, "wheel" + n1); break;
	case 7: if constexpr (!DIR) if (m) check<DIR>(lolly(n, m), n + m, [=](Integer a, Integer b) { return (a < n && b == a + 1) || (n <= a && a < b); }, "lolly" + nm); break;
	case 8: if constexpr (!DIR) check<DIR>(broom(n, m), n + m + 1, [=](Integer a, Integer b) { return (a < n && b == a + 1) || (a == n && b > n); }, "broom" + nm); break;
	case 9: if constexpr (!DIR) if (n && m) check<DIR>(grid(n, m), n * m, [=](Integer a, Integer b) { return (a / n == b / n && b == a + 1) || b == a + n; }, "grid" + nm); break;
	case 10: { n++; Integer lim = n * (n - 1) / (DIR ? 1 : 2), k = rnd() % 3 == 0 ? lim : rnd() % (lim + 1); auto ok = Rel([=](Integer a, Integer b) { return a < n && b < n && 0 <= a && 0 <= b && a != b; });
		int t = rnd() % 3; std::string h = "randomGraph" + d + S(n) + ",";
		if (t == 0) rnds<DIR>(randomGraph<NoData, DIR>(n, k), n, k, ok, h + S(k) + ")"); else if (t == 1) rnds<DIR>(randomGraph<NoData, DIR>(n, 1.0_real), n, lim, ok, h + "1.0)"); else rnds<DIR>(randomGraph<NoData, DIR>(n, 0.0_real), n, 0, ok, h + "0.0)"); break; }
	case 11: { n++; m++; Integer lim = n * m * (DIR ? 2 : 1), k = rnd() % 3 == 0 ? lim : rnd() % (lim + 1); auto ok = Rel([=](Integer a, Integer b) { return 0 <= a && 0 <= b && a < n + m && b < n + m && (a < n) != (b < n); });
		int t = rnd() % 3; std::string h = "randomBipartite" + d + S(n) + "," + S(m) + ",";
		if (t == 0) rnds<DIR>(randomBipartite<NoData, DIR>(n, m, k), n + m, k, ok, h + S(k) + ")"); else if (t == 1) rnds<DIR>(randomBipartite<NoData, DIR>(n, m, 1.0_real), n + m, lim, ok, h + "1.0)"); else rnds<DIR>(randomBipartite<NoData, DIR>(n, m, 0.0_real), n + m, 0, ok, h + "0.0)"); break; }
	}
}
// every possible edge can be drawn
template<bool DIR> static void all() {
	for (Integer n = 2; n < 6; n++) { std::set<P> E; for (int t = 0; t < 1500; t++) { auto g = randomGraph<NoData, DIR>(n, Integer(1)); for (const auto& e : g.getEdges()) E.insert(DIR ? P{e.from, e.to} : P{std::min(e.from, e.to), std::max(e.from, e.to)}); }
		kase("randomGraph<NoData,%d>(%lld, 1), 1500 times", (int)DIR, (long long)n); CHECK((Integer)E.size() == n * (n - 1) / (DIR ? 1 : 2), "only " + S(E.size()) + " different edges"); }
	for (Integer n = 1; n < 4; n++) for (Integer m = 1; m < 4; m++) { std::set<P> E; for (int t = 0; t < 1000; t++) { auto g = randomBipartite<NoData, DIR>(n, m, Integer(1)); for (const auto& e : g.getEdges()) E.insert(DIR ? P{e.from, e.to} : P{std::min(e.from, e.to), std::max(e.from, e.to)}); }
		kase("randomBipartite<NoData,%d>(%lld, %lld, 1), 1000 times", (int)DIR, (long long)n, (long long)m); CHECK((Integer)E.size() == n * m * (DIR ? 2 : 1), "only " + S(E.size()) + " different edges"); }
}
void fz::search() {
	details::initialized(true);
	for (int i = 0; i < 2000 && more(); i++) { one<false>(); one<true>(); }
	all<false>(); all<true>();
	while (more()) { one<false>(); one<true>(); }
}
