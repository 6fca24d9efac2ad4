#include <bits/stdc++.h>
#include "graph_gen.h"
#include "fz.h"
using namespace fz;
using P = std::pair<Integer, Integer>;
#define S(x) std::to_string(x)
template<bool DIR> static std::set<P> edges(const GraphDetail::GraphType<NoData, DIR>& g) {
	std::set<P> E; Integer c = 0, n = g.nodeCount();
	for (const auto& e : g.getEdges()) { c++; CHECK(0 <= e.from && e.from < n && 0 <= e.to && e.to < n && e.from != e.to, "edge outside"); E.insert(DIR ? P{e.from, e.to} : P{std::min(e.from, e.to), std::max(e.from, e.to)}); }
	CHECK(c == g.edgeCount() && c == (Integer)E.size(), "edges counted wrong"); return E;
}
template<bool DIR> static void check(const GraphDetail::GraphType<NoData, DIR>& g, Integer n, const std::set<P>& W, const std::string& h) {
	kase("%s", h.c_str()); CHECK(g.nodeCount() == n && g.getMinId() == 0, "wrong vertices: " + S(g.nodeCount())); auto E = edges<DIR>(g);
	for (auto [a, b] : W) CHECK(E.count(DIR ? P{a, b} : P{std::min(a, b), std::max(a, b)}), "missing edge " + S(a) + " " + S(b));
	CHECK(E.size() == W.size(), "too many edges");
}
static void tree(Integer l, Integer c, Integer r, Integer& next, std::set<P>& W) { next = r + 1; if (l > 0) for (Integer i = 0; i < c; i++) { Integer s = next; W.insert({r, s}); tree(l - 1, c, s, next, W); } }
// the tree of a Pruefer code, by definition: join the least vertex that does not occur any more with the entry
static std::set<P> decode(std::vector<Integer> code) {
	Integer n = code.size() + 2; std::vector<bool> gone(n); std::set<P> W;
	auto leaf = [&](size_t k) { for (Integer v = 0;; v++) if (!gone[v] && std::find(code.begin() + k, code.end(), v) == code.end()) { gone[v] = true; return v; } };
	for (size_t k = 0; k < code.size(); k++) W.insert({code[k], leaf(k)});
	Integer a = leaf(code.size()), b = leaf(code.size()); W.insert({a, b}); return W;
}
static std::string show(const std::vector<Integer>& c) { std::string s; for (Integer x : c) s += S(x) + " "; return s; }
template<bool DIR> static void bits() {
	Integer n = rnd() % 70; std::set<P> W; for (Integer i = 0; i < n; i++) for (Integer j = 0; j < i; j++) if (j < 60 && (i >> j & 1)) W.insert({j, i});
	kase("rado(%lld)", (long long)n); check<DIR>(rado<NoData, DIR>(n), n, W, "rado(" + S(n) + ")" + (DIR ? " directed" : ""));
	Integer l = rnd() % 8; W.clear(); for (Integer i = 0; i < 1 << l; i++) for (Integer j = 0; j < l; j++) if (i >> j & 1) W.insert({i, i ^ (1 << j)});
	kase("booleanLattice(%lld)", (long long)l); check<DIR>(booleanLattice<NoData, DIR>(l), 1 << l, W, "booleanLattice(" + S(l) + ")" + (DIR ? " directed" : ""));
}
template<bool DIR> static void complete() {
	Integer l = rnd() % 5, c = 1 + rnd() % (l > 3 ? 3 : 5), n = 0; std::set<P> W; tree(l, c, 0, n, W); std::string h = "completeTree(" + S(l) + ", " + S(c) + ")" + (DIR ? " directed" : "");
	kase("%s", h.c_str()); check<DIR>(completeTree<NoData, DIR>(l, c), n, W, h);
	if (l) { W.clear(); tree(l, 2, 0, n, W); check<DIR>(completeTree<NoData, DIR>(l), n, W, "completeTree(" + S(l) + ")"); }
}
template<bool DIR> static bool isTree(const GraphDetail::GraphType<NoData, DIR>& g, Integer n) {
	if (g.nodeCount() != n || g.edgeCount() != (n ? n - 1 : 0)) return false;
	std::vector<std::vector<Integer>> adj(n); std::vector<int> in(n); for (const auto& e : g.getEdges()) { adj[e.from].push_back(e.to); in[e.to]++; if (!DIR) adj[e.to].push_back(e.from); }
	std::vector<bool> seen(n); std::vector<Integer> q; if (n) { q.push_back(0); seen[0] = true; } for (size_t i = 0; i < q.size(); i++) for (Integer v : adj[q[i]]) if (!seen[v]) { seen[v] = true; q.push_back(v); }
	return (Integer)q.size() == n;
}
static void trees() {
	for (Integer n = 0; n < 12; n++) for (int t = 0; t < 5; t++) { kase("randomTree(%lld)", (long long)n); CHECK(isTree<false>(randomTree(n), n), "no tree"); if (!n) continue; kase("directed randomTree(%lld)", (long long)n); CHECK((isTree<true>(randomTree<NoData, true>(n), n)), "no tree with root 0"); }
	// every labelled tree is drawn, about equally often
	for (Integer n = 3; n < 6; n++) {
		size_t all = std::llround(std::pow(n, n - 2)), rep = 400; std::map<std::set<P>, size_t> C; for (size_t t = 0; t < rep * all; t++) C[edges<false>(randomTree(n))]++;
		kase("randomTree(%lld), %zu times", (long long)n, rep * all); CHECK(C.size() == all, S(C.size()) + " different trees instead of " + S(all));
		double chi = 0; for (auto& [k, v] : C) chi += (v - (double)rep) * (v - (double)rep) / rep; CHECK(chi < all - 1 + 12 * std::sqrt(2.0 * all) + 40, "trees are not equally likely");
	}
	// every vertex occurs in the code equally often
	for (Integer n = 6; n < 15; n++) {
		std::vector<double> D(n); const double rep = 4000; for (int t = 0; t < rep; t++) { auto g = randomTree(n); for (Integer v = 0; v < n; v++) D[v] += g.degree(v) - 1; }
		kase("randomTree(%lld), %d times", (long long)n, (int)rep); double N = rep * (n - 2), m = N / n, sd = std::sqrt(m * (1 - 1.0 / n));
		for (Integer v = 0; v < n; v++) CHECK(std::abs(D[v] - m) < 7 * sd, "vertex " + S(v) + " has a wrong average degree");
	}
}
void fz::search() {
	details::initialized(true);
	// all codes of up to 6 vertices
	for (Integer n = 2; n <= 6; n++) { std::vector<Integer> c(n - 2); for (;;) {
		std::string h = "pruefer " + show(c); kase("%s", h.c_str()); check<false>(pruefer(c), n, decode(c), h);
		size_t i = 0; while (i < c.size() && ++c[i] == n) c[i++] = 0; if (i == c.size()) break; } }
	for (int t = 0; t < 400 && more(); t++) { bits<false>(); bits<true>(); complete<false>(); complete<true>(); }
	for (Integer d = 0; d < 7; d++) { std::set<P> W; for (Integer i = 0; i < 1 << d; i++) for (Integer j = 0; j < d; j++) if (!(i >> j & 1)) W.insert({i, i | 1 << j}); kase("hypercube(%lld)", (long long)d); check<false>(hypercube(d), 1 << d, W, "hypercube(" + S(d) + ")"); }
	trees();
	for (int t = 0; t < 200; t++) { Integer n = rnd() % 30; Real p = t % 3 == 0 ? 1 : t % 3 == 1 ? 0 : 0.5_real; kase("randomGrowingGraph(%lld, %Lf)", (long long)n, p); auto g = randomGrowingGraph(n, p); CHECK(g.nodeCount() == n && g.getMinId() == 0, "wrong vertices"); edges<false>(g); if (p == 0) CHECK(g.edgeCount() == 0, "edges with p = 0"); }
	while (more()) { size_t k = rnd() % 14; std::vector<Integer> c(k); Integer lim = rnd() % 2 ? k + 2 : 1 + rnd() % (k + 2), lo = rnd() % (k + 3 - lim); for (auto& x : c) x = lo + rnd() % lim; std::string h = "pruefer " + show(c); kase("%s", h.c_str()); check<false>(pruefer(c), k + 2, decode(c), h); bits<false>(); bits<true>(); complete<false>(); complete<true>(); }
}
