#include <bits/stdc++.h>
#include "graph_gen.h"
#include "fz.h"
using namespace fz;
using P = std::pair<Integer, Integer>;
template<bool DIR> struct M { Integer lo = 0, n = 0; std::map<P, Integer> E; static P key(Integer a, Integer b) { return DIR || a < b ? P{a, b} : P{b, a}; } bool has(Integer v) const { return lo <= v && v < lo + n; } };
static std::string hist;
template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template<bool DIR> static void check(const GraphDetail::GraphType<Integer, DIR>& g, const M<DIR>& m) {
	kase("%s", hist.c_str());
	CHECK(g.nodeCount() == m.n && (Integer)g.size() == m.n && g.getMinId() == m.lo && g.getNextId() == m.lo + m.n, "wrong vertices: " + std::to_string(g.getMinId()) + " " + std::to_string(g.nodeCount()));
	CHECK(g.edgeCount() == (Integer)m.E.size(), "edgeCount " + std::to_string(g.edgeCount()) + " instead of " + std::to_string(m.E.size()));
	std::map<P, Integer> E; size_t c = 0;
	for (const auto& e : g.getEdges()) { auto k = M<DIR>::key(e.from, e.to); CHECK(m.E.count(k) && m.E.at(k) == *e && !E.count(k), "getEdges: edge " + std::to_string(e.from) + " " + std::to_string(e.to)); E[k] = *e; auto f = g.getEdgeById(c++); CHECK(f.from == e.from && f.to == e.to && *f == *e, "getEdgeById"); }
	CHECK(throws([&] { g.getEdgeById(c); }) && throws([&] { g.degree(m.lo - 1); }) && throws([&] { g.hasEdge(m.lo, m.lo + m.n); }) && throws([&] { g[m.lo + m.n]; }), "argument outside accepted");
	for (Integer a = m.lo; a < m.lo + m.n; a++) {
		std::map<Integer, Integer> N; for (const auto& e : g[a]) { CHECK(e.from == a && !N.count(e.to), "operator[]: edge " + std::to_string(e.from) + " " + std::to_string(e.to)); N[e.to] = *e; }
		CHECK(g.degree(a) == (Integer)N.size(), "degree");
		for (Integer b = m.lo; b < m.lo + m.n; b++) {
			auto it = m.E.find(M<DIR>::key(a, b)); bool w = a != b && it != m.E.end(); auto f = g.findEdge(a, b);
			std::string s = std::to_string(a) + " " + std::to_string(b);
			CHECK(g.hasEdge(a, b) == w && f.has_value() == w && N.count(b) == (size_t)w, (w ? "missing edge " : "unexpected edge ") + s);
			if (w) CHECK(f->from == a && f->to == b && **f == it->second && N[b] == it->second, "wrong data of edge " + s);
		}
	}
}
template<bool DIR> static void add(GraphDetail::GraphType<Integer, DIR>& g, M<DIR>& m, Integer a, Integer b, Integer d) {
	hist += " add(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + ")"; kase("%s", hist.c_str());
	bool ok = m.has(a) && m.has(b) && a != b, t = throws([&] { auto e = g.addEdge(a, b, d); CHECK(e.from == a && e.to == b && *e == d, "addEdge returned another edge"); });
	CHECK(t == !ok, "addEdge " + std::string(t ? "rejects" : "accepts")); if (ok) m.E[M<DIR>::key(a, b)] = d;
}
template<bool DIR> static void fill(GraphDetail::GraphType<Integer, DIR>& g, M<DIR>& m) { for (int k = rnd() % 8; k > 0; k--) add<DIR>(g, m, m.lo - (rnd() % 9 == 0) + rnd() % (m.n + 1), m.lo + rnd() % (m.n + 1), rnd() % 100); }
template<bool DIR> static void one() {
	Integer lo = (Integer)(rnd() % 7) - 3, n = rnd() % 6; using G = GraphDetail::GraphType<Integer, DIR>;
	hist = std::string(DIR ? "DiGraph(" : "Graph(") + std::to_string(lo) + "," + std::to_string(lo + n) + ")";
	G g(lo, lo + n); M<DIR> m; m.lo = lo; m.n = n; fill<DIR>(g, m); check<DIR>(g, m);
	auto S = [](Integer x) { return std::to_string(x); };
	for (int k = 0; k < 6; k++) {
		kase("%s", hist.c_str());
		switch (rnd() % 13) {
		case 0: fill<DIR>(g, m); break;
		case 1: for (int t = 0; t < 3; t++) { Integer a = m.lo + rnd() % (m.n + 1), b = m.lo + rnd() % (m.n + 1); if (t && !m.E.empty()) { auto it = std::next(m.E.begin(), rnd() % m.E.size()); a = it->first.first, b = it->first.second; if (!DIR && rnd() % 2) std::swap(a, b); }
			hist += " erase(" + S(a) + "," + S(b) + ")"; kase("%s", hist.c_str()); bool r = false, x = throws([&] { r = g.eraseEdge(a, b); }); CHECK(x == !(m.has(a) && m.has(b)), "eraseEdge: exception"); if (!x) CHECK(r == (a != b && m.E.erase(M<DIR>::key(a, b)) > 0), "eraseEdge: result"); check<DIR>(g, m); } break;
		case 2: { Integer z = (Integer)(rnd() % 9) - 4; hist += " setMinId(" + S(z) + ")"; kase("%s", hist.c_str()); g.setMinId(z); M<DIR> q; q.lo = z; q.n = m.n; for (auto [e, d] : m.E) q.E[M<DIR>::key(e.first - m.lo + z, e.second - m.lo + z)] = d; m = q; break; }
		case 3: if constexpr (DIR) { hist += " reverse"; g.reverse(); M<DIR> q = m; q.E.clear(); for (auto [e, d] : m.E) q.E[{e.second, e.first}] = d; m = q; } break;
		case 4: { hist += " copy"; G h(g.copy()); check<DIR>(g, m); g = G(0); g = h; G& r = g; g = r; break; }
		case 5: { hist += " combine["; G h(m.lo + (Integer)(rnd() % 7) - 3, m.lo + 3 + rnd() % 4); M<DIR> q; q.lo = h.getMinId(); q.n = h.nodeCount(); fill<DIR>(h, q); hist += " ]"; kase("%s", hist.c_str()); if (rnd() % 5 == 0) { g.combine(g); break; } g.combine(h); check<DIR>(h, q); Integer u = std::max(m.lo + m.n, q.lo + q.n); m.lo = std::min(m.lo, q.lo); m.n = u - m.lo; for (auto [e, d] : q.E) m.E[e] = d; break; }
		case 6: { bool self = rnd() % 4 == 0; if (m.n > 12) break; hist += " append["; Integer l = (Integer)(rnd() % 7) - 3; G h(l, l + rnd() % 4); M<DIR> q; q.lo = l; q.n = h.nodeCount(); fill<DIR>(h, q); hist += self ? " ] itself" : " ]"; kase("%s", hist.c_str()); if (self) q = m; Integer dl = m.lo + m.n - q.lo; self ? g.append(g) : g.append(h); m.n += q.n; for (auto [e, d] : q.E) m.E[M<DIR>::key(e.first + dl, e.second + dl)] = d; if (!self) check<DIR>(h, q); break; }
		case 7: { Integer a = m.lo + (Integer)(rnd() % 5) - 2, b = a + (Integer)(rnd() % 8) - 1; hist += " range(" + S(a) + "," + S(b) + ")"; kase("%s", hist.c_str()); G h; bool x = throws([&] { h = g.range(a, b); }); CHECK(x == (b < a), "range: exception"); if (x) break; M<DIR> q; q.lo = a; q.n = b - a; for (auto [e, d] : m.E) if (q.has(e.first) && q.has(e.second)) q.E[e] = d; check<DIR>(g, m); check<DIR>(h, q); break; }
		case 8: { std::vector<Integer> p(m.n); std::iota(p.begin(), p.end(), m.lo); for (Integer i = m.n - 1; i > 0; i--) std::swap(p[i], p[rnd() % (i + 1)]); bool bad = m.n && rnd() % 5 == 0; if (bad) p[0] = rnd() % 2 ? p[m.n - 1] + (m.n == 1) : m.lo + m.n; hist += " permutate("; for (auto v : p) hist += S(v) + ","; hist += ")"; kase("%s", hist.c_str()); bool x = throws([&] { g.permutate(p); }); CHECK(x == bad, "permutate: exception"); if (x) break; M<DIR> q = m; q.E.clear(); for (auto [e, d] : m.E) q.E[M<DIR>::key(p[e.first - m.lo], p[e.second - m.lo])] = d; m = q; break; }
		case 9: hist += " permutateEdges"; g.permutateEdges(); break;
		case 10: { Integer k = rnd() % 8; hist += " subgraph(" + S(k) + ")"; kase("%s", hist.c_str()); G h(g.subgraph(k)); M<DIR> q = m; q.E.clear(); for (const auto& e : h.getEdges()) { auto w = M<DIR>::key(e.from, e.to); CHECK(m.E.count(w) && m.E[w] == *e, "subgraph: other edge"); q.E[w] = *e; } CHECK((Integer)q.E.size() == std::min<Integer>(k, m.E.size()), "subgraph: number of edges"); check<DIR>(h, q); break; }
		case 11: if constexpr (DIR) { hist += " undirected"; auto h = g.undirected(); M<false> q; q.lo = m.lo; q.n = m.n; for (const auto& e : h.getEdges()) { bool f = m.E.count({e.from, e.to}) && m.E[{e.from, e.to}] == *e, b = m.E.count({e.to, e.from}) && m.E[{e.to, e.from}] == *e; CHECK(f || b, "undirected: edge or data"); } for (auto [e, d] : m.E) { auto w = M<false>::key(e.first, e.second); auto f = h.findEdge(e.first, e.second); CHECK(f.has_value(), "undirected: edge missing"); q.E[w] = **f; } check<false>(h, q); }
			else { hist += " directed"; auto h = g.directed(); M<true> q; q.lo = m.lo; q.n = m.n; for (auto [e, d] : m.E) q.E[e] = d, q.E[{e.second, e.first}] = d; check<true>(h, q); } break;
		case 12: { hist += " normalize"; g.normalize(); M<DIR> q; q.lo = 0; q.n = m.n; for (auto [e, d] : m.E) q.E[M<DIR>::key(e.first - m.lo, e.second - m.lo)] = d; m = q; break; }
		}
		check<DIR>(g, m);
	}
}
void fz::search() {
	details::initialized(true); kase("Graph(1,0)"); CHECK(throws([] { Graph<Integer>(1, 0); }), "negative size accepted");
	while (more()) { one<false>(); one<true>(); }
}
