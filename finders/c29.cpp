#include <bits/stdc++.h>
#include "graph_val.h"
#include "fz.h"
using namespace fz;
void fz::search() {
	details::initialized(true);
	while (more()) {
		i64 off = rnd() % 3 ? (i64)(rnd() % 7) - 3 : (i64)pick(-(1ll << 61), 1ll << 61); int n = rnd() % (rnd() % 6 ? 8 : 60); Graph g(off, off + n); std::vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i;
		std::vector<std::set<Integer>> adj(n); std::string h; int m = n == 0 ? 0 : rnd() % (rnd() % 3 ? 2 * n + 2 : 5 * n), loops = 0, multis = 0; int comps = n; bool forest = true; std::vector<std::pair<i64, i64>> es; std::set<i64> loopset; std::set<std::pair<Integer, Integer>> multiset;
		// with some probability stay bipartite or a forest
		int kind = rnd() % 4; std::vector<int> side(n); for (int& x : side) x = rnd() & 1;
		for (int k = 0; k <= m; k++) {
			if (k > 0) { int a = rnd() % n, b = rnd() % n; if (kind == 1 && side[a] == side[b]) continue; if (kind == 2 && c[a] == c[b] && rnd() % 20) continue; if (kind == 3 && a == b) continue;
				h += " " + std::to_string(a + off) + "-" + std::to_string(b + off); if (h.size() > 3500) break; kase("Graph(%lld,%lld) addEdge:%s", off, off + n, h.c_str());
				g.addEdge(a + off, b + off); if (a == b) loops++, loopset.insert(a + off); if (adj[a].count(b + off)) multis++, multiset.insert({a + off, b + off}), multiset.insert({b + off, a + off}); adj[a].insert(b + off); adj[b].insert(a + off); es.push_back({a, b});
				if (c[a] != c[b]) { comps--; int f = c[a], t = c[b]; for (int& x : c) if (x == f) x = t; } else forest = false; }
			else kase("Graph(%lld,%lld) without edges", off, off + n);
			CHECK(g.nodeCount() == n && g.size() == (std::size_t)n, "wrong number of vertices"); CHECK(g.edgeCount() == (i64)es.size(), "edgeCount() = " + std::to_string(g.edgeCount()));
			CHECK(g.isConnected() == (comps <= 1), "isConnected() is wrong"); CHECK(g.isForest() == forest, "isForest() is wrong"); CHECK(g.isTree() == (comps <= 1 && forest), "isTree() is wrong");
			CHECK(g.hasSelfloop().has_value() == (loops > 0), "hasSelfloop() is wrong"); if (g.hasSelfloop()) CHECK(loopset.count(*g.hasSelfloop()), "hasSelfloop() names another vertex");
			CHECK(g.hasMultiedge().has_value() == (multis > 0), "hasMultiedge() is wrong"); if (g.hasMultiedge()) CHECK(multiset.count(*g.hasMultiedge()), "hasMultiedge() names another edge");
			std::vector<int> col(n, -1); bool bip = true; for (int s = 0; s < n; s++) if (col[s] < 0) { std::vector<int> st{s}; col[s] = 0; while (!st.empty()) { int v = st.back(); st.pop_back(); for (i64 w : adj[v]) { int x = w - off; if (col[x] < 0) col[x] = !col[v], st.push_back(x); else if (col[x] == col[v]) bip = false; } } }
			CHECK(g.isBipartite() == bip, "isBipartite() is wrong");
			if (n) for (int t = 0; t < 4; t++) { int a = rnd() % n, b = rnd() % n; CHECK(g.hasEdge(a + off, b + off) == (adj[a].count(b + off) > 0), "hasEdge is wrong"); CHECK(g.areConnected(a + off, b + off) == (c[a] == c[b]), "areConnected is wrong"); CHECK(g[a + off] == adj[a], "wrong neighbours"); CHECK(g.degree(a + off) == (i64)adj[a].size(), "wrong degree"); const Graph& cg = g; CHECK(&cg[a + off] == &g[a + off], "operator[] does not give a reference"); CHECK(Graph(cg)[a + off] == adj[a], "wrong neighbours of a temporary"); }
		}
	}
}
