#include <bits/stdc++.h>
#include "graph_val.h"
#include "fz.h"
using namespace fz;
void fz::search() {
	details::initialized(true);
	while (more()) {
		i64 off = rnd() % 3 ? (i64)(rnd() % 7) - 3 : (i64)pick(-(1ll << 61), 1ll << 61); int n = rnd() % (rnd() % 6 ? 7 : 40); DiGraph g(off, off + n); std::vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i;
		std::vector<std::set<Integer>> adj(n), rev(n); std::string h; int m = n == 0 ? 0 : rnd() % (rnd() % 3 ? 2 * n + 2 : 4 * n), loops = 0, multis = 0; bool forest = true; int es = 0; std::set<i64> loopset; std::set<std::pair<Integer, Integer>> multiset;
		int kind = rnd() % 4; std::vector<int> ord(n), todo(n); std::iota(todo.begin(), todo.end(), 0); for (int i = 0; i < n; i++) ord[i] = rnd() % 1000; std::shuffle(todo.begin(), todo.end(), std::mt19937(rnd()));
		for (int k = 0; k <= m; k++) {
			if (k > 0) { int a = rnd() % n, b = rnd() % n; if (kind == 1 && ord[a] >= ord[b] && rnd() % 30) continue; if (kind == 2) { if (k >= n) break; b = todo[k]; a = todo[rnd() % k]; if (rnd() % 40 == 0) std::swap(a, b); }
				h += " " + std::to_string(a + off) + ">" + std::to_string(b + off); if (h.size() > 3500) break; kase("DiGraph(%lld,%lld) addEdge:%s", off, off + n, h.c_str());
				g.addEdge(a + off, b + off); if (a == b) loops++, loopset.insert(a + off); if (adj[a].count(b + off)) multis++, multiset.insert({a + off, b + off}); adj[a].insert(b + off); rev[b].insert(a + off); es++;
				if (c[a] != c[b]) { int f = c[a], t = c[b]; for (int& x : c) if (x == f) x = t; } else forest = false; }
			else kase("DiGraph(%lld,%lld) without edges", off, off + n);
			CHECK(g.nodeCount() == n && g.size() == (std::size_t)n, "wrong number of vertices"); CHECK(g.edgeCount() == es, "edgeCount() = " + std::to_string(g.edgeCount()));
			CHECK(g.hasSelfloop().has_value() == (loops > 0), "hasSelfloop() is wrong"); if (g.hasSelfloop()) CHECK(loopset.count(*g.hasSelfloop()), "hasSelfloop() names another vertex");
			CHECK(g.hasMultiedge().has_value() == (multis > 0), "hasMultiedge() is wrong"); if (g.hasMultiedge()) CHECK(multiset.count(*g.hasMultiedge()), "hasMultiedge() names another edge");
			int roots = 0, root = -1; for (int i = 0; i < n; i++) if (rev[i].empty()) roots++, root = i; bool tree = roots == 1 && forest && es == n - 1; auto t = g.isTree();
			CHECK(t.has_value() == tree, "isTree() is wrong"); if (t && tree) CHECK(*t == root + off, "isTree() returned another root");
			std::vector<int> deg(n), q; for (int i = 0; i < n; i++) { deg[i] = rev[i].size(); if (!deg[i]) q.push_back(i); } std::size_t z = 0; while (z < q.size()) for (Integer w : adj[q[z++]]) if (!--deg[w - off]) q.push_back(w - off);
			bool dag = q.size() == (std::size_t)n; auto o = g.isDAG(); CHECK(o.has_value() == dag, "isDAG() is wrong");
			if (o) { std::map<i64, int> pos; for (std::size_t i = 0; i < o->size(); i++) { CHECK((*o)[i] >= off && (*o)[i] < off + n, "isDAG() returned a wrong vertex"); pos[(*o)[i]] = i; } CHECK(pos.size() == (std::size_t)n && o->size() == (std::size_t)n, "isDAG() did not return every vertex once"); for (int i = 0; i < n; i++) for (Integer w : adj[i]) CHECK(pos[i + off] < pos[w], "isDAG() returned an order that is not topological"); }
			if (n) for (int t = 0; t < 4; t++) { int a = rnd() % n, b = rnd() % n; const DiGraph& cg = g; CHECK(g.hasEdge(a + off, b + off) == (adj[a].count(b + off) > 0), "hasEdge is wrong"); CHECK(g.hasReverse(a + off, b + off) == (adj[b].count(a + off) > 0), "hasReverse is wrong"); CHECK(g[a + off] == adj[a], "wrong successors"); CHECK(g.inEdges(a + off) == rev[a], "wrong predecessors"); CHECK(g.outDegree(a + off) == (i64)adj[a].size(), "wrong out degree"); CHECK(g.inDegree(a + off) == (i64)rev[a].size(), "wrong in degree"); CHECK(DiGraph(cg)[a + off] == adj[a] && DiGraph(cg).inEdges(a + off) == rev[a], "wrong neighbours of a temporary"); }
		}
	}
}
