#include <bits/stdc++.h>
#include "graph_val.h"
#include "fz.h"
using namespace fz;
void fz::search() {
	details::initialized(true);
	while (more()) {
		int n = rnd() % (rnd() % 4 ? 9 : 200); UnionFind u(n); std::vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i; std::string h; if (n == 0) continue;
		int m = rnd() % (3 * n + 2);
		for (int k = 0; k < m; k++) { int a = rnd() % n, b = rnd() % n, t = rnd() % 4; h += (t < 2 ? " join " : t == 2 ? " connected " : " find ") + std::to_string(a) + "," + std::to_string(b); kase("UnionFind(%d):%s", n, h.c_str());
			if (t < 2) { bool d = c[a] != c[b]; bool r = u.unionSets(a, b); CHECK(r == d, "unionSets returned the wrong value"); int from = c[a], to = c[b]; for (int& x : c) if (x == from) x = to; }
			else if (t == 2) CHECK(u.connected(a, b) == (c[a] == c[b]), "connected is wrong");
			else { int r = u.findSet(a); CHECK(0 <= r && r < n && c[r] == c[a], "findSet left the class"); CHECK((c[a] == c[b]) == (u.findSet(b) == r), "representatives are not unique"); } }
		kase("UnionFind(%d):%s; all pairs", n, h.c_str()); for (int k = 0; k < 30; k++) { int a = rnd() % n, b = rnd() % n; CHECK(u.connected(a, b) == (c[a] == c[b]), "connected(" + std::to_string(a) + "," + std::to_string(b) + ") is wrong"); }
	}
	{ int n = 2000000; kase("UnionFind(%d): all elements joined in ascending and descending order", n); UnionFind u(n); for (int i = 1; i < n; i++) u.unionSets(i - 1, i); CHECK(u.connected(0, n - 1), "not connected"); UnionFind v(n); for (int i = n - 1; i > 0; i--) v.unionSets(i, i - 1); CHECK(v.connected(0, n - 1), "not connected"); }
}
