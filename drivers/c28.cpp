#include <bits/stdc++.h>
#define private public
#include "graph_val.h"
#undef private
extern "C" {
void d_ctor(void* u, Integer n) { new (u) UnionFind(n); }
Integer d_find(const UnionFind& u, Integer a) { return u.findSet(a); }
bool d_conn(const UnionFind& u, Integer a, Integer b) { return u.connected(a, b); }
bool d_union(UnionFind& u, Integer a, Integer b) { return u.unionSets(a, b); }
}
