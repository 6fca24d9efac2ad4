#include <bits/stdc++.h>
#define private public
#include "graph_val.h"
#undef private
#define COMMA ,
#define OFF(m) extern "C" const long o_##m = __builtin_offsetof(Graph, m);
OFF(offset) OFF(edges) OFF(adj) OFF(selfloop) OFF(multiedge) OFF(uf) OFF(buf) OFF(components) OFF(forest) OFF(bipartite)
extern "C" const long o_loophas = __builtin_offsetof(std::_Optional_payload_base<Integer>, _M_engaged);
using PII = std::pair<Integer, Integer>;
extern "C" const long o_multihas = __builtin_offsetof(std::_Optional_payload_base<PII>, _M_engaged);
extern "C" {
void d_ctor(void* g, Integer l, Integer r) { new (g) Graph(l, r); }
void d_add(Graph& g, Integer a, Integer b) { g.addEdge(a, b); }
bool d_conn(const Graph& g) { return g.isConnected(); }
bool d_forest(const Graph& g) { return g.isForest(); }
bool d_tree(const Graph& g) { return g.isTree(); }
bool d_bip(const Graph& g) { return g.isBipartite(); }
bool d_are(Graph& g, Integer a, Integer b) { return g.areConnected(a, b); }
Integer d_nodes(const Graph& g) { return g.nodeCount(); }
std::size_t d_size(const Graph& g) { return g.size(); }
Integer d_edges(const Graph& g) { return g.edgeCount(); }
Integer d_degree(const Graph& g, Integer a) { return g.degree(a); }
bool d_has(const Graph& g, Integer a, Integer b) { return g.hasEdge(a, b); }
bool d_loop(const Graph& g, Integer* v) { auto r = g.hasSelfloop(); if (r) *v = *r; return r.has_value(); }
bool d_multi(const Graph& g, Integer* v, Integer* w) { auto r = g.hasMultiedge(); if (r) { *v = r->first; *w = r->second; } return r.has_value(); }
const std::set<Integer>* d_adj(const Graph& g, Integer a) { return &g[a]; }
}
