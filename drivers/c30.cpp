#include <bits/stdc++.h>
#include "graph_val.h"
#define OFF(m) extern "C" const long o_##m = __builtin_offsetof(DiGraph, m);
OFF(offset) OFF(edges) OFF(adj) OFF(selfloop) OFF(multiedge) OFF(uf) OFF(rev) OFF(root) OFF(rootCount)
extern "C" const long o_loophas = __builtin_offsetof(std::_Optional_payload_base<Integer>, _M_engaged);
using PII = std::pair<Integer, Integer>;
extern "C" const long o_multihas = __builtin_offsetof(std::_Optional_payload_base<PII>, _M_engaged);
extern "C" {
void d_ctor(void* g, Integer l, Integer r) { new (g) DiGraph(l, r); }
void d_add(DiGraph& g, Integer a, Integer b) { g.addEdge(a, b); }
bool d_tree(const DiGraph& g, Integer* v) { auto r = g.isTree(); if (r) *v = *r; return r.has_value(); }
bool d_dag(const DiGraph& g, std::vector<Integer>& out) { auto r = g.isDAG(); if (r) out = *r; return r.has_value(); }
Integer d_nodes(const DiGraph& g) { return g.nodeCount(); }
std::size_t d_size(const DiGraph& g) { return g.size(); }
Integer d_edges(const DiGraph& g) { return g.edgeCount(); }
Integer d_out(const DiGraph& g, Integer a) { return g.outDegree(a); }
Integer d_in(const DiGraph& g, Integer a) { return g.inDegree(a); }
bool d_has(const DiGraph& g, Integer a, Integer b) { return g.hasEdge(a, b); }
bool d_rev(const DiGraph& g, Integer a, Integer b) { return g.hasReverse(a, b); }
bool d_loop(const DiGraph& g, Integer* v) { auto r = g.hasSelfloop(); if (r) *v = *r; return r.has_value(); }
bool d_multi(const DiGraph& g, Integer* v, Integer* w) { auto r = g.hasMultiedge(); if (r) { *v = r->first; *w = r->second; } return r.has_value(); }
const std::set<Integer>* d_adj(const DiGraph& g, Integer a) { return &g[a]; }
const std::set<Integer>* d_inE(const DiGraph& g, Integer a) { return &g.inEdges(a); }
}
