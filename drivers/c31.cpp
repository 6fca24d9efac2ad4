#include <bits/stdc++.h>
#include "graph_gen.h"
#define OPS(N, G, E) \
void N##_ctor(void* g, Integer l, Integer r) { new (g) G(l, r); } \
void N##_ctor1(void* g, Integer n) { new (g) G(n); } \
void N##_copy(void* g, const G& o) { new (g) G(o); } \
void N##_copyf(void* g, const G& o) { new (g) G(o.copy()); } \
void N##_assign(G& g, const G& o) { g = o; } \
std::size_t N##_size(const G& g) { return g.size(); } \
Integer N##_nodes(const G& g) { return g.nodeCount(); } \
Integer N##_edges(const G& g) { return g.edgeCount(); } \
Integer N##_minid(const G& g) { return g.getMinId(); } \
Integer N##_nextid(const G& g) { return g.getNextId(); } \
Integer N##_degree(const G& g, Integer v) { return g.degree(v); } \
bool N##_has(const G& g, Integer a, Integer b) { return g.hasEdge(a, b); } \
bool N##_erase(G& g, Integer a, Integer b) { return g.eraseEdge(a, b); } \
void N##_setmin(G& g, Integer id) { g.setMinId(id); } \
void N##_normalize(G& g) { g.normalize(); } \
void N##_combine(G& g, const G& o) { g.combine(o); } \
void N##_append(G& g, const G& o) { g.append(o); } \
void N##_range(void* r, const G& g, Integer a, Integer b) { new (r) G(g.range(a, b)); } \
void N##_perm(G& g, const std::vector<Integer>& p) { g.permutate(p); } \
void N##_perme(G& g) { g.permutateEdges(); } \
void N##_sub(void* r, const G& g, Integer m) { new (r) G(g.subgraph(m)); }
#define DATA(N, G) \
bool N##_find(const G& g, Integer a, Integer b, Integer* f, Integer* t, Integer* d) { auto r = g.findEdge(a, b); if (r) { *f = r->from; *t = r->to; *d = r->data; } return r.has_value(); } \
void N##_byid(const G& g, std::size_t id, Integer* f, Integer* t, Integer* d) { auto r = g.getEdgeById(id); *f = r.from; *t = r.to; *d = r.data; } \
void N##_add(G& g, Integer a, Integer b, const Integer& d, Integer* f, Integer* t, Integer* rd) { auto r = g.addEdge(a, b, d); *f = r.from; *t = r.to; *rd = r.data; } \
void N##_list(const G& g, std::vector<Integer>& f, std::vector<Integer>& t, std::vector<Integer>& d) { for (auto e : g.getEdges()) f.push_back(e.from), t.push_back(e.to), d.push_back(*e); } \
void N##_adj(const G& g, Integer v, std::vector<Integer>& f, std::vector<Integer>& t, std::vector<Integer>& d) { for (auto e : g[v]) f.push_back(e.from), t.push_back(e.to), d.push_back(*e); }
#define NODATA(N, G) void N##_add(G& g, Integer a, Integer b, Integer* f, Integer* t) { auto r = g.addEdge(a, b); *f = r.from; *t = r.to; }
using GU = Graph<Integer>;
using GD = DiGraph<Integer>;
using NU = Graph<>;
using ND = DiGraph<>;
extern "C" {
OPS(u, GU, Integer) OPS(d, GD, Integer)
DATA(u, GU) DATA(d, GD)
NODATA(nu, NU) NODATA(nd, ND)
bool nu_erase(NU& g, Integer a, Integer b) { return g.eraseEdge(a, b); }
bool nd_erase(ND& g, Integer a, Integer b) { return g.eraseEdge(a, b); }
void d_reverse(GD& g) { g.reverse(); }
void d_undir(void* r, const GD& g) { new (r) GU(g.undirected()); }
void u_dir(void* r, const GU& g) { new (r) GD(g.directed()); }
}
