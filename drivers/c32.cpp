#include "graph_gen.h"
using G = Graph<>;
using D = DiGraph<>;
extern "C" {
G d_independent(Integer n) { return independent(n); }
D d_independent_d(Integer n) { return independent<NoData, true>(n); }
G d_clique(Integer n) { return clique(n); }
D d_clique_d(Integer n) { return clique<NoData, true>(n); }
G d_bipartite(Integer n, Integer m) { return bipartite(n, m); }
D d_bipartite_d(Integer n, Integer m) { return bipartite<NoData, true>(n, m); }
G d_star(Integer n) { return star(n); }
D d_star_d(Integer n) { return star<NoData, true>(n); }
G d_path(Integer n) { return path(n); }
D d_path_d(Integer n) { return path<NoData, true>(n); }
G d_cycle(Integer n) { return cycle(n); }
D d_cycle_d(Integer n) { return cycle<NoData, true>(n); }
G d_wheel(Integer n) { return wheel(n); }
G d_lolly(Integer p, Integer c) { return lolly(p, c); }
G d_broom(Integer p, Integer l) { return broom(p, l); }
G d_grid(Integer n, Integer m) { return grid(n, m); }
G d_rbip(Integer n, Integer m, Integer k) { return randomBipartite(n, m, k); }
D d_rbip_d(Integer n, Integer m, Integer k) { return randomBipartite<NoData, true>(n, m, k); }
G d_rgraph(Integer n, Integer m) { return randomGraph(n, m); }
D d_rgraph_d(Integer n, Integer m) { return randomGraph<NoData, true>(n, m); }
G d_rgraphp(Integer n, Real p) { return randomGraph(n, p); }
D d_rgraphp_d(Integer n, Real p) { return randomGraph<NoData, true>(n, p); }
G d_rbipp(Integer n, Integer m, Real p) { return randomBipartite(n, m, p); }
D d_rbipp_d(Integer n, Integer m, Real p) { return randomBipartite<NoData, true>(n, m, p); }
}
