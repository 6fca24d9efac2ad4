#include "graph_gen.h"
using G = Graph<>;
using D = DiGraph<>;
extern "C" {
G d_pruefer(const std::vector<Integer>& code) { return pruefer(code); }
G d_tree(Integer n) { return randomTree(n); }
G d_complete(Integer level, Integer children) { return completeTree(level, children); }
D d_complete_d(Integer level, Integer children) { return completeTree<NoData, true>(level, children); }
G d_cube(Integer dim) { return hypercube(dim); }
G d_lattice(Integer level) { return booleanLattice(level); }
D d_lattice_d(Integer level) { return booleanLattice<NoData, true>(level); }
G d_rado(Integer n) { return rado(n); }
D d_rado_d(Integer n) { return rado<NoData, true>(n); }
G d_growing(Integer n, Real p) { return randomGrowingGraph(n, p); }
}
