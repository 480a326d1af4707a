#include "graph.hpp"
using namespace graph;
const char* const pbt_property_id = "C10";
const char* const pbt_rule = "Random directed graph (random, chains, rings, DAGs, hubs, grids, back-edges, dense; self loops, repeated edges; up to 20000, sometimes beyond 2^20 vertices); components compared with transitive closure (n<=16) or Kosaraju, plus order of every edge. Non-trivial: at least two components and two edges.";
void pbt_property(Case& c)
{
    GOpt o;
    o.huge = c.thorough ? 1000000 : 300000;
    o.giant = 1300000;
    const Digraph g = genGraph(c, o);
    c.describe([&] { return show(g); });
    Result r(tarjan(g.n, g.ia.data(), g.jaData()));
    c.check(r != nullptr, "tarjan() returned NULL");
    const auto ref = referenceScc(g);
    checkComponents(c, g, components(r.get()), std::vector<char>(g.n, 1), ref, false, "tarjan");
    labelGraph(c, g, ref);
}
