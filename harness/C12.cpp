#include "graph.hpp"
using namespace graph;
const char* const pbt_property_id = "C12";
const char* const pbt_rule = "Component result of a random graph, from the full or the sparse computation (incl. empty results), reversed 1-4 times; component sequence compared with the exactly reversed (restored) sequence, components compared element by element. Non-trivial: at least two components, one of them with at least two vertices.";
void pbt_property(Case& c)
{
    Src& s = c.s;
    const Digraph g = genGraph(c);
    c.describe([&] { return show(g); });
    Result r;
    if (s.chance(1, 2)) {
        std::vector<int> start;
        const int m = s.range(0, std::min(g.n, 4));
        for (int i = 0; i < m; ++i) { start.push_back(s.range(0, g.n - 1)); }
        Work ws(create_tarjan_workspace(g.n + (s.chance(1, 2) ? 3 : 0)));
        static const int dummy = 0;
        r.reset(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.empty() ? &dummy : start.data(), ws.get()));
        c.label("sparse-result");
        c.label("empty-result", start.empty());
    } else { r.reset(tarjan(g.n, g.ia.data(), g.jaData())); }
    c.check(r != nullptr, "NULL result");
    const auto before = components(r.get());
    auto rev = before;
    std::reverse(rev.begin(), rev.end());
    const int k = s.range(1, 4);
    for (int i = 0; i < k; ++i) {
        c.check(tarjan_reverse_sccresult(r.get()) != 0, "reversal reports failure");
        const auto now = components(r.get());
        const auto& want = i % 2 ? before : rev;
        c.checkf(now.size() == want.size(), [&] { return str("reversal ", i + 1, " changed the component count from ", want.size(), " to ", now.size()); });
        for (std::size_t q = 0; q < want.size(); ++q) {
            c.checkf(now[q] == want[q], [&] { return str("after reversal ", i + 1, " component ", q, " differs (size ", now[q].size(), ", expected ", want[q].size(), ")"); });
        }
    }
    std::size_t big = 0;
    for (const auto& x : before) { big = std::max(big, x.size()); }
    c.label("component>=1024", big >= 1024);
    c.label("n>=10000", g.n >= 10000);
    c.nontrivial = before.size() > 1 && big > 1;
}
