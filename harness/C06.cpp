#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C06";
const char* const pbt_rule = "Random flow problem P and its reversal -P (all fluxes and inflows negated); injection diagnostics of one are compared with production diagnostics of the other, in both ways, for a random selection of start sets (own toolboxes, or one toolbox re-assigned). Non-trivial: some tracer reaches at least 3 cells and the two directions differ.";

void pbt_property(Case& c)
{
    const Problem p = genProblem(c), r = reversed(p);
    wellConditioned(c, p);
    c.describe([&] { return show(p); });
    FD::Toolbox t = toolboxOf(p);
    const bool reuse = c.s.chance(1, 3);
    FD::Toolbox u = toolboxOf(r);
    std::vector<std::vector<double>> g;
    for (const bool fwd : {true, false}) {
        const auto src = sources(p, fwd);
        auto ids = someIds(c.s, src, false);
        if (p.n > 300 && ids.size() > 2) { ids.resize(2); }
        const auto st = looseStartSets(c.s, src, ids);
        const FD::Solution a = compute(t, fwd, st);
        if (reuse) {
            t.assignConnectionFlux(fluxOf(r));
            t.assignInflowFlux(inflowOf(r));
            const FD::Solution b = compute(t, !fwd, st);
            t.assignInflowFlux(inflowOf(p));
            t.assignConnectionFlux(fluxOf(p));
            sameSolution(c, p, fwd, ids, a, b, "reversed (re-assigned toolbox)");
        } else {
            const FD::Solution b = compute(u, !fwd, st);
            sameSolution(c, p, fwd, ids, a, b, "reversed");
        }
        for (const auto& id : ids) { if (a.concentration(FD::CellSetID(id)).size() >= 3) { c.nontrivial = true; } }
        g.push_back(a.timeOfFlight());
        c.label("several-tracers", ids.size() > 1);
    }
    if (g[0] == g[1]) { c.nontrivial = false; }
    c.label("conservative", p.conservative);
    c.label("multi-phase", p.nphase > 1);
    c.label("large", p.n >= 200);
}
