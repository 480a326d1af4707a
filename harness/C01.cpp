#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C01";
const char* const pbt_rule = "Random flow problem (topology x conservative/potential/generic flux x magnitude regime x phases x wells); both directions are computed and the global ToF is compared cell by cell with a direct long-double linear solve. Non-trivial: at least 3 reached cells and a cell mixing two inflows, in one of the directions; cases whose recirculation is too badly conditioned or whose fill time ties with the cap are discarded.";

void pbt_property(Case& c)
{
    Problem p = c.s.chance(1, 150) ? (c.s.chance(1, 20) ? genHuge(c.s) : genDilution(c.s)) : genProblem(c);
    if (p.n < 60 && c.s.chance(1, 20)) { putOnCap(c.s, p, !c.s.chance(1, 2)); }
    c.describe([&] { return show(p); });
    FD::Toolbox t = toolboxOf(p);
    for (const bool fwd : {true, false}) {
        Reference ref(p, fwd);
        ref.allowFaint = true;
        precondition(c, ref);
        const Field g = ref.solve(ref.allSources());
        if (!ref.ok) { c.discard(); }
        std::vector<FD::CellSet> st;
        if (p.n < 60) { st = startSets(ref.wells(), someIds(c.s, ref.wells(), false)); }
        const FD::Solution sol = compute(t, fwd, st);
        checkGlobal(c, p, g, sol.timeOfFlight(), fwd ? "forward" : "reverse");
        int reached = 0;
        for (char r : g.reached) { reached += r; }
        c.label("unreached-cells", reached < p.n);
        c.label("vague-bound", ref.vague());
        labelProblem(c, p, ref);
        if (reached >= 3 && mixingCells(p, fwd) > 0) { c.nontrivial = true; }
    }
}
