#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C03";
const char* const pbt_rule = "Random flow problem and random selection/order of start sets; both directions; every per-tracer ToF field is compared (support and values) with a direct long-double solve of the tracer-weighted equations. Non-trivial: some requested tracer reaches at least 3 cells and some cell mixes two inflows.";

void pbt_property(Case& c)
{
    Problem p = c.s.chance(1, 150) ? (c.s.chance(1, 20) ? genHuge(c.s) : genDilution(c.s)) : genProblem(c);
    if (p.n < 60 && c.s.chance(1, 20)) { putOnCap(c.s, p, !c.s.chance(1, 2)); }
    c.describe([&] { return show(p); });
    FD::Toolbox t = toolboxOf(p);
    for (const bool fwd : {true, false}) {
        Reference ref(p, fwd);
        ref.allowFaint = true;
        precondition(c, ref);
        auto ids = someIds(c.s, ref.wells(), false);
        if (p.n > 300 && ids.size() > 2) { ids.resize(2); }
        std::map<std::string, Field> F;
        for (const auto& id : ids) { F[id] = ref.solve(ref.wells().at(id)); }
        if (!ref.ok) { c.discard(); }
        const FD::Solution sol = compute(t, fwd, looseStartSets(c.s, ref.wells(), ids));
        for (const auto& id : ids) {
            const auto tof = sol.timeOfFlight(FD::CellSetID(id));
            const auto conc = sol.concentration(FD::CellSetID(id));
            checkTracerTof(c, p, F[id], tof, str(fwd ? "forward " : "reverse ", quote(id)));
            c.check(tof.size() == conc.size(), "ToF and concentration cover different cells");
            for (const auto& x : tof) { c.check(conc.count(x.first) == 1, "ToF and concentration cover different cells"); }
            int reached = 0;
            for (char r : F[id].reached) { reached += r; }
            if (reached >= 3 && mixingCells(p, fwd) > 0) { c.nontrivial = true; }
            c.label("multi-perforation", ref.wells().at(id).size() > 1);
        }
        c.label("vague-bound", ref.vague());
        c.label("several-tracers", ids.size() > 1);
        labelProblem(c, p, ref);
    }
}
