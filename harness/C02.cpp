#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C02";
const char* const pbt_rule = "Random flow problem and random selection/order of start sets; both directions; every tracer's key set is compared with breadth-first reachability and every value with a direct long-double linear solve. Non-trivial: some requested tracer reaches at least 3 cells and some cell mixes two inflows.";

void pbt_property(Case& c)
{
    const Problem p = c.s.chance(1, 150) ? (c.s.chance(1, 20) ? genHuge(c.s) : genDilution(c.s)) : genProblem(c);
    c.describe([&] { return show(p); });
    FD::Toolbox t = toolboxOf(p);
    for (const bool fwd : {true, false}) {
        Reference ref(p, fwd);
        ref.allowFaint = true;
        precondition(c, ref);
        auto ids = someIds(c.s, ref.wells(), false);
        if (p.n > 300 && ids.size() > 2) { ids.resize(2); }
        std::map<std::string, Field> F;
        for (const auto& id : ids) { F[id] = ref.solve(ref.wells().at(id)); }
        if (!ref.ok) { c.discard(); }
        const FD::Solution sol = compute(t, fwd, looseStartSets(c.s, ref.wells(), ids));
        const auto pts = sol.startPoints();
        std::set<std::string> want(ids.begin(), ids.end()), got;
        for (const auto& q : pts) { got.insert(q.to_string()); }
        c.check(got == want && pts.size() == want.size(), "start points differ from requested ids");
        for (const auto& id : ids) {
            checkConc(c, p, F[id], sol.concentration(FD::CellSetID(id)), str(fwd ? "forward " : "reverse ", quote(id)));
            int reached = 0;
            for (char r : F[id].reached) { reached += r; }
            if (reached >= 3 && mixingCells(p, fwd) > 0) { c.nontrivial = true; }
            c.label("partial-support", reached < p.n);
            c.label("multi-perforation", ref.wells().at(id).size() > 1);
        }
        for (const auto& w : p.inflow) {
            if (!want.count(w.first)) { c.check(sol.concentration(FD::CellSetID(w.first)).empty(), "concentration stored for unrequested id"); }
        }
        c.label("several-tracers", ids.size() > 1);
        labelProblem(c, p, ref);
    }
}
