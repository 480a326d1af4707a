#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C28";
const char* const pbt_rule = "Random exactly conservative flow problem (inflow equals outflow in every cell; acyclic or recirculating, several wells and phases); both directions. The outflow-weighted sum of the times of flight in the cells where the flow leaves is compared with the pore volume of the reached cells (globally) and with the pore volume weighted by concentration (per tracer), and the outflow-weighted sum of the concentrations with the well's total rate. Cases in which a reached cell is at the cap skip the volume balance. Non-trivial: at least 3 reached cells and the volume balance was evaluated.";

void pbt_property(Case& c)
{
    GenOpt o;
    o.needConservative = true;
    o.manyWells = false;
    const Problem p = genProblem(c, o);
    c.describe([&] { return show(p); });
    FD::Toolbox t = toolboxOf(p);
    for (const bool fwd : {true, false}) {
        Reference ref(p, fwd);
        precondition(c, ref);
        auto ids = someIds(c.s, ref.wells(), false);
        if (p.n > 300 && ids.size() > 2) { ids.resize(2); }
        const Field g = ref.solve(ref.allSources());
        std::map<std::string, Field> F;
        for (const auto& id : ids) { F[id] = ref.solve(ref.wells().at(id)); }
        if (!ref.ok) { c.discard(); }
        // Where the flow leaves.
        std::map<int, LD> out;
        for (const auto& w : sources(p, !fwd)) { for (const auto& x : w.second) { out[x.first] += x.second; } }
        const FD::Solution sol = compute(t, fwd, looseStartSets(c.s, ref.wells(), ids));
        const char* dir = fwd ? "forward" : "reverse";
        auto free = [&](const Field& f) { if (ref.capped > 0) { return false; } for (int i = 0; i < p.n; ++i) { if (f.reached[i] && (!(f.tof[i] < maxTof) || f.faint[i])) { return false; } } return true; };
        int reached = 0;
        const bool below = free(g);
        {
            LD vol = 0, bal = 0, tol = 0;
            for (int i = 0; i < p.n; ++i) { if (g.reached[i]) { ++reached; vol += p.pv[i]; } }
            for (const auto& x : out) {
                const double tof = sol.timeOfFlight().at(x.first);
                if (!g.reached[x.first]) { c.discard(); }
                bal += x.second * tof;
                tol += x.second * Reference::tolTof(g, x.first);
            }
            if (below) {
                c.checkf(close(bal, vol, 2 * tol + 1e-12L * vol), [&] { return str(dir, ": outflow times time of flight adds up to ", (double) bal, ", but the reached pore volume is ", (double) vol, " +- ", (double) (2 * tol)); });
                c.label("global-balance");
            }
        }
        for (const auto& id : ids) {
            const Field& f = F[id];
            const auto conc = sol.concentration(FD::CellSetID(id)), tof = sol.timeOfFlight(FD::CellSetID(id));
            LD vol = 0, bal = 0, tol = 0, rate = 0, mass = 0, mtol = 0;
            for (const auto& x : conc) {
                c.check(x.first >= 0 && x.first < p.n && tof.count(x.first) == 1, "tracer fields do not cover the same cells");
                vol += p.pv[x.first] * static_cast<LD>(x.second);
                tol += p.pv[x.first] * Reference::tolT(f, x.first);
            }
            for (const auto& x : out) {
                const auto i = conc.find(x.first);
                if (i == conc.end()) { continue; }
                bal += x.second * i->second * tof.at(x.first);
                tol += x.second * (i->second * Reference::tolTof(f, x.first) + tof.at(x.first) * Reference::tolT(f, x.first));
                mass += x.second * i->second;
                mtol += x.second * Reference::tolT(f, x.first);
            }
            for (const auto& x : ref.wells().at(id)) { rate += x.second; }
            c.checkf(close(mass, rate, 2 * mtol + 1e-12L * rate), [&] { return str(dir, ": ", (double) mass, " of the tracer of ", quote(id), " leaves, but ", (double) rate, " enters"); });
            if (free(f)) {
                c.checkf(close(bal, vol, 2 * tol + 1e-12L * vol), [&] { return str(dir, ": outflow times time of flight of ", quote(id), " adds up to ", (double) bal, ", but its pore volume is ", (double) vol, " +- ", (double) (2 * tol)); });
                c.label("tracer-balance");
            }
        }
        if (below && reached >= 3) { c.nontrivial = true; }
        c.label("several-tracers", ids.size() > 1);
        labelProblem(c, p, ref);
    }
}
