#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C04";
const char* const pbt_rule = "Random flow problem (half of them exactly conservative) with one start set per well of the wanted sign, plus a variant in which one well is divided among 2-4 wells; both directions. Checks: sum of concentrations <= 1 (== 1 in reached cells of conservative flow), global ToF == concentration-weighted mean of tracer ToFs below the cap, other wells unchanged and parts summing to the whole after division. Non-trivial: at least two wells, some cell containing two tracers.";

void pbt_property(Case& c)
{
    GenOpt o;
    o.needConservative = c.s.chance(1, 3);
    const Problem p = genProblem(c, o);
    const bool fwd = !c.s.chance(1, 2);
    c.describe([&] { return str(fwd ? "forward " : "reverse ", show(p)); });
    Reference ref(p, fwd);
    precondition(c, ref);
    FD::Toolbox t = toolboxOf(p);
    const auto ids = someIds(c.s, ref.wells(), true);
    if (p.n > 300 && ids.size() > 4) { c.discard(); }
    std::map<std::string, Field> F;
    for (const auto& id : ids) { F[id] = ref.solve(ref.wells().at(id)); }
    const Field g = ref.solve(ref.allSources());
    if (!ref.ok) { c.discard(); }
    const FD::Solution sol = compute(t, fwd, startSets(ref.wells(), ids));

    std::vector<LD> sum(p.n, 0), tol(p.n, 0), ws(p.n, 0), wt(p.n, 0);
    std::vector<int> count(p.n, 0);
    std::vector<char> capped(p.n, 0);
    for (const auto& id : ids) {
        const auto conc = sol.concentration(FD::CellSetID(id)), tof = sol.timeOfFlight(FD::CellSetID(id));
        for (const auto& x : conc) {
            c.check(x.first >= 0 && x.first < p.n && tof.count(x.first) == 1, "tracer fields do not cover the same cells");
            const int i = x.first;
            sum[i] += x.second;
            tol[i] += Reference::tolT(F[id], i);
            ++count[i];
            const double tf = tof.at(i);
            capped[i] = capped[i] || tf >= maxTof;
            ws[i] += static_cast<LD>(x.second) * tf;
            wt[i] += x.second * Reference::tolTof(F[id], i) + tf * Reference::tolT(F[id], i);
        }
    }
    bool two = false;
    for (int i = 0; i < p.n; ++i) {
        two = two || count[i] > 1;
        c.checkf(sum[i] <= 1 + tol[i] + 1e-12L, [&] { return str("concentrations in cell ", i, " sum to ", (double) sum[i]); });
        if (p.conservative) {
            c.checkf((count[i] > 0) == bool(g.reached[i]), [&] { return str("cell ", i, g.reached[i] ? " is reached but has no tracer" : " has tracer but is not reached"); });
            if (count[i] > 0) {
                c.checkf(close(sum[i], 1, tol[i] + 1e-12L), [&] { return str("conservative flow: concentrations in cell ", i, " sum to ", (double) sum[i], " +- ", (double) tol[i]); });
            }
        }
        const double gt = sol.timeOfFlight().at(i);
        if (count[i] > 0 && !capped[i] && gt < maxTof && sum[i] > 0) {
            const LD mean = ws[i] / sum[i];
            const LD tm = (wt[i] + mean * tol[i]) / sum[i] + Reference::tolTof(g, i);
            c.checkf(close(gt, mean, 2 * tm), [&] { return str("cell ", i, ": global ToF ", gt, " but concentration-weighted mean of tracer ToFs is ", (double) mean, " +- ", (double) (2 * tm)); });
            if (count[i] > 1) { c.label("weighted-mean-of-several"); }
        }
    }
    // Divide one well.
    if (!ids.empty()) {
        const std::string w = ids[c.s.draw(ids.size())];
        Problem q = p;
        const int k = c.s.range(2, 4);
        std::vector<std::string> parts{w};
        for (int i = 1; i < k; ++i) { parts.push_back("part" + std::to_string(i) + (c.s.chance(1, 2) ? "" : " of a divided well with a long name")); while (q.inflow.count(parts.back())) { parts.back() += "'"; } q.inflow[parts.back()]; }
        auto& orig = q.inflow[w];
        for (const auto& pf : ref.wells().at(w)) {
            // Whole perforations move or are halved.
            const double full = p.inflow.at(w).at(pf.first);
            if (c.s.chance(1, 2)) {
                const double h = full / 2;
                orig[pf.first] = h;
                q.inflow[parts[c.s.range(1, k - 1)]][pf.first] = h;
            } else {
                const std::string& to = parts[c.s.range(0, k - 1)];
                if (to != w) { orig.erase(pf.first); q.inflow[to][pf.first] = full; }
            }
        }
        FD::Toolbox tq = toolboxOf(q);
        const auto srcq = sources(q, fwd);
        std::vector<std::string> idq;
        for (const auto& x : srcq) { idq.push_back(x.first); }
        const FD::Solution sq = compute(tq, fwd, startSets(srcq, idq));
        for (int i = 0; i < p.n; ++i) {
            c.checkf(close(sq.timeOfFlight().at(i), sol.timeOfFlight().at(i), 2 * Reference::tolTof(g, i)), [&] { return str("dividing a well changes global ToF of cell ", i, ": ", sol.timeOfFlight()[i], " to ", sq.timeOfFlight()[i]); });
        }
        for (const auto& id : ids) {
            if (id == w) { continue; }
            const FD::CellSetID cid(id);
            const auto a = sol.concentration(cid), b = sq.concentration(cid), ta = sol.timeOfFlight(cid), tb = sq.timeOfFlight(cid);
            c.check(a.size() == b.size() && ta.size() == tb.size(), "dividing a well changes the support of another tracer");
            for (const auto& x : a) {
                c.check(b.count(x.first) == 1 && tb.count(x.first) == 1, "dividing a well changes the support of another tracer");
                c.checkf(close(b.at(x.first), x.second, 2 * Reference::tolT(F[id], x.first)), [&] { return str("dividing well ", quote(w), " changes concentration of ", quote(id), " in cell ", x.first); });
                c.checkf(close(tb.at(x.first), ta.at(x.first), 2 * Reference::tolTof(F[id], x.first)), [&] { return str("dividing well ", quote(w), " changes ToF of ", quote(id), " in cell ", x.first); });
            }
        }
        std::map<int, LD> ps;
        for (const auto& part : parts) { if (srcq.count(part)) { for (const auto& x : sq.concentration(FD::CellSetID(part))) { ps[x.first] += x.second; } } }
        const auto whole = sol.concentration(FD::CellSetID(w));
        c.check(ps.size() == whole.size(), "parts of a divided well cover other cells than the whole");
        for (const auto& x : whole) {
            c.checkf(ps.count(x.first) == 1 && close(ps[x.first], x.second, (k + 1) * Reference::tolT(F[w], x.first)), [&] { return str("parts of divided well sum to ", (double) ps[x.first], " in cell ", x.first, ", whole well gave ", x.second); });
        }
    }
    labelProblem(c, p, ref);
    c.nontrivial = ids.size() >= 2 && two;
}
