#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
using namespace flow;
const char* const pbt_property_id = "C29";
const char* const pbt_rule = "Random flow problem and 1-6 refinements of its cells: in series (the cell's inflow enters the first part, its outflow leaves the last part, the parts are joined by a connection carrying the whole inflow; the volume is divided anyhow, also into an empty part) or in parallel (volume, connections and wells divided in one proportion); refined cells may be refined again. All results of the original cells are compared with those of the refined problem (last part in flow direction, or every parallel part), in both directions with pair volumes and fluxes if the flow is conservative. Non-trivial: a refined cell is reached and some tracer or time is finite.";

namespace {
struct Refined
{
    Problem q;
    std::vector<std::vector<int>> conc, tof, rtof; // per original cell: cells with equal values
};

double inflowOfCell(const Problem& p, bool fwd, int i)
{
    LD f = 0;
    for (int e = 0; e < p.nconn(); ++e) {
        const LD v = fwd ? p.total(e) : -p.total(e);
        if ((v > 0 && p.cells[2*e + 1] == i) || (v < 0 && p.cells[2*e] == i)) { f += std::fabs(v); }
    }
    for (const auto& w : p.inflow) { const auto x = w.second.find(i); if (x != w.second.end()) { const LD v = fwd ? x->second : -x->second; if (v > 0) { f += v; } } }
    return static_cast<double>(f);
}

void replace(std::vector<std::vector<int>>& m, int a, int b, bool keep)
{
    for (auto& l : m) {
        const auto it = std::find(l.begin(), l.end(), a);
        if (it == l.end()) { continue; }
        if (keep) { l.push_back(b); } else { *it = b; }
    }
}

void series(Src& s, Refined& r, bool fwd, int i, double F)
{
    Problem& q = r.q;
    const int b = q.n++;
    const double part = s.pick(std::vector<double>{0.5, 0.25, 0.875, 0.0, 1.0});
    const double v = q.pv[i];
    q.pv.push_back(part * v);
    q.pv[i] = (1 - part) * v;
    for (int e = 0; e < q.nconn(); ++e) {
        const LD f = fwd ? q.total(e) : -q.total(e);
        const int tail = f > 0 ? 0 : f < 0 ? 1 : -1;
        if (tail >= 0 && q.cells[2*e + tail] == i) { q.cells[2*e + tail] = b; }
    }
    const bool flip = s.chance(1, 2);
    q.cells.push_back(flip ? b : i);
    q.cells.push_back(flip ? i : b);
    const int ph = s.range(0, q.nphase - 1);
    for (int k = 0; k < q.nphase; ++k) { q.flux.push_back(k == ph ? (flip == fwd ? -F : F) : 0.0); }
    // Everything that leaves through wells does so from the last part.
    for (auto& w : q.inflow) {
        const auto x = w.second.find(i);
        if (x == w.second.end()) { continue; }
        const double rate = x->second;
        if ((fwd ? rate : -rate) < 0) { w.second.erase(x); w.second[b] = rate; }
    }
    replace(r.conc, i, b, true);
    replace(r.tof, i, b, false);
}

void parallel(Src& s, Refined& r, int i)
{
    Problem& q = r.q;
    const int b = q.n++;
    const double part = s.pick(std::vector<double>{0.5, 0.25, 0.75});
    const double v = q.pv[i];
    q.pv.push_back(part * v);
    q.pv[i] = (1 - part) * v;
    const int E = q.nconn();
    for (int e = 0; e < E; ++e) {
        if (q.cells[2*e] != i && q.cells[2*e + 1] != i) { continue; }
        q.cells.push_back(q.cells[2*e] == i ? b : q.cells[2*e]);
        q.cells.push_back(q.cells[2*e + 1] == i ? b : q.cells[2*e + 1]);
        for (int k = 0; k < q.nphase; ++k) {
            const double f = q.flux[static_cast<std::size_t>(e) * q.nphase + k];
            q.flux.push_back(part * f);
            q.flux[static_cast<std::size_t>(e) * q.nphase + k] = (1 - part) * f;
        }
    }
    for (auto& w : q.inflow) {
        const auto x = w.second.find(i);
        if (x == w.second.end()) { continue; }
        const double rate = x->second;
        x->second = (1 - part) * rate;
        w.second[b] = part * rate;
    }
    replace(r.conc, i, b, true);
    replace(r.tof, i, b, true);
    replace(r.rtof, i, b, true);
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    const bool fwd0 = !s.chance(1, 2);
    GenOpt o;
    o.needConservative = s.chance(1, 3);
    o.manyWells = false;
    const Problem p = genProblem(c, o);
    Refined r;
    r.q = p;
    r.q.kind += "-refined";
    for (int i = 0; i < p.n; ++i) { r.conc.push_back({i}); }
    r.tof = r.rtof = r.conc;
    std::set<int> refined;
    std::string what;
    const int k = s.range(1, 6);
    const bool exact = p.kind.find("rough") == std::string::npos; // the joining flux is then exact
    for (int step = 0; step < k; ++step) {
        const int i = s.range(0, r.q.n - 1);
        if (s.chance(1, 2) && r.q.nphase > 0) {
            const double F = inflowOfCell(r.q, fwd0, i);
            if (!(F > 0) || r.q.pv[i] / F > 0.999 * maxTof) { continue; }
            series(s, r, fwd0, i, F);
            what += str("series(", i, ") ");
        } else {
            parallel(s, r, i);
            what += str("parallel(", i, ") ");
        }
        for (int j = 0; j < p.n; ++j) { if (r.conc[j].size() > 1) { refined.insert(j); } }
    }
    const Problem& q = r.q;
    c.describe([&] { return str(fwd0 ? "forward " : "reverse ", show(p), " refinements: ", what); });
    if (what.empty()) { c.discard(); }
    FD::Toolbox t = toolboxOf(p), u = toolboxOf(q);
    std::map<bool, std::vector<std::string>> ids;
    std::map<bool, FD::Solution> A, B;
    std::map<bool, std::map<std::string, Field>> F, G;
    const bool both = p.conservative && exact;
    for (const bool fwd : both ? std::vector<bool>{fwd0, !fwd0} : std::vector<bool>{fwd0}) {
        Reference ra(p, fwd), rb(q, fwd);
        precondition(c, ra);
        precondition(c, rb);
        auto id = someIds(s, ra.wells(), false);
        if (p.n > 300 && id.size() > 2) { id.resize(2); }
        const Field ga = ra.solve(ra.allSources()), gb = rb.solve(rb.allSources());
        for (const auto& w : id) { F[fwd][w] = ra.solve(ra.wells().at(w)); G[fwd][w] = rb.solve(rb.wells().at(w)); }
        if (!ra.ok || !rb.ok) { c.discard(); }
        const FD::Solution a = compute(t, fwd, looseStartSets(s, ra.wells(), id)), b = compute(u, fwd, looseStartSets(s, rb.wells(), id));
        const auto& eq = fwd == fwd0 ? r.tof : r.rtof;
        const char* dir = fwd ? "forward" : "reverse";
        c.check(static_cast<int>(a.timeOfFlight().size()) == p.n && static_cast<int>(b.timeOfFlight().size()) == q.n, "size of global time-of-flight");
        for (int i = 0; i < p.n; ++i) {
            for (const int j : eq[i]) {
                const double x = a.timeOfFlight()[i], y = b.timeOfFlight()[j];
                c.checkf(close(x, y, Reference::tolTof(ga, i) + Reference::tolTof(gb, j)), [&] { return str(dir, ": global time of cell ", i, " is ", x, " but ", y, " in its refinement (cell ", j, ")"); });
            }
            if (refined.count(i) && ga.reached[i]) { c.nontrivial = true; }
        }
        for (const auto& w : id) {
            const Field &f = F[fwd][w], &g = G[fwd][w];
            const auto ca = a.concentration(FD::CellSetID(w)), cb = b.concentration(FD::CellSetID(w)), ta = a.timeOfFlight(FD::CellSetID(w)), tb = b.timeOfFlight(FD::CellSetID(w));
            for (int i = 0; i < p.n; ++i) {
                if (f.faint[i]) { continue; }
                for (const int j : r.conc[i]) {
                    if (g.faint[j]) { continue; }
                    c.checkf(ca.count(i) == cb.count(j), [&] { return str(dir, ": tracer of ", quote(w), ca.count(i) ? " reaches cell " : " does not reach cell ", i, ", unlike its refinement (cell ", j, ")"); });
                    if (!ca.count(i)) { continue; }
                    const double x = ca.at(i), y = cb.at(j);
                    c.checkf(close(x, y, Reference::tolT(f, i) + Reference::tolT(g, j)), [&] { return str(dir, ": concentration of ", quote(w), " in cell ", i, " is ", x, " but ", y, " in its refinement (cell ", j, ")"); });
                }
                for (const int j : eq[i]) {
                    if (g.faint[j]) { continue; }
                    c.check(ta.count(i) == tb.count(j), "tracer times do not cover the cells of the concentration");
                    if (!ta.count(i)) { continue; }
                    const double x = ta.at(i), y = tb.at(j);
                    c.checkf(close(x, y, Reference::tolTof(f, i) + Reference::tolTof(g, j)), [&] { return str(dir, ": time of ", quote(w), " in cell ", i, " is ", x, " but ", y, " in its refinement (cell ", j, ")"); });
                }
            }
        }
        ids[fwd] = id; A.emplace(fwd, a); B.emplace(fwd, b);
        labelProblem(c, p, ra);
    }
    if (both) {
        const FD::Toolbox::Forward fa{A.at(true)}, fb{B.at(true)};
        const FD::Toolbox::Reverse va{A.at(false)}, vb{B.at(false)};
        const auto sp = sources(p, true), sq = sources(q, true), op = sources(p, false), oq = sources(q, false);
        for (const auto& i : ids[true]) {
            for (const auto& w : ids[false]) {
                const FD::CellSetID I(i), W(w);
                const double x = FD::injectorProducerPairVolume(fa, va, p.pv, I, W), y = FD::injectorProducerPairVolume(fb, vb, q.pv, I, W);
                auto tol = [](const Problem& z, const Field& f, const Field& g) {
                    LD e = 0;
                    for (int k2 = 0; k2 < z.n; ++k2) { e += z.pv[k2] * (Reference::tolT(f, k2) * (g.T[k2] + Reference::tolT(g, k2)) + Reference::tolT(g, k2) * f.T[k2] + 1e-13L * f.T[k2] * g.T[k2]); }
                    return e;
                };
                c.checkf(close(x, y, tol(p, F[true][i], F[false][w]) + tol(q, G[true][i], G[false][w])), [&] { return str("pair volume of ", quote(i), quote(w), " is ", x, " but ", y, " in the refined problem"); });
                const auto fx = FD::injectorProducerPairFlux(fa, va, I, W, inflowOf(p)), fy = FD::injectorProducerPairFlux(fb, vb, I, W, inflowOf(q));
                LD e = 0, e2 = 0;
                for (const auto& z : sp.at(i)) { e += z.second * (Reference::tolT(F[false][w], z.first) + 1e-13L); }
                for (const auto& z : sq.at(i)) { e += z.second * Reference::tolT(G[false][w], z.first); }
                for (const auto& z : op.at(w)) { e2 += z.second * (Reference::tolT(F[true][i], z.first) + 1e-13L); }
                for (const auto& z : oq.at(w)) { e2 += z.second * Reference::tolT(G[true][i], z.first); }
                c.checkf(close(fx.first, fy.first, e) && close(fx.second, fy.second, e2), [&] { return str("pair flux of ", quote(i), quote(w), " is (", fx.first, ",", fx.second, ") but (", fy.first, ",", fy.second, ") in the refined problem"); });
                c.label("pair-compared");
            }
        }
        c.label("both-directions");
    }
    c.label("series", what.find("series") != std::string::npos);
    c.label("parallel", what.find("parallel") != std::string::npos);
}
