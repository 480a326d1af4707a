#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
using namespace flow;
const char* const pbt_property_id = "C26";
const char* const pbt_rule = "Extreme but valid problems: acyclic fluxes and volumes over hundreds of binary orders of magnitude, zero volumes, no wells, all-zero fluxes, closed circulations without inflow, hubs, chains and layered graphs up to 10^5 cells, up to 1000 wells, wells covering every cell; all diagnostics and derived quantities computed under sanitizers and range-checked. Non-trivial: at least one extreme feature (label) and at least one reached cell.";

namespace {
Problem extreme(Case& c, std::string& feature)
{
    Src& s0 = c.s;
    Problem p;
    const int kind = s0.weighted({60, 24, 16, 4, 2, 2, 1, 1, 4});
    auto wide = [](Src& s, int e) { return std::ldexp(1.0 + s.range(0, 7) / 8.0, s.range(-e, e)); };
    switch (kind) {
    case 0: { // magnitudes
        feature = "extreme-magnitudes";
        p.n = s0.range(2, s0.chance(1, 4) ? 40 : 14);
        genTopology(s0, p.n, p.cells, false);
        p.nphase = s0.range(1, 3);
        const int e = s0.pick(std::vector<int>{20, 35, 60, 10, 150, 320});
        for (int k = 0; k < p.nconn(); ++k) {
            const bool neg = p.cells[2*k] > p.cells[2*k + 1];
            for (int f = 0; f < p.nphase; ++f) { p.flux.push_back((neg ? -1 : 1) * wide(s0, e)); }
            if (s0.chance(1, 10)) { for (int f = 0; f < p.nphase; ++f) { p.flux[p.flux.size() - 1 - f] = 0.0; } }
        }
        for (int i = 0; i < p.n; ++i) { p.pv.push_back(s0.chance(1, 6) ? 0.0 : wide(s0, e)); }
        const int nw = s0.range(1, 4);
        for (int w = 0; w < nw; ++w) { auto& m = p.inflow[freshId(s0, p.inflow)]; for (int k = 0; k < s0.range(1, 3); ++k) { m[s0.range(0, p.n - 1)] = (s0.chance(1, 3) ? -1 : 1) * wide(s0, e); } }
        break;
    }
    case 1: { // no wells / zero flux / zero volumes
        GenOpt o; o.allowLarge = false;
        p = genProblem(c, o);
        switch (s0.draw(4)) {
        case 0: feature = "no-wells"; p.inflow.clear(); break;
        case 1: feature = "zero-flux"; for (auto& f : p.flux) { f = 0; } break;
        case 2: feature = "zero-volumes"; for (auto& v : p.pv) { v = 0; } break;
        default: feature = "no-phases"; p.nphase = 0; p.flux.clear();
        }
        break;
    }
    case 2: { // closed circulations without inflow, beside ordinary flow
        feature = "closed-circulation";
        const int ring = s0.range(2, 12);
        p.n = ring + s0.range(2, 6);
        const double f = wide(s0, 20);
        for (int i = 0; i < ring; ++i) { p.cells.push_back(i); p.cells.push_back((i + 1) % ring); p.flux.push_back(f); }
        for (int i = ring; i + 1 < p.n; ++i) { p.cells.push_back(i); p.cells.push_back(i + 1); p.flux.push_back(wide(s0, 10)); }
        if (s0.chance(1, 2)) { p.cells.push_back(0); p.cells.push_back(ring); p.flux.push_back(wide(s0, 10) * (s0.chance(1, 2) ? 1 : 0)); } // leaks out, nothing in
        for (int i = 0; i < p.n; ++i) { p.pv.push_back(wide(s0, 10)); }
        p.inflow["I"][ring] = wide(s0, 10);
        p.inflow["P"][p.n - 1] = -wide(s0, 10);
        break;
    }
    case 8: feature = "dilution"; p = genDilution(s0); break;
    default: { // big structures
        Src s = s0.bulk();
        const int top = c.thorough ? 300000 : 120000;
        p.n = s0.chance(1, 4) ? s0.range(5000, top) : s0.range(500, 5000);
        p.nphase = s0.range(1, 2);
        auto conn = [&](int a, int b, double f) { p.cells.push_back(a); p.cells.push_back(b); for (int k = 0; k < p.nphase; ++k) { p.flux.push_back(k == 0 ? f : f / 2); } };
        if (kind == 3) { feature = "long-chain"; const bool up = s0.chance(1, 2); for (int i = 0; i + 1 < p.n; ++i) { if (up) { conn(i, i + 1, 1.0); } else { conn(i, i + 1, -1.0); } } }
        else if (kind == 4) { feature = "hub"; const int h = s.range(0, p.n - 1); for (int i = 0; i < p.n; ++i) { if (i != h) { conn(i, h, s.chance(1, 2) ? 1.0 : -1.0); } } }
        else if (kind == 5) { feature = "layers"; for (int i = 0; i < p.n; ++i) { for (int k = 0; k < 3; ++k) { const int j = i + 1 + s.range(0, 40); if (j < p.n) { conn(i, j, s.range(1, 9)); } } } }
        else if (kind == 6) { feature = "big-ring"; p.n = 200 + p.n % 400; for (int i = 0; i < p.n; ++i) { conn(i, (i + 1) % p.n, 1.0); } }
        else { feature = "many-wells"; for (int i = 0; i + 1 < p.n; ++i) { conn(i, i + 1, s.range(1, 5)); } }
        for (int i = 0; i < p.n; ++i) { p.pv.push_back(s.range(0, 100)); }
        if (kind == 7) { const int nw = s.range(100, 1000); for (int w = 0; w < nw; ++w) { p.inflow["W" + std::to_string(w)][s.range(0, p.n - 1)] = s.chance(1, 2) ? 1.0 : -1.0; } }
        else if (kind == 6) { p.inflow["I"][0] = 0.5; p.inflow["P"][p.n / 2] = -0.5; }
        else {
            const bool everywhere = s0.chance(1, 4);
            if (everywhere) { for (int i = 0; i < p.n; ++i) { p.inflow["all"][i] = s.chance(1, 2) ? 0.25 : -0.25; } }
            p.inflow["I"][s.range(0, p.n - 1)] = 2.0;
            p.inflow["I"][0] = 1.0;
            p.inflow["P"][p.n - 1] = -1.0;
            p.inflow["P2"][s.range(0, p.n - 1)] = -1.0;
        }
    }
    }
    p.kind = feature;
    return p;
}
}

void pbt_property(Case& c)
{
    std::string feature;
    const Problem p = extreme(c, feature);
    c.describe([&] { return show(p); });
    if (p.n < 200) { wellConditioned(c, p); }
    FD::Toolbox t = toolboxOf(p);
    bool any = false;
    const double one = 1 + 1e-9;
    auto someOf = [&](const std::map<std::string, std::map<int, double>>& src) { auto ids = idsOf(src); if (p.n > 4000 && ids.size() > 3) { ids.resize(3); } if (ids.size() > 40) { ids.resize(40); } return ids; };
    const auto si = sources(p, true), sp = sources(p, false);
    const auto ii = someOf(si), pi = someOf(sp);
    const auto fw = t.computeInjectionDiagnostics(startSets(si, ii));
    const auto rv = t.computeProductionDiagnostics(startSets(sp, pi));
    for (const bool fwd : {true, false}) {
        const FD::Solution& sol = fwd ? fw.fd : rv.fd;
        const auto& g = sol.timeOfFlight();
        c.check(static_cast<int>(g.size()) == p.n, "size of global ToF");
        for (int i = 0; i < p.n; ++i) { c.checkf(g[i] >= 0 && g[i] <= maxTof, [&] { return str("global ToF of cell ", i, " is ", g[i]); }); }
        for (const auto& id : fwd ? ii : pi) {
            const auto conc = sol.concentration(FD::CellSetID(id)), tof = sol.timeOfFlight(FD::CellSetID(id));
            c.check(conc.size() == tof.size() && !conc.empty(), "tracer fields");
            for (const auto& x : conc) { c.checkf(x.first >= 0 && x.first < p.n && x.second > 0 && x.second <= one, [&] { return str("concentration of cell ", x.first, " is ", x.second); }); }
            for (const auto& x : tof) { c.checkf(x.second >= 0 && x.second <= maxTof, [&] { return str("tracer ToF of cell ", x.first, " is ", x.second); }); }
            any = true;
        }
    }
    double total = 0;
    for (double v : p.pv) { total += v; }
    const auto inflow = inflowOf(p);
    for (std::size_t a = 0; a < ii.size() && a < 4; ++a) {
        for (std::size_t b = 0; b < pi.size() && b < 4; ++b) {
            const double v = FD::injectorProducerPairVolume(fw, rv, p.pv, FD::CellSetID(ii[a]), FD::CellSetID(pi[b]));
            c.checkf(v >= 0 && v <= total * one, [&] { return str("pair volume ", v, " of total ", total); });
            const auto f = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(ii[a]), FD::CellSetID(pi[b]), inflow);
            c.checkf(f.first >= 0 && f.second <= 0 && std::isfinite(f.first) && std::isfinite(f.second), [&] { return str("pair fluxes ", f.first, " ", f.second); });
        }
    }
    bool positive = total > 0;
    for (int i = 0; i < p.n; ++i) { positive = positive && fw.fd.timeOfFlight()[i] + rv.fd.timeOfFlight()[i] > 0; }
    if (positive) {
        const auto cv = FD::flowCapacityStorageCapacityCurve(fw, rv, p.pv);
        c.check(static_cast<int>(cv.first.size()) == p.n + 1 && static_cast<int>(cv.second.size()) == p.n + 1, "F-Phi size");
        for (int i = 0; i <= p.n; ++i) { c.checkf(cv.first[i] >= 0 && cv.first[i] <= one && cv.second[i] >= 0 && cv.second[i] <= one, [&] { return str("F-Phi point (", cv.first[i], ",", cv.second[i], ")"); }); }
        const double L = FD::lorenzCoefficient(cv);
        c.checkf(L >= -1e-9 && L <= one, [&] { return str("Lorenz coefficient ", L); });
        const auto e = FD::sweepEfficiency(cv);
        c.check(!e.first.empty() && e.first.size() == e.second.size(), "sweep size");
        // Steps lost in rounding carry no information.
        std::size_t out = 0;
        for (int k = 1; k <= p.n; ++k) {
            const double fd = cv.second[k] - cv.second[k - 1];
            if (fd == 0) { continue; }
            ++out;
            if (out >= e.first.size()) { break; }
            const double err = 4e-16 * (p.n + 4) * (1 + e.first[out]) / fd;
            c.checkf(std::isfinite(e.first[out]) && std::isfinite(e.second[out]) && e.first[out] >= 0, [&] { return str("sweep point (", e.first[out], ",", e.second[out], ")"); });
            if (err < 1e-3) { c.checkf(e.second[out] >= -err && e.second[out] <= 1 + err + 1e-9, [&] { return str("sweep efficiency ", e.second[out]); }); }
        }
        c.label("curves");
    }
    c.label(feature);
    c.label("n>=10000", p.n >= 10000);
    c.nontrivial = any || p.inflow.empty();
}
