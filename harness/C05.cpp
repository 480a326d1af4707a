#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
using namespace flow;
const char* const pbt_property_id = "C05";
const char* const pbt_rule = "Half of the cases: solutions with random hand-assigned concentration fields, pore volumes and signed inflow maps, pair quantities compared with their defining sums (and std::runtime_error for ids absent from the inflow). Other half: exactly conservative random flow problems, both diagnostics computed, checking reciprocity of pair fluxes, totals per injector/producer and the partition of swept pore volume, with the defining sums checked too. Non-trivial: at least one injector-producer pair sharing a cell.";

namespace {
void definition(Case& c, const FD::Toolbox::Forward& fw, const FD::Toolbox::Reverse& rv, const std::vector<double>& pv,
                const std::map<FD::CellSetID, FD::CellSetValues>& inflow, const std::string& inj, const std::string& prod)
{
    const FD::CellSetID i(inj), q(prod);
    const auto ti = fw.fd.concentration(i), tp = rv.fd.concentration(q);
    LD v = 0, av = 0;
    for (std::size_t k = 0; k < pv.size(); ++k) {
        const auto a = ti.find(static_cast<int>(k)), b = tp.find(static_cast<int>(k));
        if (a != ti.end() && b != tp.end()) { v += static_cast<LD>(pv[k]) * a->second * b->second; av += std::fabs(pv[k] * a->second * b->second); }
    }
    const double got = FD::injectorProducerPairVolume(fw, rv, pv, i, q);
    c.checkf(close(got, v, 1e-11L * av), [&] { return str("pair volume ", quote(inj), quote(prod), " is ", got, ", definition gives ", (double) v); });
    LD f1 = 0, a1 = 0, f2 = 0, a2 = 0;
    for (const auto& x : inflow.at(i)) { if (x.second > 0) { const auto b = tp.find(x.first); if (b != tp.end()) { f1 += static_cast<LD>(x.second) * b->second; a1 += std::fabs(x.second * b->second); } } }
    for (const auto& x : inflow.at(q)) { if (x.second < 0) { const auto b = ti.find(x.first); if (b != ti.end()) { f2 += static_cast<LD>(x.second) * b->second; a2 += std::fabs(x.second * b->second); } } }
    const auto fx = FD::injectorProducerPairFlux(fw, rv, i, q, inflow);
    c.checkf(close(fx.first, f1, 1e-11L * a1), [&] { return str("injection flux of pair ", quote(inj), quote(prod), " is ", fx.first, ", definition gives ", (double) f1); });
    c.checkf(close(fx.second, f2, 1e-11L * a2), [&] { return str("production flux of pair ", quote(inj), quote(prod), " is ", fx.second, ", definition gives ", (double) f2); });
}

void handAssigned(Case& c)
{
    const bool huge = c.s.chance(1, 3000);
    Src bulk = huge ? c.s.bulk() : Src(1);
    Src& s = huge ? bulk : c.s;
    const int n = huge ? s.range(65000, 75000) : s.weighted({1, 3, 1}) == 2 ? s.range(1, 60) : s.range(1, 12);
    const double up = s.chance(1, 6) ? std::ldexp(1.0, s.range(-300, 300)) : 1.0, uq = s.chance(1, 6) ? std::ldexp(1.0, s.range(-300, 300)) : 1.0; // units
    std::vector<double> pv(n);
    for (auto& v : pv) { v = s.range(0, 20) * 0.25 * up; }
    std::map<FD::CellSetID, FD::CellSetValues> inflow;
    std::map<std::string, std::map<int, double>> names;
    const int nw = huge ? 2 : s.range(1, 5);
    for (int w = 0; w < nw; ++w) {
        const auto id = freshId(s, names);
        names[id];
        auto& m = inflow[FD::CellSetID(id)];
        const int k = huge ? s.range(1, n) : s.chance(1, 40) ? s.range(5, 40) : s.range(0, 4);
        for (int j = 0; j < k; ++j) { m[s.range(0, n - 1)] = s.range(-6, 6) * 0.5 * uq; }
    }
    auto field = [&] { FD::CellSetValues v; const int dens = s.range(1, 4); for (int k = 0; k < n; ++k) { if (s.chance(dens, 4)) { v[k] = s.range(0, 64) / 64.0; } } return v; };
    FD::Solution a, b;
    std::string desc;
    for (const auto& w : names) {
        if (!s.chance(1, 5)) { a.assign(FD::CellSetID(w.first), FD::Solution::TracerConcentration{field()}); }
        if (!s.chance(1, 5)) { b.assign(FD::CellSetID(w.first), FD::Solution::TracerConcentration{field()}); }
        // ToF fields with other values: must not influence pair quantities.
        if (s.chance(1, 2)) { a.assign(FD::CellSetID(w.first), FD::Solution::TimeOfFlight{field()}); }
    }
    if (s.chance(1, 3)) { std::vector<double> g(n, 7.0); a.assignGlobalToF(std::move(g)); }
    FD::Toolbox::Forward fw{a};
    FD::Toolbox::Reverse rv{b};
    c.describe([&] {
        std::string d = str("hand-assigned fields, cells=", n, " wells:");
        if (huge) { return d + " (large)"; }
        for (const auto& w : inflow) { d += quote(w.first.to_string()) + "{"; for (const auto& x : w.second) { d += str(x.first, ":", x.second, " "); } d += "} "; }
        return d;
    });
    for (const auto& i : names) {
        for (const auto& q : names) {
            definition(c, fw, rv, pv, inflow, i.first, q.first);
            const auto ti = fw.fd.concentration(FD::CellSetID(i.first)), tp = rv.fd.concentration(FD::CellSetID(q.first));
            for (const auto& x : ti) { if (tp.count(x.first) && i.first != q.first) { c.nontrivial = true; } }
        }
    }
    // Absent ids.
    const std::string miss = freshId(s, names);
    const auto some = inflow.begin()->first;
    c.check(throwsA<std::runtime_error>([&] { FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(miss), some, inflow); }), "no std::runtime_error for absent injector");
    c.check(throwsA<std::runtime_error>([&] { FD::injectorProducerPairFlux(fw, rv, some, FD::CellSetID(miss), inflow); }), "no std::runtime_error for absent producer");
    // Ids with tracers, but without inflow data.
    auto less = inflow;
    const auto gone = s.pick(std::vector<FD::CellSetID>{inflow.begin()->first, inflow.rbegin()->first});
    less.erase(gone);
    for (const auto& w : inflow) {
        c.check(throwsA<std::runtime_error>([&] { FD::injectorProducerPairFlux(fw, rv, gone, w.first, less); }), "no std::runtime_error for injector without inflow data");
        c.check(throwsA<std::runtime_error>([&] { FD::injectorProducerPairFlux(fw, rv, w.first, gone, less); }), "no std::runtime_error for producer without inflow data");
    }
    c.label("hand-assigned");
    c.label("huge-fields", huge);
    c.label("unusual-units", up != 1.0 || uq != 1.0);
}

void conservative(Case& c)
{
    GenOpt o;
    o.needConservative = true;
    o.maxLarge = 600;
    o.manyWells = false;
    const Problem p = genProblem(c, o);
    c.describe([&] { return show(p); });
    Reference rf(p, true), rr(p, false);
    precondition(c, rf);
    precondition(c, rr);
    const auto inj = idsOf(rf.wells()), prod = idsOf(rr.wells());
    std::map<std::string, Field> FI, FP;
    for (const auto& i : inj) { FI[i] = rf.solve(rf.wells().at(i)); }
    for (const auto& q : prod) { FP[q] = rr.solve(rr.wells().at(q)); }
    if (!rf.ok || !rr.ok) { c.discard(); }
    const auto ra = rf.reach(rf.allSources()), rb = rr.reach(rr.allSources());
    FD::Toolbox t = toolboxOf(p);
    const auto fw = t.computeInjectionDiagnostics(startSets(rf.wells(), inj));
    const auto rv = t.computeProductionDiagnostics(startSets(rr.wells(), prod));
    const auto inflow = inflowOf(p);
    std::map<std::string, LD> si, sp, ti, tp;
    LD vol = 0, vtol = 0;
    for (const auto& i : inj) {
        for (const auto& q : prod) {
            definition(c, fw, rv, p.pv, inflow, i, q);
            const auto f = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(i), FD::CellSetID(q), inflow);
            LD e1 = 0, e2 = 0;
            for (const auto& x : rf.wells().at(i)) { e1 += x.second * Reference::tolT(FP[q], x.first); }
            for (const auto& x : rr.wells().at(q)) { e2 += x.second * Reference::tolT(FI[i], x.first); }
            c.checkf(f.first >= 0 && f.second <= 0, [&] { return str("pair flux of wrong sign: ", f.first, " ", f.second); });
            c.checkf(close(f.first, -f.second, e1 + e2 + 1e-11L * f.first), [&] { return str("conservative flow: pair ", quote(i), quote(q), " has injection flux ", f.first, " but production flux ", f.second); });
            si[i] += f.first; ti[i] += e1;
            sp[q] += -f.second; tp[q] += e2;
            const double v = FD::injectorProducerPairVolume(fw, rv, p.pv, FD::CellSetID(i), FD::CellSetID(q));
            vol += v;
            for (int k = 0; k < p.n; ++k) { vtol += p.pv[k] * (Reference::tolT(FI[i], k) * FP[q].T[k] + Reference::tolT(FP[q], k) * (FI[i].T[k] + Reference::tolT(FI[i], k))); }
            if (f.first > 0) { c.nontrivial = true; }
        }
    }
    for (const auto& i : inj) {
        LD tot = 0;
        for (const auto& x : rf.wells().at(i)) { tot += x.second; }
        c.checkf(close(si[i], tot, ti[i] + 1e-11L * tot), [&] { return str("injection fluxes of ", quote(i), " sum to ", (double) si[i], ", total injection is ", (double) tot); });
    }
    for (const auto& q : prod) {
        LD tot = 0;
        for (const auto& x : rr.wells().at(q)) { tot += x.second; }
        c.checkf(close(sp[q], tot, tp[q] + 1e-11L * tot), [&] { return str("production fluxes of ", quote(q), " sum to ", (double) sp[q], ", total production is ", (double) tot); });
    }
    LD both = 0;
    for (int k = 0; k < p.n; ++k) { if (ra[k] && rb[k]) { both += p.pv[k]; } }
    c.checkf(close(vol, both, vtol + 1e-11L * both), [&] { return str("pair volumes sum to ", (double) vol, ", swept pore volume is ", (double) both); });
    c.label("conservative-case");
    c.label("several-pairs", inj.size() * prod.size() > 1);
    labelProblem(c, p, rf);
}
}

void pbt_property(Case& c)
{
    if (c.s.chance(1, 2)) { conservative(c); } else { handAssigned(c); }
}
