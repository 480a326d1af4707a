#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <climits>
using namespace flow;
const char* const pbt_property_id = "C09";
const char* const pbt_rule = "Random inputs placed on, just inside and just outside the documented limits (table parity, index bounds, sizes, ids, start cells, curve sizes; rarely hundreds to 70000 wells, start cells or inflow entries with one wrong), each built from an otherwise valid input; the model decides whether std::logic_error, std::runtime_error or acceptance is due. Non-trivial: every case (each contains at least one limit-violating and one conforming call).";

namespace {
int offIndex(Src& s, int n)
{
    // Also indices that would be in range after truncation.
    const int t = n <= 65536 ? s.range(0, n - 1) + (1 << s.pick(std::vector<int>{16, 17, 24, 30})) : INT_MAX;
    switch (s.draw(8)) {
    case 5: return t;
    case 6: return -1 - (t - 1) / 2;
    case 0: return n;
    case 1: return -1;
    case 2: return n + s.range(0, 5);
    case 3: return -1 - s.range(0, 5);
    case 4: return INT_MAX;
    default: return INT_MIN;
    }
}

void graphTable(Case& c)
{
    Src& s = c.s;
    const int n = s.chance(1, 20) ? s.range(1000, 1000000000) : s.weighted({1, 5, 1}) == 2 ? s.range(1, 400) : s.range(1, 9);
    std::vector<int> t;
    const bool long_ = s.chance(1, 20000);
    const int m = long_ ? s.range(33000, 80000) : s.range(0, 8);
    if (long_) { Src b = s.bulk(); for (int i = 0; i < 2 * m; ++i) { t.push_back(b.range(0, n - 1)); } }
    else for (int i = 0; i < 2 * m; ++i) { t.push_back(s.chance(1, 3) ? (s.chance(1, 2) ? 0 : n - 1) : s.range(0, n - 1)); }
    c.describe([&] { std::string d = str("graph n=", n, " table:"); for (std::size_t i = 0; i < t.size() && i < 40; ++i) { d += str(t[i], " "); } return d; });
    {
        const FD::ConnectivityGraph g(n, t);
        c.check(g.numCells() == static_cast<std::size_t>(n) && g.numConnections() == static_cast<std::size_t>(m), "graph sizes");
    }
    auto odd = t;
    odd.insert(odd.begin() + s.draw(odd.size() + 1), s.range(0, n - 1));
    c.check(throwsA<std::logic_error>([&] { FD::ConnectivityGraph g(n, odd); }), "odd neighbourship table accepted");
    if (m > 0) {
        auto bad = t;
        const auto pos = s.draw(bad.size());
        bad[pos] = offIndex(s, n);
        c.checkf(throwsA<std::logic_error>([&] { FD::ConnectivityGraph g(n, bad); }), [&] { return str("cell index ", bad[pos], " at position ", pos, " accepted for ", n, " cells"); });
    }
    c.label("graph-table");
}

void sizes(Case& c)
{
    Src& s = c.s;
    GenOpt o; o.allowLarge = false; o.maxSmall = 12;
    const Problem p = genProblem(c, o);
    wellConditioned(c, p);
    c.describe([&] { return show(p); });
    FD::Toolbox t(graphOf(p));
    const bool fwd = !s.chance(1, 2);
    const auto empty = std::vector<FD::CellSet>{};
    auto pvBad = [&] {
        int k = p.n;
        switch (s.draw(4)) { case 0: k = p.n - 1; break; case 1: k = p.n + 1; break; case 2: k = 0; break; default: k = 2 * p.n; }
        c.check(throwsA<std::logic_error>([&] { t.assignPoreVolume(std::vector<double>(k, 1.0)); }), "pore volumes of wrong size accepted");
    };
    auto fluxBad = [&] {
        std::size_t k = p.nconn();
        std::size_t np = s.range(0, 3);
        switch (s.draw(4)) { case 0: k -= 1; break; case 1: k += 1; break; case 2: k *= 2; break; default: k = 0; }
        if (p.nconn() == 0) { k = s.range(1, 3); }
        c.check(throwsA<std::logic_error>([&] { t.assignConnectionFlux(FD::ConnectionValues(FD::ConnectionValues::NumConnections{k}, FD::ConnectionValues::NumPhases{np})); }), "fluxes of wrong size accepted");
    };
    auto early = [&] { c.check(throwsA<std::logic_error>([&] { compute(t, fwd, empty); }), "computation before assignment of pore volumes and fluxes accepted"); };
    early();
    if (s.chance(1, 2)) { pvBad(); fluxBad(); early(); }
    if (s.chance(1, 2)) { t.assignInflowFlux(inflowOf(p)); early(); }
    const bool pvFirst = s.chance(1, 2);
    if (pvFirst) { t.assignPoreVolume(p.pv); } else { t.assignConnectionFlux(fluxOf(p)); }
    early();
    if (s.chance(1, 2)) { if (pvFirst) { fluxBad(); } else { pvBad(); } early(); }
    if (!pvFirst) { t.assignPoreVolume(p.pv); } else { t.assignConnectionFlux(fluxOf(p)); }
    // All data there: computing must work, with or without inflow.
    compute(t, fwd, empty);
    if (s.chance(1, 2)) { pvBad(); fluxBad(); compute(t, !fwd, empty); }
    // Inflow outside the graph.
    auto bad = p.inflow;
    if (bad.empty() || s.chance(1, 2)) { bad[freshId(s, bad)]; }
    auto it = bad.begin();
    std::advance(it, s.draw(bad.size()));
    const int cell = offIndex(s, p.n);
    it->second[cell] = s.range(-2, 2);
    Problem q = p;
    q.inflow = bad;
    c.checkf(throwsA<std::logic_error>([&] { t.assignInflowFlux(inflowOf(q)); }), [&] { return str("inflow in cell ", cell, " accepted for ", p.n, " cells"); });
    t.assignInflowFlux(inflowOf(p));
    const auto src = sources(p, fwd);
    compute(t, fwd, startSets(src, idsOf(src)));
    c.label("sizes");
}

void startCells(Case& c)
{
    Src& s = c.s;
    GenOpt o; o.allowLarge = false; o.maxSmall = 12;
    Problem p = genProblem(c, o);
    std::vector<std::string> stale;
    // Wells of which one direction or all rates are missing.
    if (s.chance(1, 2)) { p.inflow[freshId(s, p.inflow)]; }
    if (s.chance(1, 2)) { p.inflow[freshId(s, p.inflow)][s.range(0, p.n - 1)] = 0.0; }
    wellConditioned(c, p);
    c.describe([&] { return show(p); });
    FD::Toolbox t(graphOf(p));
    t.assignPoreVolume(p.pv);
    t.assignConnectionFlux(fluxOf(p));
    if (s.chance(1, 2)) {
        // Earlier data, which must not matter: opposite signs, further wells and cells.
        Problem q = p;
        for (auto& w : q.inflow) { for (auto& x : w.second) { x.second = -x.second; } w.second[s.range(0, p.n - 1)] = s.chance(1, 2) ? 1.0 : -1.0; }
        q.inflow[freshId(s, q.inflow)][s.range(0, p.n - 1)] = s.chance(1, 2) ? 1.0 : -1.0;
        t.assignInflowFlux(inflowOf(q));
        if (s.chance(1, 2)) { compute(t, s.chance(1, 2), {}); }
        for (const auto& w : q.inflow) { if (!p.inflow.count(w.first)) { stale.push_back(w.first); } }
        c.label("reassigned-inflow");
    }
    t.assignInflowFlux(inflowOf(p));
    for (const bool fwd : {true, false}) {
        const auto src = sources(p, fwd);
        std::set<int> has;
        for (const auto& w : src) { for (const auto& q : w.second) { has.insert(q.first); } }
        const auto ids = someIds(s, src, false);
        const auto good = startSets(src, ids);
        compute(t, fwd, good);
        // Also well-formed: any cells with such inflow (also another well's), none, repeated ids.
        if (!has.empty() && s.chance(1, 2)) {
            const std::vector<int> any(has.begin(), has.end());
            auto st = good;
            const int extra = s.range(1, 3);
            for (int k = 0; k < extra; ++k) {
                auto w = src.begin();
                std::advance(w, s.draw(src.size()));
                std::vector<int> cl;
                const int m = s.range(0, 3);
                for (int q = 0; q < m; ++q) { cl.push_back(s.pick(any)); }
                st.insert(st.begin() + s.draw(st.size() + 1), FD::CellSet(FD::CellSetID(w->first), cl));
            }
            compute(t, fwd, st);
            c.label("unusual-start-sets");
        }
        auto with = [&](FD::CellSet x) { auto st = good; st.insert(st.begin() + s.draw(st.size() + 1), x); return st; };
        // Unknown id, or id without flow of the needed sign (even if its cells are fine).
        std::vector<std::string> wrong{freshId(s, p.inflow)};
        for (const auto& x : stale) { wrong.push_back(x); }
        for (const auto& w : p.inflow) { if (!src.count(w.first)) { wrong.push_back(w.first); } }
        const std::string id = s.pick(wrong);
        std::vector<int> cells;
        if (!has.empty() && s.chance(1, 2)) { cells.push_back(*has.begin()); }
        c.checkf(throwsA<std::runtime_error>([&] { compute(t, fwd, with(FD::CellSet(FD::CellSetID(id), cells))); }), [&] { return str("start set ", quote(id), " without ", fwd ? "injection" : "production", " accepted"); });
        // Start cell without flow of the needed sign.
        if (!src.empty()) {
            std::vector<int> off;
            for (int i = 0; i < p.n; ++i) { if (!has.count(i)) { off.push_back(i); } }
            off.push_back(offIndex(s, p.n));
            auto w = src.begin();
            std::advance(w, s.draw(src.size()));
            std::vector<int> cl;
            for (const auto& q : w->second) { cl.push_back(q.first); }
            const int b = s.pick(off);
            cl.insert(cl.begin() + s.draw(cl.size() + 1), b);
            c.checkf(throwsA<std::runtime_error>([&] { compute(t, fwd, with(FD::CellSet(FD::CellSetID(w->first), cl))); }), [&] { return str("start cell ", b, " without ", fwd ? "injection" : "production", " accepted"); });
        }
        compute(t, fwd, good);
    }
    c.label("start-sets");
}

// Very many wells, start sets, start cells or inflow entries, one of them wrong.
void wideSets(Case& c)
{
    Src& s = c.s;
    Src b = s.bulk();
    const int n = s.chance(1, 20) ? b.range(3000, 70000) : b.range(20, 600);
    Problem p;
    p.n = n;
    for (int i = 0; i + 1 < n; ++i) { p.cells.push_back(i); p.cells.push_back(i + 1); p.flux.push_back(1.0); }
    p.nphase = 1;
    p.pv.assign(n, 1.0);
    const bool fwd = !s.chance(1, 2);
    const double sign = fwd ? 1.0 : -1.0;
    const bool oneWell = n > 600 || s.chance(1, 2);
    std::map<int, std::string> owner;
    for (int i = 0; i < n; ++i) {
        if (b.chance(1, 8)) { if (b.chance(1, 2)) { p.inflow["other"][i] = -sign; } continue; }
        const std::string id = oneWell ? "big" : str("w", i);
        p.inflow[id][i] = sign * b.range(1, 4);
        owner[i] = id;
    }
    if (owner.empty()) { c.discard(); }
    c.describe([&] { return str("wide n=", n, oneWell ? " one well" : " many wells", fwd ? " injection" : " production"); });
    FD::Toolbox t(graphOf(p));
    t.assignPoreVolume(p.pv);
    t.assignConnectionFlux(fluxOf(p));
    t.assignInflowFlux(inflowOf(p));
    const auto src = sources(p, fwd);
    auto good = startSets(src, idsOf(src));
    if (oneWell || s.chance(1, 8)) { compute(t, fwd, good); }
    std::vector<int> off{n, -1};
    for (int i = 0; i < n; ++i) { if (!owner.count(i)) { off.push_back(i); } }
    const int bad = s.chance(1, 2) ? off.back() : s.pick(off);
    auto st = good;
    const std::size_t at = s.chance(1, 2) ? st.size() - 1 : s.draw(st.size());
    st[at].insert(bad);
    c.checkf(throwsA<std::runtime_error>([&] { compute(t, fwd, st); }), [&] { return str("start cell ", bad, " without the needed inflow accepted in set ", at, " of ", st.size()); });
    st = good;
    st.insert(st.begin() + (s.chance(1, 2) ? st.size() : s.draw(st.size() + 1)), FD::CellSet(FD::CellSetID(p.inflow.count("other") ? "other" : "none"), std::vector<int>{}));
    c.checkf(throwsA<std::runtime_error>([&] { compute(t, fwd, st); }), [&] { return str("unknown start set among ", st.size(), " accepted"); });
    Problem q = p;
    auto w = q.inflow.begin();
    std::advance(w, s.draw(q.inflow.size()));
    w->second[s.chance(1, 2) ? n : -1 - s.range(0, 2)] = s.range(-1, 1);
    c.check(throwsA<std::logic_error>([&] { t.assignInflowFlux(inflowOf(q)); }), "inflow outside the graph accepted among very many entries");
    // Curves of nearly equal, large sizes.
    const std::vector<double> a(n, 1.0), d(n + (s.chance(1, 2) ? 1 : -1), 1.0);
    c.check(throwsA<std::runtime_error>([&] { FD::flowCapacityStorageCapacityCurve(a, d, a); }) && throwsA<std::runtime_error>([&] { FD::flowCapacityStorageCapacityCurve(d, a, a); }) && throwsA<std::runtime_error>([&] { FD::flowCapacityStorageCapacityCurve(a, a, d); }), "large F-Phi input of different sizes accepted");
    c.check(throwsA<std::runtime_error>([&] { FD::lorenzCoefficient(FD::Graph{a, d}); }) && throwsA<std::runtime_error>([&] { FD::sweepEfficiency(FD::Graph{d, a}); }), "large curve with different coordinate counts accepted");
    c.label("wide");
}

void connValues(Case& c)
{
    Src& s = c.s;
    using CV = FD::ConnectionValues;
    const std::size_t E = s.range(0, 9), P = s.range(0, 4);
    CV v(CV::NumConnections{E}, CV::NumPhases{P});
    const CV& k = v;
    c.describe([&] { return str("connection values ", E, "x", P); });
    for (std::size_t e = 0; e < E; ++e) { for (std::size_t f = 0; f < P; ++f) { v(CV::ConnID{e}, CV::PhaseID{f}) = 1.0; c.check(k(CV::ConnID{e}, CV::PhaseID{f}) == 1.0, "value"); } }
    for (int i = 0; i < 6; ++i) {
        std::size_t e = s.range(0, static_cast<int>(E) + 2), f = s.range(0, static_cast<int>(P) + 2);
        // Also ids that are in range after truncation or overflow.
        if (s.chance(1, 6)) { e = s.chance(1, 2) ? static_cast<std::size_t>(-1) : e + (std::size_t{1} << s.pick(std::vector<int>{8, 16, 31, 32, 61, 62, 63})); }
        if (s.chance(1, 6)) { f = s.chance(1, 2) ? static_cast<std::size_t>(-1) : f + (std::size_t{1} << s.pick(std::vector<int>{8, 16, 31, 32, 61, 62, 63})); }
        const bool in = e < E && f < P;
        c.checkf(throwsA<std::logic_error>([&] { v(CV::ConnID{e}, CV::PhaseID{f}) = 2.0; }) == !in, [&] { return str("write access (", e, ",", f, ") to ", E, "x", P); });
        c.checkf(throwsA<std::logic_error>([&] { (void) k(CV::ConnID{e}, CV::PhaseID{f}); }) == !in, [&] { return str("read access (", e, ",", f, ") to ", E, "x", P); });
    }
    c.label("connection-values");
}

void curves(Case& c)
{
    Src& s = c.s;
    auto vec = [&](int n) { std::vector<double> v(n); for (auto& x : v) { x = s.range(1, 16) * 0.25; } return v; };
    int n = s.range(1, 8), a = n, b = n;
    const int which = s.range(0, 3);
    if (which & 1) { a = std::max(0, n + s.range(1, 2) * (s.chance(1, 2) ? 1 : -1)); }
    if (which & 2) { b = std::max(0, n + s.range(1, 2) * (s.chance(1, 2) ? 1 : -1)); }
    const auto pv = vec(n), ta = vec(a), tb = vec(b);
    c.describe([&] { return str("curve sizes pv=", n, " inj=", a, " prod=", b); });
    const bool bad = a != n || b != n;
    c.checkf(throwsA<std::runtime_error>([&] { FD::flowCapacityStorageCapacityCurve(ta, tb, pv); }) == bad, [&] { return str("F-Phi with sizes ", n, " ", a, " ", b); });
    FD::Solution x, y;
    auto t1 = ta, t2 = tb;
    x.assignGlobalToF(std::move(t1));
    y.assignGlobalToF(std::move(t2));
    c.checkf(throwsA<std::runtime_error>([&] { FD::flowCapacityStorageCapacityCurve(FD::Toolbox::Forward{x}, FD::Toolbox::Reverse{y}, pv); }) == bad, [&] { return str("F-Phi of solutions with sizes ", n, " ", a, " ", b); });
    // Curves.
    auto cv = [&](int k) { std::vector<double> v(k); for (int i = 0; i < k; ++i) { v[i] = i / static_cast<double>(std::max(1, k - 1)); } return v; };
    const int k1 = s.range(1, 8), k2 = s.chance(1, 2) ? k1 : s.range(0, 9);
    const FD::Graph g{cv(k1), cv(k2)};
    c.checkf(throwsA<std::runtime_error>([&] { FD::lorenzCoefficient(g); }) == (k1 != k2), [&] { return str("Lorenz coefficient of curve with ", k1, " and ", k2, " coordinates"); });
    c.checkf(throwsA<std::runtime_error>([&] { FD::sweepEfficiency(g); }) == (k1 != k2), [&] { return str("sweep efficiency of curve with ", k1, " and ", k2, " coordinates"); });
    c.label("curves");
}
}

void pbt_property(Case& c)
{
    c.nontrivial = true;
    if (c.s.chance(1, 300)) { wideSets(c); return; }
    switch (c.s.draw(5)) {
    case 0: graphTable(c); break;
    case 1: sizes(c); break;
    case 2: startCells(c); break;
    case 3: connValues(c); break;
    default: curves(c);
    }
}
