#include "graph.hpp"
#include "csr.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <time.h>
namespace FD = Opm::FlowDiagnostics;
using pbt::Case;
using pbt::Src;
using pbt::str;
const char* const pbt_property_id = "C30";
const char* const pbt_rule = "Large structured inputs (10^5 to 10^6 items: chains, stars, isolated vertices, rings, many small loops, parallel edges, grids, ordered/reversed/shuffled numbering; hub rows and columns, repeated pairs; many or repeated start vertices; wells of very many cells; sorted, reversed or tied travel times; stores of very many ids). CPU time of each library call is compared with a bound proportional to the input size that is more than ten times what the linear (or n log n) algorithms need and several times less than a quadratic one needs. A call over its bound is measured again. Non-trivial: every case (at least 10^5 items).";

namespace {
double cpu()
{
    timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
volatile std::size_t sink;

// Runs f (repeatable); fails if it takes more CPU time than 0.25 s plus "us" microseconds per item.
template <class F>
void timed(Case& c, const char* what, double items, double us, F&& f)
{
    const double limit = 0.25 + 1e-6 * us * items;
    double best = 1e300;
    for (int k = 0; k < 2; ++k) {
        const double t0 = cpu();
        f();
        best = std::min(best, cpu() - t0);
        if (best <= limit) { break; }
    }
    if (std::getenv("C30_TIMES")) { std::fprintf(stderr, "%s items=%.0f %.3f s of %.3f\n", what, items, best, limit); }
    c.checkf(best <= limit, [&] { return str(what, ": more than ", limit, " s of CPU time for ", items, " items (linear effort expected)"); });
}

int size(Src& s) { return s.chance(1, 6) ? s.range(400000, 1000000) : s.range(150000, 300000); }

graph::Digraph structured(Case& c, bool acyclic)
{
    Src& s0 = c.s;
    graph::Digraph g;
    g.n = acyclic ? (s0.chance(1, 2) ? s0.range(400000, 700000) : s0.range(150000, 300000)) : size(s0);
    const int n = g.n;
    const int kind = static_cast<int>(s0.draw(acyclic ? 7 : 10));
    Src s(s0.draw(1ULL << 32));
    auto add = [&](int a, int b) { g.edges.push_back({a, b}); };
    switch (kind) {
    case 0: g.kind = "isolated"; for (int i = 0; i < 10; ++i) { const int a = s.range(0, n - 2); add(a, a + 1); } break;
    case 1: g.kind = "chain"; for (int i = 0; i + 1 < n; ++i) { add(i, i + 1); } break;
    case 2: g.kind = "star-out"; for (int i = 1; i < n; ++i) { add(0, i); } break;
    case 3: g.kind = "star-in"; for (int i = 0; i + 1 < n; ++i) { add(i, n - 1); } break;
    case 4: g.kind = "grid"; { const int nx = s.range(2, 800); for (int i = 0; i < n; ++i) { if ((i + 1) % nx != 0 && i + 1 < n) { add(i, i + 1); } if (i + nx < n) { add(i, i + nx); } } } break;
    case 5: g.kind = "dag"; for (int i = 0; i < 2 * n; ++i) { const int a = s.range(0, n - 1), b = s.range(0, n - 1); if (a != b) { add(std::min(a, b), std::max(a, b)); } } break;
    case 6: g.kind = "parallel"; { const int k = s.range(2, 1000); for (int i = 0; i < n; ++i) { const int a = s.range(0, k - 1); add(a, a + 1 + s.range(0, k - 1)); } } break;
    case 7: g.kind = "ring"; for (int i = 0; i < n; ++i) { add(i, (i + 1) % n); } break;
    case 8: g.kind = "small-loops"; { const int k = s.range(2, 9); for (int i = 0; i + 1 < n; ++i) { add(i, i + 1); if ((i + 1) % k == 0) { add(i, i + 1 - k); } } } break;
    default: g.kind = "nested"; for (int i = 0; i + 1 < n; ++i) { add(i, i + 1); if (i % 2) { add(n - 1 - i, i / 2 < n - 1 - i ? i / 2 : 0); } }
    }
    switch (s0.draw(3)) {
    case 0: break;
    case 1: g.kind += "/reversed"; for (auto& e : g.edges) { e = {n - 1 - e.first, n - 1 - e.second}; } std::reverse(g.edges.begin(), g.edges.end()); break;
    default: {
        g.kind += "/shuffled";
        std::vector<int> pi(n);
        for (int i = 0; i < n; ++i) { pi[i] = i; }
        s.shuffle(pi);
        for (auto& e : g.edges) { e = {pi[e.first], pi[e.second]}; }
        s.shuffle(g.edges);
    }
    }
    return g;
}

void components(Case& c)
{
    graph::Digraph g = structured(c, false);
    g.build();
    c.describe([&] { return graph::show(g); });
    c.label(g.kind);
    const double items = g.n + static_cast<double>(g.ja.size());
    graph::Result r;
    timed(c, "tarjan", items, 0.8, [&] { r.reset(tarjan(g.n, g.ia.data(), g.jaData())); });
    c.check(r != nullptr, "tarjan() returned NULL");
    timed(c, "tarjan_reverse_sccresult", g.n, 0.8, [&] { c.check(tarjan_reverse_sccresult(r.get()) != 0, "reversal failed"); });
    timed(c, "component access", g.n, 0.8, [&] { std::size_t k = 0; for (std::size_t i = 0; i < tarjan_get_numcomponents(r.get()); ++i) { k += tarjan_get_strongcomponent(r.get(), i).size; } sink = k; });
    std::vector<int> st;
    Src s(c.s.draw(1ULL << 32));
    switch (c.s.draw(4)) {
    case 0: for (int i = 0; i < g.n; ++i) { st.push_back(i); } break;
    case 1: for (int i = g.n - 1; i >= 0; --i) { st.push_back(i); } break;
    case 2: for (int i = 0; i < g.n; ++i) { st.push_back(s.range(0, g.n - 1)); } break;
    default: { const int a = s.range(0, g.n - 1); st.assign(g.n, a); }
    }
    graph::Work w(create_tarjan_workspace(g.n));
    c.check(w != nullptr, "no work-space");
    timed(c, "tarjan_reachable_sccs", items + st.size(), 0.8, [&] { r.reset(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), st.size(), st.data(), w.get())); });
    c.check(r != nullptr, "tarjan_reachable_sccs() returned NULL");
    timed(c, "reversal of the sparse result", g.n, 0.8, [&] { c.check(tarjan_reverse_sccresult(r.get()) != 0, "reversal failed"); });
}

void assembly(Case& c)
{
    Src& s0 = c.s;
    const int builds = s0.range(1, 2);
    Opm::AssembledConnections a;
    for (int b = 0; b < builds; ++b) {
        std::vector<std::pair<int, int>> e;
        int n = size(s0);
        const bool weighted = b + 1 == builds || s0.chance(1, 2);
        const int kind = static_cast<int>(s0.draw(5));
        Src s(s0.draw(1ULL << 32));
        std::string name;
        switch (kind) {
        case 0: name = "hub row"; for (int i = 0; i < n; ++i) { e.push_back({7, i}); } break;
        case 1: name = "hub column"; for (int i = 0; i < n; ++i) { e.push_back({i, 3}); } break;
        case 2: name = "same pair"; e.assign(n, {s.range(0, n - 1), s.range(0, n - 1)}); break;
        case 3: name = "few pairs"; for (int i = 0; i < n; ++i) { e.push_back({s.range(0, 50), s.range(0, 50)}); } break;
        default: { graph::Digraph g = structured(c, false); n = g.n; e = g.edges; name = g.kind; }
        }
        switch (s0.draw(3)) {
        case 0: break;
        case 1: std::reverse(e.begin(), e.end()); break;
        default: s.shuffle(e);
        }
        c.describe([&] { return str("build ", name, " rows=", n, " connections=", e.size(), weighted ? " weighted; " : "; "); });
        c.label(name);
        const double items = n + static_cast<double>(e.size());
        const Opm::AssembledConnections before = a;
        timed(c, "adding and compressing connections", items, 1.6, [&] {
            a = before;
            for (const auto& x : e) { if (weighted) { a.addConnection(x.first, x.second, 1.0); } else { a.addConnection(x.first, x.second); } }
            a.compress(n);
        });
        if (!weighted) { continue; }
        timed(c, "neighbourhood iteration", items, 0.8, [&] {
            double t = 0;
            for (std::size_t i = 0; i < a.numRows(); ++i) { for (const auto& x : a.cellNeighbourhood(static_cast<int>(i))) { t += x.weight; } }
            sink = static_cast<std::size_t>(t);
        });
        if (s0.chance(1, 3)) { timed(c, "text output", items, 8.0, [&] { std::ostringstream os; os << a; sink = os.str().size(); }); }
    }
}

void flow(Case& c)
{
    Src& s0 = c.s;
    graph::Digraph g = structured(c, true);
    const bool loops = s0.chance(1, 2) && g.kind.compare(0, 5, "chain") == 0;
    const int n = g.n, m0 = static_cast<int>(g.edges.size());
    Src s(s0.draw(1ULL << 32));
    std::vector<int> cells;
    std::vector<double> f;
    for (int i = 0; i < m0; ++i) {
        const bool swap = s.chance(1, 2);
        cells.push_back(swap ? g.edges[i].second : g.edges[i].first);
        cells.push_back(swap ? g.edges[i].first : g.edges[i].second);
        const double v = 1.0 + s.range(0, 3);
        f.push_back(swap ? -v : v);
    }
    // Weak recirculation in separate pairs of cells: a matching of the connections gets a small back flow.
    int pairs = 0;
    if (loops) {
        std::vector<char> used(n, 0);
        for (int i = 0; i < m0; ++i) {
            const int a = g.edges[i].first, b = g.edges[i].second;
            if (used[a] || used[b]) { continue; }
            used[a] = used[b] = 1;
            cells.push_back(b);
            cells.push_back(a);
            f.push_back(1.0 / 64);
            ++pairs;
        }
    }
    const int m = static_cast<int>(f.size());
    const int np = s0.range(1, 2);
    FD::ConnectionValues flux(FD::ConnectionValues::NumConnections{static_cast<std::size_t>(m)}, FD::ConnectionValues::NumPhases{static_cast<std::size_t>(np)});
    for (int i = 0; i < m; ++i) { for (int k = 0; k < np; ++k) { flux(FD::ConnectionValues::ConnID{static_cast<std::size_t>(i)}, FD::ConnectionValues::PhaseID{static_cast<std::size_t>(k)}) = f[i] / np; } }
    // Wells: a small or very large injector and producer, sometimes a few more.
    std::map<FD::CellSetID, FD::CellSetValues> q;
    std::map<std::string, std::vector<int>> list;
    const int wells = n > 300000 ? 1 : s0.range(1, 3);
    for (int w = 0; w < wells; ++w) {
        const bool big = s0.chance(1, 2);
        for (const char* sgn : {"I", "P"}) {
            const std::string id = str(sgn, w);
            FD::CellSetValues v;
            const int k = big ? n / s.range(1, 2) : s.range(1, 5);
            const int from = s.range(0, n - 1);
            for (int i = 0; i < k; ++i) { const int cell = big ? (from + i) % n : s.range(0, n - 1); v[cell] = (*sgn == 'I') ? 1.0 : -1.0; }
            q[FD::CellSetID(id)] = v;
            for (const auto& x : v) { list[id].push_back(x.first); }
        }
    }
    c.describe([&] { return str("flow on ", g.kind, " cells=", n, " connections=", m, " phases=", np, " wells=", wells, " recirculating pairs=", pairs); });
    c.label(g.kind);
    c.label("recirculating pairs", pairs > 1000);
    const std::vector<double> pv(n, 1.0);
    std::unique_ptr<FD::Toolbox> t;
    const double items = n + static_cast<double>(m);
    timed(c, "toolbox set-up", items * np + wells * n, 3.0, [&] {
        t.reset(new FD::Toolbox(FD::ConnectivityGraph(n, cells)));
        t->assignPoreVolume(pv);
        t->assignConnectionFlux(flux);
        t->assignInflowFlux(q);
    });
    std::vector<FD::CellSet> si, sp;
    timed(c, "start sets", 2.0 * wells * n, 1.5, [&] {
        si.clear();
        sp.clear();
        for (const auto& w : list) { (w.first[0] == 'I' ? si : sp).emplace_back(FD::CellSetID(w.first), w.second); }
    });
    std::unique_ptr<FD::Toolbox::Forward> fw;
    std::unique_ptr<FD::Toolbox::Reverse> rv;
    timed(c, "injection diagnostics", (1.0 + wells) * items, 4.0, [&] { fw.reset(new FD::Toolbox::Forward(t->computeInjectionDiagnostics(si))); });
    timed(c, "production diagnostics", (1.0 + wells) * items, 4.0, [&] { rv.reset(new FD::Toolbox::Reverse(t->computeProductionDiagnostics(sp))); });
    timed(c, "pair volume", 2.0 * n, 3.0, [&] { sink = static_cast<std::size_t>(FD::injectorProducerPairVolume(*fw, *rv, pv, FD::CellSetID("I0"), FD::CellSetID("P0"))); });
    timed(c, "pair flux", 2.0 * n, 3.0, [&] { sink = static_cast<std::size_t>(FD::injectorProducerPairFlux(*fw, *rv, FD::CellSetID("I0"), FD::CellSetID("P0"), q).first); });
}

void curves(Case& c)
{
    const int n = size(c.s);
    const int kind = static_cast<int>(c.s.draw(6));
    Src s(c.s.draw(1ULL << 32));
    std::vector<double> a(n), b(n), pv(n);
    for (int i = 0; i < n; ++i) {
        switch (kind) {
        case 0: a[i] = 1.0 + i; break;
        case 1: a[i] = 1.0 + (n - i); break;
        case 2: a[i] = 5.0; break;
        case 3: a[i] = 1.0 + s.range(0, 9); break;
        case 4: a[i] = 1.0 + (i < n / 2 ? i : n - i); break;
        default: a[i] = 1.0 + s.range(0, 1000000000);
        }
        b[i] = 1.0;
        pv[i] = (s.chance(1, 3)) ? 0.5 : 1.0;
    }
    c.describe([&] { return str("curve of ", n, " cells, order ", kind); });
    c.label("curve");
    FD::Graph g;
    timed(c, "F-Phi curve", n, 4.0, [&] { g = FD::flowCapacityStorageCapacityCurve(a, b, pv, 0.1); });
    timed(c, "Lorenz coefficient", n, 1.0, [&] { sink = static_cast<std::size_t>(FD::lorenzCoefficient(g) * 1000); });
    timed(c, "sweep efficiency", n, 2.0, [&] { sink = FD::sweepEfficiency(g).first.size(); });
}

void stores(Case& c)
{
    const int n = c.s.range(80000, 150000);
    const bool desc = c.s.chance(1, 2), mixed = c.s.chance(1, 2);
    std::vector<FD::CellSetID> ids;
    for (int i = 0; i < n; ++i) { ids.emplace_back(str(mixed ? "WELL-NUMBER-" : "", desc ? 2 * n - i : n + i)); }
    c.describe([&] { return str("stores of ", n, " entries", desc ? " descending" : ""); });
    c.label("stores");
    std::unique_ptr<FD::Solution> sol;
    timed(c, "assigning fields of many ids", n, 10.0, [&] {
        sol.reset(new FD::Solution);
        for (int i = 0; i < n; ++i) {
            sol->assign(ids[i], FD::Solution::TimeOfFlight{FD::CellSetValues{{i, 1.0}}});
            sol->assign(ids[i], FD::Solution::TracerConcentration{FD::CellSetValues{{i, 1.0}}});
        }
    });
    timed(c, "reading fields of many ids", n, 10.0, [&] { std::size_t k = 0; for (int i = 0; i < n; ++i) { k += sol->concentration(ids[i]).size() + sol->timeOfFlight(ids[i]).size(); } sink = k; });
    timed(c, "start points", n, 3.0, [&] { sink = sol->startPoints().size(); });
    timed(c, "copying a solution", n, 10.0, [&] { FD::Solution k(*sol); sink = k.startPoints().size(); });
    timed(c, "cell set", n, 5.0, [&] {
        FD::CellSet set(ids[0]);
        for (int i = 0; i < n; ++i) { set.insert(desc ? n - i : i); }
        std::size_t k = 0;
        for (const int x : set) { k += x; }
        sink = k;
    });
    // Many wells in one toolbox, few of them requested.
    std::map<FD::CellSetID, FD::CellSetValues> q;
    for (int i = 0; i < n; ++i) { q[ids[i]] = FD::CellSetValues{{i, i % 3 ? 1.0 : -1.0}}; }
    FD::Toolbox t(FD::ConnectivityGraph(n, {0, 1, 1, 2}));
    t.assignPoreVolume(std::vector<double>(n, 1.0));
    FD::ConnectionValues f(FD::ConnectionValues::NumConnections{2}, FD::ConnectionValues::NumPhases{1});
    t.assignConnectionFlux(f);
    timed(c, "inflow of many wells", n, 10.0, [&] { t.assignInflowFlux(q); });
    timed(c, "diagnostics with many wells", 2.0 * n, 4.0, [&] { sink = t.computeInjectionDiagnostics({FD::CellSet(ids[1], {1})}).fd.startPoints().size(); });
}
}

void pbt_property(Case& c)
{
    c.nontrivial = true;
    switch (c.s.weighted({8, 6, 8, 2, 1})) {
    case 0: components(c); break;
    case 1: assembly(c); break;
    case 2: flow(c); break;
    case 3: curves(c); break;
    default: stores(c);
    }
}
