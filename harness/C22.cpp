#include "flow.hpp"
#include "graph.hpp"
#include "csr.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
#include <atomic>
#include <thread>
using namespace flow;
const char* const pbt_property_id = "C22";
const char* const pbt_rule = "2-6 scripts, each working on its own objects (toolbox life cycles with several assignments and computations, graph component computations with own work-spaces, connection builders, curve and pair functions, containers, random vectors), run alone, then interleaved step by step in one thread, then each in its own thread at the same time (ThreadSanitizer build included); plus threads querying one shared solution, flux table or assembled graph, toolboxes in different threads made from the same constant input, and copies of a solution changed in one thread while the original is read in another. Every step's outcome is compared with the outcome when run alone. Non-trivial: at least two toolbox scripts with different problems.";

namespace {
// A script is a list of steps; each step returns a textual/numeric digest compared later.
struct Outcome
{
    std::vector<double> v;
    std::unique_ptr<FD::Solution> sol;   // compared with tolerance when digests differ
    bool fwd = true;
    std::vector<std::string> ids;
};
struct Script
{
    Problem p;
    int kind = 0;
    std::uint64_t seed = 1;
    graph::Digraph g;
    std::vector<int> plan;
    // objects
    std::unique_ptr<FD::Toolbox> t;
    std::unique_ptr<Opm::AssembledConnections> ac;
    std::unique_ptr<Opm::RandomVector> rv;
    graph::Work ws;

    void reset()
    {
        t.reset(); ac.reset(); rv.reset(); ws.reset();
    }
    std::size_t steps() const { return plan.size(); }

    Outcome step(std::size_t k)
    {
        Outcome o;
        const int op = plan[k];
        if (kind == 0) {
            if (k == 0) { t = std::make_unique<FD::Toolbox>(graphOf(p)); t->assignPoreVolume(p.pv); t->assignConnectionFlux(fluxOf(p)); t->assignInflowFlux(inflowOf(p)); return o; }
            switch (op) {
            case 0: t->assignPoreVolume(p.pv); break;
            case 1: t->assignConnectionFlux(fluxOf(p)); break;
            case 2: t->assignInflowFlux(inflowOf(p)); break;
            default: {
                o.fwd = op % 2 == 0;
                const auto src = sources(p, o.fwd);
                o.ids = idsOf(src);
                o.sol = std::make_unique<FD::Solution>(compute(*t, o.fwd, startSets(src, o.ids)));
            }
            }
        } else if (kind == 1) {
            if (!ws) { ws.reset(create_tarjan_workspace(g.n)); }
            graph::Result r;
            if (op % 2) { r.reset(tarjan(g.n, g.ia.data(), g.jaData())); }
            else { int st[2] = {op % g.n, (op * 7 + 3) % g.n}; r.reset(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), 2, st, ws.get())); }
            if (op % 3 == 0) { tarjan_reverse_sccresult(r.get()); }
            for (const auto& x : graph::components(r.get())) { o.v.push_back(-1); std::vector<int> y = x; std::sort(y.begin(), y.end()); o.v.insert(o.v.end(), y.begin(), y.end()); }
        } else if (kind == 2) {
            if (!ac) { ac = std::make_unique<Opm::AssembledConnections>(); }
            for (const auto& e : g.edges) { ac->addConnection(e.first, e.second, 1.0 + (e.first + op) % 5); }
            ac->compress(g.n);
            o.v.insert(o.v.end(), ac->startPointers().begin(), ac->startPointers().end());
            o.v.insert(o.v.end(), ac->neighbourhood().begin(), ac->neighbourhood().end());
            o.v.insert(o.v.end(), ac->connectionWeight().begin(), ac->connectionWeight().end());
            std::ostringstream os;
            os << *ac;
            for (unsigned char ch : os.str()) { o.v.push_back(ch); }
        } else if (kind == 3) {
            std::vector<double> a, b, pv;
            const int N = op == 9 ? 3000 : 20;
            for (int i = 0; i < N; ++i) { a.push_back(1 + (i * 7 + op) % 11); b.push_back(0.5 + (i * 5 + op) % 13); pv.push_back(1 + (i * 3) % 7); }
            const auto c1 = FD::flowCapacityStorageCapacityCurve(a, b, pv);
            const auto e = FD::sweepEfficiency(c1);
            o.v.push_back(FD::lorenzCoefficient(c1));
            o.v.insert(o.v.end(), e.second.begin(), e.second.end());
            // Injector-producer pairs of hand-assigned solutions.
            FD::Solution fi, fp;
            std::map<FD::CellSetID, FD::CellSetValues> q;
            const FD::CellSetID ids3[3] = {FD::CellSetID("I"), FD::CellSetID("P"), FD::CellSetID("X")};
            for (int w = 0; w < 3; ++w) {
                FD::CellSetValues ci, cp, in;
                for (int i = 0; i < N; ++i) {
                    if ((i + w + op) % 3 != 0) { ci[i] = ((i * 3 + w * 5 + op) % 17) / 16.0; }
                    if ((i + 2 * w) % 4 != 0) { cp[i] = ((i * 7 + w + op) % 9) / 8.0; }
                    if ((i + w) % 5 == 0) { in[i] = (i % 2 ? -1.0 : 1.0) * (1 + (i + op) % 6); }
                }
                fi.assign(ids3[w], FD::Solution::TracerConcentration{ci});
                fp.assign(ids3[w], FD::Solution::TracerConcentration{cp});
                q[ids3[w]] = in;
            }
            const FD::Toolbox::Forward fw{fi};
            const FD::Toolbox::Reverse re{fp};
            for (const auto& i : ids3) {
                for (const auto& j : ids3) {
                    o.v.push_back(FD::injectorProducerPairVolume(fw, re, pv, i, j));
                    const auto fl = FD::injectorProducerPairFlux(fw, re, i, j, q);
                    o.v.push_back(fl.first);
                    o.v.push_back(fl.second);
                }
            }
            for (const auto& i : ids3) { for (const auto& x : fi.concentration(i)) { o.v.push_back(x.first); o.v.push_back(x.second); } }
        } else if (kind == 5) { // containers
            FD::ConnectionValues cv(FD::ConnectionValues::NumConnections{static_cast<std::size_t>(op + 3)}, FD::ConnectionValues::NumPhases{static_cast<std::size_t>(1 + op % 3)});
            std::vector<int> ends;
            for (std::size_t e = 0; e < cv.numConnections(); ++e) {
                ends.push_back(static_cast<int>(e));
                ends.push_back(static_cast<int>((e * 5 + 1) % cv.numConnections()));
                for (std::size_t ph = 0; ph < cv.numPhases(); ++ph) { cv(FD::ConnectionValues::ConnID{e}, FD::ConnectionValues::PhaseID{ph}) = 10.0 * e + ph + op; }
            }
            const FD::ConnectivityGraph cg(static_cast<int>(cv.numConnections()), ends);
            std::vector<int> members;
            for (int i = 0; i < 5 + op; ++i) { members.push_back((i * 7 + op) % 12); }
            const FD::CellSet cs(FD::CellSetID(str("set ", op)), members);
            for (std::size_t e = 0; e < cg.numConnections(); ++e) {
                o.v.push_back(cg.connection(e).first);
                o.v.push_back(cg.connection(e).second);
                for (std::size_t ph = 0; ph < cv.numPhases(); ++ph) { o.v.push_back(cv(FD::ConnectionValues::ConnID{e}, FD::ConnectionValues::PhaseID{ph})); }
            }
            std::vector<double> in(cs.begin(), cs.end());
            std::sort(in.begin(), in.end());
            o.v.insert(o.v.end(), in.begin(), in.end());
            for (unsigned char ch : cs.id().to_string()) { o.v.push_back(ch); }
        } else {
            if (!rv) { rv = std::make_unique<Opm::RandomVector>(); }
            if (op >= 8) { // large requests
                if (op % 2) { o.v = rv->normal(6000 + 61 * op); } else { const auto x = rv->index(6000 + 61 * op, 1000); o.v.assign(x.begin(), x.end()); }
            } else if (op % 2) { o.v = rv->normal(1 + op, 0.5, 2.0); } else { const auto x = rv->index(1 + op, 100 + op); o.v.assign(x.begin(), x.end()); }
        }
        return o;
    }
};

void compareOutcome(Case& c, const Script& s, std::size_t k, const Outcome& alone, const Outcome& now, const std::string& how)
{
    c.checkf(alone.v.size() == now.v.size(), [&] { return str(how, ": step ", k, " of a script of kind ", s.kind, " differs from running alone"); });
    for (std::size_t i = 0; i < alone.v.size(); ++i) { c.checkf(close(alone.v[i], now.v[i], 1e-12L * (1 + std::fabs(alone.v[i]))), [&] { return str(how, ": step ", k, " of a script of kind ", s.kind, " differs from running alone"); }); }
    c.check((alone.sol == nullptr) == (now.sol == nullptr), "outcome kind");
    if (alone.sol) { sameSolution(c, s.p, alone.fwd, alone.ids, *alone.sol, *now.sol, how); }
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    const int n = s.range(2, 6);
    std::vector<Script> sc(n);
    int boxes = 0;
    for (auto& x : sc) {
        x.kind = s.weighted({7, 1, 1, 1, 1, 1});
        if (x.kind == 0) {
            GenOpt o; o.allowLarge = s.chance(1, 12); o.maxSmall = 24; o.maxLarge = 300;
            x.p = genProblem(c, o);
            wellConditioned(c, x.p);
            ++boxes;
            c.describe([&] { return " toolbox " + show(x.p); });
        } else if (x.kind <= 2) { graph::GOpt o; o.large = s.chance(1, 6); o.maxLarge = 4000; x.g = graph::genGraph(c, o); c.describe([&] { return str(" script kind ", x.kind, " ", graph::show(x.g)); }); }
        const int m = s.range(2, 7);
        for (int k = 0; k < m; ++k) { x.plan.push_back(s.range(0, 9)); }
    }
    // Alone.
    std::vector<std::vector<Outcome>> alone(n);
    for (int i = 0; i < n; ++i) { sc[i].reset(); for (std::size_t k = 0; k < sc[i].steps(); ++k) { alone[i].push_back(sc[i].step(k)); } sc[i].reset(); }
    // Interleaved in one thread.
    {
        std::vector<std::vector<Outcome>> got(n);
        std::vector<int> live;
        for (int i = 0; i < n; ++i) { live.push_back(i); }
        while (!live.empty()) {
            const std::size_t q = s.draw(live.size());
            const int i = live[q];
            got[i].push_back(sc[i].step(got[i].size()));
            if (got[i].size() == sc[i].steps()) { live.erase(live.begin() + q); if (s.chance(1, 2)) { sc[i].reset(); } }
        }
        for (int i = 0; i < n; ++i) { for (std::size_t k = 0; k < sc[i].steps(); ++k) { compareOutcome(c, sc[i], k, alone[i][k], got[i][k], "interleaved"); } sc[i].reset(); }
    }
    // Concurrently.
    const int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        std::vector<std::vector<Outcome>> got(n);
        std::vector<std::string> err(n);
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) {
            th.emplace_back([&, i] {
                ++ready;
                while (ready.load() < n) { std::this_thread::yield(); }
                try { for (std::size_t k = 0; k < sc[i].steps(); ++k) { got[i].push_back(sc[i].step(k)); } }
                catch (const std::exception& e) { err[i] = e.what(); }
            });
        }
        for (auto& t : th) { t.join(); }
        for (int i = 0; i < n; ++i) {
            c.checkf(err[i].empty(), [&] { return "exception when run concurrently: " + err[i]; });
            for (std::size_t k = 0; k < sc[i].steps(); ++k) { compareOutcome(c, sc[i], k, alone[i][k], got[i][k], "concurrent"); }
            sc[i].reset();
        }
    }
    // Concurrent queries of one solution.
    for (int i = 0; i < n; ++i) {
        const Outcome* o = nullptr;
        for (const auto& x : alone[i]) { if (x.sol) { o = &x; } }
        if (o == nullptr) { continue; }
        const FD::Solution& sol = *o->sol;
        std::atomic<int> bad{0};
        auto reader = [&] {
            for (int r = 0; r < 3; ++r) {
                const FD::Solution copy(sol);
                const auto pts = sol.startPoints();
                if (pts.size() != copy.startPoints().size() || sol.timeOfFlight() != copy.timeOfFlight()) { ++bad; }
                for (const auto& id : pts) { if (sol.concentration(id) != copy.concentration(id) || sol.timeOfFlight(id) != copy.timeOfFlight(id)) { ++bad; } }
                if (!sol.concentration(FD::CellSetID("no such id at all")).empty()) { ++bad; }
            }
        };
        std::thread a(reader), b(reader);
        a.join();
        b.join();
        c.check(bad.load() == 0, "concurrent queries of one solution disagree");
        c.label("shared-solution");
    }
    // Separate objects that share constant input, or one object that is only read.
    if (s.chance(1, 3)) {
        const Script* box = nullptr;
        const Script* build = nullptr;
        for (const auto& x : sc) { if (x.kind == 0) { box = &x; } if (x.kind == 2) { build = &x; } }
        std::atomic<int> bad{0};
        if (box != nullptr) { // several toolboxes made from the same input objects; copies of one solution changed while the original is read
            const Problem& p = box->p;
            const auto g = graphOf(p);
            const auto f = fluxOf(p);
            const auto q = inflowOf(p);
            const bool fwd = s.chance(1, 2);
            const auto src = sources(p, fwd);
            const auto ids = idsOf(src);
            const auto st = startSets(src, ids);
            auto life = [&] {
                FD::Toolbox t(g);
                t.assignPoreVolume(p.pv);
                t.assignConnectionFlux(f);
                t.assignInflowFlux(q);
                return compute(t, fwd, st);
            };
            const FD::Solution one = life();
            std::unique_ptr<FD::Solution> two, three;
            bool threw = false, threw2 = false;
            std::thread a([&] { try { two = std::make_unique<FD::Solution>(life()); } catch (...) { threw = true; } });
            std::thread b([&] { try { three = std::make_unique<FD::Solution>(life()); } catch (...) { threw2 = true; } });
            a.join();
            b.join();
            c.check(!threw && !threw2, "exception from a toolbox sharing constant input with another thread");
            sameSolution(c, p, fwd, ids, one, *two, "shared input");
            sameSolution(c, p, fwd, ids, one, *three, "shared input");
            const Snapshot before(one);
            std::thread writer([&] {
                for (int r = 0; r < 3; ++r) {
                    FD::Solution mine(one);
                    mine.assign(FD::CellSetID("new one"), FD::Solution::TracerConcentration{FD::CellSetValues{{0, 0.5}}});
                    for (const auto& id : ids) { mine.assign(FD::CellSetID(id), FD::Solution::TimeOfFlight{FD::CellSetValues{{0, 1.5}}}); }
                    mine.assignGlobalToF(std::vector<double>(p.n, 3.0));
                    if (mine.concentration(FD::CellSetID("new one")).size() != 1) { ++bad; }
                }
            });
            std::thread rd([&] { for (int r = 0; r < 3; ++r) { if (!(Snapshot(one) == before)) { ++bad; } } });
            writer.join();
            rd.join();
            c.check(bad.load() == 0 && Snapshot(one) == before, "a solution changed when a copy of it was changed in another thread");
            auto readInput = [&] {
                for (std::size_t e = 0; e < g.numConnections(); ++e) {
                    const auto x = g.connection(e);
                    if (x.first != p.cells[2 * e] || x.second != p.cells[2 * e + 1]) { ++bad; }
                    for (int k = 0; k < p.nphase; ++k) { if (!(f(FD::ConnectionValues::ConnID{e}, FD::ConnectionValues::PhaseID{static_cast<std::size_t>(k)}) == p.flux[e * p.nphase + k])) { ++bad; } }
                }
            };
            std::thread r1(readInput), r2(readInput);
            r1.join();
            r2.join();
            c.check(bad.load() == 0, "concurrent queries of one flux table or connectivity graph are wrong");
            c.label("shared-input");
        }
        if (build != nullptr) { // one assembled graph, many readers
            Opm::AssembledConnections ac;
            for (const auto& e : build->g.edges) { ac.addConnection(e.first, e.second, 1.0 + (e.first + e.second) % 5); }
            ac.compress(build->g.n);
            const Opm::AssembledConnections& cac = ac;
            const auto walk = [&] {
                std::vector<double> v;
                for (std::size_t i = 0; i < cac.numRows(); ++i) { for (const auto& x : cac.cellNeighbourhood(static_cast<int>(i))) { v.push_back(x.neighbour); v.push_back(x.weight); } }
                std::ostringstream os;
                os << cac;
                for (unsigned char ch : os.str()) { v.push_back(ch); }
                v.insert(v.end(), cac.connectionWeight().begin(), cac.connectionWeight().end());
                return v;
            };
            const auto want = walk();
            std::vector<double> g1, g2;
            std::thread a([&] { g1 = walk(); }), b([&] { g2 = walk(); });
            a.join();
            b.join();
            c.check(g1 == want && g2 == want, "concurrent queries of one assembled graph disagree");
            c.label("shared-graph");
        }
    }
    for (int i = 0; i < n; ++i) { c.label(str("kind", sc[i].kind)); }
    c.nontrivial = boxes >= 2;
}
