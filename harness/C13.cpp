#include "alloc.hpp"
#include "graph.hpp"
using namespace graph;
const char* const pbt_property_id = "C13";
const char* const pbt_rule = "For a random graph, every allocation of work-space creation, full computation, sparse computation (new and previously used work-space) and reversal (never or already reversed) is made to fail in turn, alone and together with all later ones; return value, live-block balance, inputs and a retried call are checked. Non-trivial: graph with at least two components of which one has two vertices. Calls without failure are also checked for leaks.";

namespace {
// Runs 'call' with every allocation failing once; 'failed' judges the outcome, 'retry' re-runs normally.
template <class Call, class Undo, class Check>
void enumerate(const char* what, long total, Call&& call, Undo&& undo, Check&& check, long& points)
{
    for (long k = 1; k <= total; ++k) {
        for (const bool sticky : {false, true}) {
            const long live = alloc::st().live;
            alloc::arm(k, sticky);
            const auto r = call();
            alloc::disarm();
            if (alloc::st().injected == 0) { undo(r); continue; } // this call needed fewer allocations
            check(r, str(what, ", allocation ", k, " of ", total, sticky ? " and later ones" : "", " failing"), live);
            ++points;
        }
    }
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    GOpt o;
    o.large = s.chance(1, 20);
    o.maxLarge = 2500;
    const Digraph g = genGraph(c, o);
    c.describe([&] { return show(g); });
    const auto ref = referenceScc(g);
    const std::vector<char> all(g.n, 1);
    std::vector<int> start;
    const int m = s.range(1, std::min(g.n, 4));
    for (int i = 0; i < m; ++i) { start.push_back(s.range(0, g.n - 1)); }
    const auto want = reachable(g, start);
    const auto ia = g.ia;
    const auto ja = g.ja;
    const auto st = start;
    long points = 0;
    auto sizeOf = [&](auto&& f) { alloc::arm(-1, false); f(); alloc::disarm(); return alloc::st().count; };
    auto balanced = [&](const std::string& what, long live) {
        c.checkf(alloc::st().live == live, [&] { return str(what, ": ", alloc::st().live - live, " blocks leaked"); });
        c.checkf(g.ia == ia && g.ja == ja && start == st, [&] { return what + ": inputs changed"; });
    };

    // Undisturbed calls leak nothing either.
    {
        const long live = alloc::st().live;
        { Work w(create_tarjan_workspace(g.n)); }
        balanced("work-space created and destroyed", live);
        { Result r(tarjan(g.n, g.ia.data(), g.jaData())); }
        balanced("full computation, result destroyed", live);
        Work w(create_tarjan_workspace(g.n));
        const long used = alloc::st().live;
        for (int i = 0; i < 2; ++i) {
            { Result r(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), w.get())); }
            balanced("sparse computation, result destroyed", used);
        }
        for (const bool sparse : {false, true}) {
            Result r(sparse ? tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), w.get()) : tarjan(g.n, g.ia.data(), g.jaData()));
            for (int i = 0; i < 2; ++i) { c.check(r != nullptr && tarjan_reverse_sccresult(r.get()) != 0, "reversal"); }
            r.reset();
            balanced("result reversed and destroyed", used);
        }
        w.reset();
        balanced("work-space destroyed", live);
    }
    // Work-space.
    {
        Work keep;
        const long k = sizeOf([&] { keep.reset(create_tarjan_workspace(g.n)); });
        c.check(keep != nullptr && k > 0, "work-space creation");
        enumerate("create_tarjan_workspace", k, [&] { return create_tarjan_workspace(g.n); }, destroy_tarjan_workspace,
                  [&](TarjanWorkSpace* w, const std::string& what, long live) {
                      c.checkf(w == nullptr, [&] { return what + ": did not return NULL"; });
                      balanced(what, live);
                      Work again(create_tarjan_workspace(g.n));
                      c.checkf(again != nullptr, [&] { return what + ": retry fails"; });
                      Result r(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), again.get()));
                      checkComponents(c, g, components(r.get()), want, ref, false, what + ", retry");
                  }, points);
    }
    // Full computation.
    {
        Result keep;
        const long k = sizeOf([&] { keep.reset(tarjan(g.n, g.ia.data(), g.jaData())); });
        c.check(keep != nullptr && k > 0, "full computation");
        enumerate("tarjan", k, [&] { return tarjan(g.n, g.ia.data(), g.jaData()); }, destroy_tarjan_sccresult,
                  [&](TarjanSCCResult* r, const std::string& what, long live) {
                      c.checkf(r == nullptr, [&] { return what + ": did not return NULL"; });
                      balanced(what, live);
                      Result again(tarjan(g.n, g.ia.data(), g.jaData()));
                      c.checkf(again != nullptr, [&] { return what + ": retry fails"; });
                      checkComponents(c, g, components(again.get()), all, ref, false, what + ", retry");
                  }, points);
    }
    // Sparse computation.
    {
        Work ws(create_tarjan_workspace(g.n + (s.chance(1, 3) ? 2 : 0)));
        auto run = [&] { return tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), ws.get()); };
        Result keep;
        long k = 0;
        {
            Work probe(create_tarjan_workspace(g.n));
            k = sizeOf([&] { keep.reset(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), probe.get())); });
        }
        c.check(keep != nullptr && k > 0, "sparse computation");
        if (s.chance(1, 2)) { Result used(run()); c.label("used-workspace"); }
        enumerate("tarjan_reachable_sccs", k, run, destroy_tarjan_sccresult,
                  [&](TarjanSCCResult* r, const std::string& what, long live) {
                      c.checkf(r == nullptr, [&] { return what + ": did not return NULL"; });
                      balanced(what, live);
                      Result again(run());
                      c.checkf(again != nullptr, [&] { return what + ": retry fails"; });
                      checkComponents(c, g, components(again.get()), want, ref, false, what + ", retry");
                  }, points);
    }
    // Reversal.
    for (const bool sparse : {false, true}) {
        Work ws(create_tarjan_workspace(g.n));
        auto make = [&] { return sparse ? tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.data(), ws.get()) : tarjan(g.n, g.ia.data(), g.jaData()); };
        Result probe(make()), res(make());
        const long k = sizeOf([&] { tarjan_reverse_sccresult(probe.get()); });
        if (s.chance(1, 3)) { tarjan_reverse_sccresult(res.get()); }
        const auto before = components(res.get());
        auto rev = before;
        std::reverse(rev.begin(), rev.end());
        enumerate("tarjan_reverse_sccresult", k, [&] { return tarjan_reverse_sccresult(res.get()); }, [&](int) { tarjan_reverse_sccresult(res.get()); },
                  [&](int ok, const std::string& what, long live) {
                      c.checkf(ok == 0, [&] { return what + ": did not return zero"; });
                      balanced(what, live);
                      c.checkf(components(res.get()) == before, [&] { return what + ": result changed"; });
                  }, points);
        c.check(tarjan_reverse_sccresult(res.get()) != 0, "reversal after failures reports failure");
        c.check(components(res.get()) == rev, "reversal after failures gives a wrong result");
        c.check(tarjan_reverse_sccresult(res.get()) != 0 && components(res.get()) == before, "second reversal after failures gives a wrong result");
    }
    labelGraph(c, g, ref);
    std::set<int> labs(ref.begin(), ref.end());
    c.nontrivial = labs.size() >= 2 && labs.size() < static_cast<std::size_t>(g.n);
    c.label("failure-points>=20", points >= 20);
}
