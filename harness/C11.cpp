#include "graph.hpp"
using namespace graph;
const char* const pbt_property_id = "C11";
const char* const pbt_rule = "History of 1-6 sparse component computations on random graphs of varying size, with random start lists (unordered, repeated, empty, single), sharing one work-space that is large enough (exactly fitting or oversized) or fresh; each result compared with breadth-first reachability and the reference components. Non-trivial: some call with a proper, non-empty reachable subset.";
void pbt_property(Case& c)
{
    Src& s = c.s;
    const int calls = s.range(1, 6);
    std::vector<Digraph> gs;
    int maxn = 1;
    GOpt o;
    o.maxLarge = 6000;
    if (s.chance(1, 15)) { o.huge = c.thorough ? 600000 : 250000; }
    for (int k = 0; k < calls; ++k) {
        if (k > 0 && s.chance(1, 2)) { gs.push_back(gs[s.draw(gs.size())]); }
        else { gs.push_back(genGraph(c, o)); if (gs.back().n > 500) { o.large = false; } }
        maxn = std::max(maxn, gs.back().n);
    }
    const bool oversize = s.chance(1, 2);
    const int cap = maxn + (oversize ? s.range(1, 20) : 0);
    Work shared(create_tarjan_workspace(cap));
    c.check(shared != nullptr, "work-space is NULL");
    bool nontriv = false;
    std::vector<Result> keep;
    std::vector<std::vector<std::vector<int>>> kept;
    for (int k = 0; k < calls; ++k) {
        const Digraph& g = gs[k];
        std::vector<int> start;
        switch (s.weighted({3, 4, 1, 1})) {
        case 0: start.push_back(s.range(0, g.n - 1)); break;
        case 1: { const int m = s.range(1, std::min(g.n, 6)); for (int i = 0; i < m; ++i) { start.push_back(s.range(0, g.n - 1)); } break; }
        case 2: break;
        default: for (int i = 0; i < g.n; ++i) { start.push_back(g.n - 1 - i); }
        }
        if (!start.empty() && s.chance(1, 3)) { start.push_back(start[s.draw(start.size())]); }
        c.describe([&] { std::string d = str(" call ", k, ": ", show(g), " start:"); if (start.size() < 30) { for (int v : start) { d += str(v, " "); } } return d; });
        Work own;
        TarjanWorkSpace* ws = shared.get();
        if (s.chance(1, 3)) { own.reset(create_tarjan_workspace(g.n)); ws = own.get(); c.label("fresh-workspace"); }
        else { c.label("shared-workspace", k > 0); c.label("oversized-workspace", cap > g.n); }
        static const int dummy = 0;
        Result r(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), start.size(), start.empty() ? &dummy : start.data(), ws));
        c.check(r != nullptr, "tarjan_reachable_sccs() returned NULL");
        own.reset();
        const auto want = reachable(g, start);
        const auto ref = referenceScc(g);
        const auto comps = components(r.get());
        checkComponents(c, g, comps, want, ref, false, str("call ", k));
        labelGraph(c, g, ref);
        std::size_t cnt = 0;
        for (char w : want) { cnt += w; }
        nontriv = nontriv || (cnt > 1 && cnt < static_cast<std::size_t>(g.n));
        c.label("repeated-start", std::set<int>(start.begin(), start.end()).size() < start.size());
        c.label("empty-start", start.empty());
        // Full computation in between must not disturb anything.
        if (s.chance(1, 4)) { Result full(tarjan(g.n, g.ia.data(), g.jaData())); checkComponents(c, g, components(full.get()), std::vector<char>(g.n, 1), ref, false, "tarjan in between"); }
        keep.push_back(std::move(r));
        kept.push_back(comps);
    }
    if (s.chance(1, 300)) { // many uses between two visits of the same vertices
        const Digraph& g = gs[s.draw(gs.size())];
        if (g.n <= 60) {
            const int far = s.chance(1, 6) ? 65536 : 256;
            const int K = far + (s.chance(1, 2) ? 0 : s.range(-2, 2));
            const auto ref = referenceScc(g);
            const std::vector<int> a{s.range(0, g.n - 1)}, b{s.range(0, g.n - 1)};
            const auto ra = reachable(g, a), rb = reachable(g, b);
            for (int i = 0; i <= K; ++i) {
                const bool first = i == 0 || i == K;
                const auto& st = first ? a : b;
                Result r(tarjan_reachable_sccs(g.n, g.ia.data(), g.jaData(), st.size(), st.data(), shared.get()));
                c.check(r != nullptr, "tarjan_reachable_sccs() returned NULL");
                if (first || i % 61 == 1 || i + 3 > K) { checkComponents(c, g, components(r.get()), first ? ra : rb, ref, false, str("use ", i, " of the work-space")); }
            }
            c.label("many-uses");
        }
    }
    for (std::size_t k = 0; k < keep.size(); ++k) { c.check(components(keep[k].get()) == kept[k], "an earlier result changed when the work-space was reused"); }
    shared.reset();
    for (std::size_t k = 0; k < keep.size(); ++k) { c.check(components(keep[k].get()) == kept[k], "an earlier result changed when the work-space was destroyed"); }
    c.nontrivial = nontriv;
}
