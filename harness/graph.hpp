// Directed graphs in CSR form: generators and an independent reference (transitive closure for
// small graphs, iterative Kosaraju otherwise).
#ifndef GRAPH_HPP
#define GRAPH_HPP

#include "pbt.hpp"
#include <opm/utility/graph/tarjan.h>
#include <memory>

namespace graph {
using pbt::Case;
using pbt::Src;
using pbt::str;

struct Digraph
{
    int n = 0;
    std::vector<std::pair<int, int>> edges;
    std::vector<std::size_t> ia;
    std::vector<int> ja;
    std::string kind;

    void build()
    {
        ia.assign(n + 1, 0);
        for (const auto& e : edges) { ++ia[e.first + 1]; }
        for (int i = 0; i < n; ++i) { ia[i + 1] += ia[i]; }
        ja.assign(edges.size(), 0);
        auto pos = ia;
        for (const auto& e : edges) { ja[pos[e.first]++] = e.second; }
    }
    const int* jaData() const { static const int none = 0; return ja.empty() ? &none : ja.data(); }
};

inline std::string show(const Digraph& g)
{
    std::string d = str("graph kind=", g.kind, " n=", g.n, " m=", g.edges.size());
    if (g.edges.size() <= 60) { d += " edges:"; for (const auto& e : g.edges) { d += str(e.first, ">", e.second, " "); } }
    return d;
}

struct GOpt { int maxLarge = 20000; bool large = true; int huge = 0; int giant = 0; };

inline Digraph genGraph(Case& c, const GOpt& o = GOpt())
{
    Src& s0 = c.s;
    Digraph g;
    Src* sp = &s0;
    Src bulk(1);
    bool large = false;
    switch (s0.weighted({40, 30, 15, o.large ? 2 : 0})) {
    case 0: g.n = s0.range(1, 7); break;
    case 1: g.n = s0.range(2, 14); break;
    case 2: g.n = s0.range(10, 60); break;
    default:
        large = true;
        g.n = s0.chance(1, 3) ? s0.range(1000, 5000) : s0.range(100, o.maxLarge);
        if (o.huge > 0 && s0.chance(1, 12)) { g.n = s0.range(100000, o.huge); if (o.giant > 0 && s0.chance(1, 20)) { g.n = s0.range(1 << 20, o.giant); } }
        bulk = Src(s0.draw(1ULL << 32));
        sp = &bulk;
    }
    Src& s = *sp;
    const int n = g.n;
    auto add = [&](int a, int b) { g.edges.push_back({a, b}); };
    switch (s0.weighted({6, 3, 3, 3, 2, 2, 3, 1})) {
    case 0: { // random
        g.kind = "random";
        const int m = s.range(0, large ? 2 * n : std::min(4 * n, n * n + 1));
        for (int i = 0; i < m; ++i) { add(s.range(0, n - 1), s.range(0, n - 1)); }
        break;
    }
    case 1: { // chain(s)
        g.kind = "chain";
        const int brk = s0.chance(1, 2) ? 0 : s.range(2, 8);
        for (int i = 0; i + 1 < n; ++i) { if (brk == 0 || i % brk != 0) { add(i, i + 1); } }
        break;
    }
    case 2: { // ring, whole or several
        g.kind = "rings";
        int a = 0;
        const int len = s0.chance(1, 2) ? n : s.range(1, n);
        while (a < n) {
            const int k = std::min(len, n - a);
            for (int i = 0; i < k; ++i) { if (k > 1) { add(a + i, a + (i + 1) % k); } }
            if (a > 0 && s.chance(3, 4)) { if (s.chance(1, 2)) { add(s.range(0, a - 1), a + s.range(0, k - 1)); } else { add(a + s.range(0, k - 1), s.range(0, a - 1)); } }
            a += k;
        }
        break;
    }
    case 3: { // DAG
        g.kind = "dag";
        const int m = s.range(0, large ? 2 * n : 4 * n);
        for (int i = 0; i < m; ++i) { int a = s.range(0, n - 1), b = s.range(0, n - 1); if (a != b) { add(std::min(a, b), std::max(a, b)); } }
        break;
    }
    case 4: { // hub
        g.kind = "hub";
        const int h = s.range(0, n - 1);
        for (int i = 0; i < n; ++i) { switch (s.draw(4)) { case 0: add(h, i); break; case 1: add(i, h); break; case 2: add(h, i); add(i, h); break; default: break; } }
        break;
    }
    case 5: { // grid with random orientation
        g.kind = "grid";
        int nx = 1;
        while ((nx + 1) * (nx + 1) <= n) { ++nx; }
        for (int a = 0; a < n; ++a) {
            if ((a % nx) + 1 < nx && a + 1 < n) { if (s.chance(1, 2)) { add(a, a + 1); } else { add(a + 1, a); } }
            if (a + nx < n) { if (s.chance(1, 2)) { add(a, a + nx); } else { add(a + nx, a); } }
        }
        break;
    }
    case 6: { // nested loops: chain with back edges
        g.kind = "back-edges";
        for (int i = 0; i + 1 < n; ++i) { add(i, i + 1); }
        const int m = s.range(1, std::max(1, large ? n / 4 : std::min(n, 6)));
        for (int i = 0; i < m; ++i) { int a = s.range(0, n - 1), b = s.range(0, n - 1); add(std::max(a, b), std::min(a, b)); }
        break;
    }
    default: // complete
        g.kind = "dense";
        for (int i = 0; i < std::min(n, 40); ++i) { for (int j = 0; j < std::min(n, 40); ++j) { if (s.chance(2, 3)) { add(i, j); } } }
    }
    if (s0.chance(1, 4)) { const int k = s.range(1, 3); for (int i = 0; i < k; ++i) { const int a = s.range(0, n - 1); add(a, a); } }
    if (s0.chance(1, 4) && !g.edges.empty()) { const int k = s.range(1, 4); for (int i = 0; i < k; ++i) { const auto e = g.edges[s.draw(g.edges.size())]; add(e.first, e.second); } }
    if (s0.chance(1, 2)) { // renumber
        std::vector<int> pi(n);
        for (int i = 0; i < n; ++i) { pi[i] = i; }
        s.shuffle(pi);
        for (auto& e : g.edges) { e = {pi[e.first], pi[e.second]}; }
    }
    if (s0.chance(1, 3)) { s.shuffle(g.edges); }
    g.build();
    return g;
}

// Component label per vertex.
inline std::vector<int> referenceScc(const Digraph& g)
{
    const int n = g.n;
    std::vector<int> comp(n, -1);
    if (n <= 16) {
        std::vector<unsigned> r(n);
        for (int i = 0; i < n; ++i) { r[i] = 1u << i; }
        for (const auto& e : g.edges) { r[e.first] |= 1u << e.second; }
        for (int k = 0; k < n; ++k) { for (int i = 0; i < n; ++i) { if (r[i] >> k & 1) { r[i] |= r[k]; } } }
        int id = 0;
        for (int i = 0; i < n; ++i) {
            if (comp[i] >= 0) { continue; }
            for (int j = 0; j < n; ++j) { if ((r[i] >> j & 1) && (r[j] >> i & 1)) { comp[j] = id; } }
            ++id;
        }
        return comp;
    }
    std::vector<std::vector<int>> out(n), in(n);
    for (const auto& e : g.edges) { out[e.first].push_back(e.second); in[e.second].push_back(e.first); }
    std::vector<int> order;
    std::vector<char> seen(n, 0);
    std::vector<std::pair<int, std::size_t>> st;
    for (int r = 0; r < n; ++r) {
        if (seen[r]) { continue; }
        st.push_back({r, 0});
        seen[r] = 1;
        while (!st.empty()) {
            const int u = st.back().first;
            if (st.back().second < out[u].size()) { const int v = out[u][st.back().second++]; if (!seen[v]) { seen[v] = 1; st.push_back({v, 0}); } }
            else { order.push_back(u); st.pop_back(); }
        }
    }
    int id = 0;
    std::vector<int> todo;
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
        if (comp[*it] >= 0) { continue; }
        comp[*it] = id;
        todo.push_back(*it);
        while (!todo.empty()) { const int v = todo.back(); todo.pop_back(); for (int u : in[v]) { if (comp[u] < 0) { comp[u] = id; todo.push_back(u); } } }
        ++id;
    }
    return comp;
}

inline std::vector<char> reachable(const Digraph& g, const std::vector<int>& start)
{
    std::vector<char> r(g.n, 0);
    std::vector<int> st;
    for (int v : start) { if (!r[v]) { r[v] = 1; st.push_back(v); } }
    while (!st.empty()) {
        const int u = st.back(); st.pop_back();
        for (std::size_t k = g.ia[u]; k < g.ia[u + 1]; ++k) { if (!r[g.ja[k]]) { r[g.ja[k]] = 1; st.push_back(g.ja[k]); } }
    }
    return r;
}

struct ResultDeleter { void operator()(TarjanSCCResult* x) const { destroy_tarjan_sccresult(x); } };
struct WorkDeleter { void operator()(TarjanWorkSpace* x) const { destroy_tarjan_workspace(x); } };
using Result = std::unique_ptr<TarjanSCCResult, ResultDeleter>;
using Work = std::unique_ptr<TarjanWorkSpace, WorkDeleter>;

inline std::vector<std::vector<int>> components(const TarjanSCCResult* r)
{
    std::vector<std::vector<int>> c;
    const std::size_t k = tarjan_get_numcomponents(r);
    for (std::size_t i = 0; i < k; ++i) { const TarjanComponent t = tarjan_get_strongcomponent(r, i); c.emplace_back(t.vertex, t.vertex + t.size); }
    return c;
}

// Checks partition of the vertices flagged in 'want', against the reference labels, and order.
// forwardOrder: edges lead to later components (after reversal), else to earlier ones.
inline void checkComponents(Case& c, const Digraph& g, const std::vector<std::vector<int>>& comps, const std::vector<char>& want,
                            const std::vector<int>& ref, bool forwardOrder, const std::string& what)
{
    std::vector<int> pos(g.n, -1);
    std::map<int, int> labelOf;
    std::size_t total = 0;
    for (std::size_t k = 0; k < comps.size(); ++k) {
        c.checkf(!comps[k].empty(), [&] { return what + ": empty component"; });
        const int lab = (comps[k][0] >= 0 && comps[k][0] < g.n) ? ref[comps[k][0]] : -1;
        c.checkf(labelOf.insert({lab, static_cast<int>(k)}).second, [&] { return str(what, ": strong component of vertex ", comps[k][0], " is returned in pieces"); });
        for (int v : comps[k]) {
            c.checkf(v >= 0 && v < g.n, [&] { return str(what, ": vertex ", v, " out of range"); });
            c.checkf(pos[v] < 0, [&] { return str(what, ": vertex ", v, " occurs twice"); });
            c.checkf(want[v], [&] { return str(what, ": vertex ", v, " is not reachable"); });
            c.checkf(ref[v] == lab, [&] { return str(what, ": vertices ", v, " and ", comps[k][0], " share a component but are not mutually reachable"); });
            pos[v] = static_cast<int>(k);
            ++total;
        }
    }
    std::size_t expected = 0;
    for (char w : want) { expected += w; }
    c.checkf(total == expected, [&] { return str(what, ": ", total, " vertices returned, expected ", expected); });
    for (const auto& e : g.edges) {
        if (!want[e.first] || ref[e.first] == ref[e.second]) { continue; }
        const bool ok = forwardOrder ? pos[e.second] > pos[e.first] : pos[e.second] < pos[e.first];
        c.checkf(ok && pos[e.second] >= 0, [&] { return str(what, ": edge ", e.first, ">", e.second, " violates the topological order"); });
    }
}

inline void labelGraph(Case& c, const Digraph& g, const std::vector<int>& ref)
{
    std::vector<int> size(g.n, 0);
    int big = 0, nc = 0;
    for (int x : ref) { big = std::max(big, ++size[x]); nc = std::max(nc, x + 1); }
    c.label("multi-vertex-component", big > 1);
    c.label("component>=1024", big >= 1024);
    c.label("n>=10000", g.n >= 10000);
    c.label("n>=100000", g.n >= 100000);
    bool loop = false;
    for (const auto& e : g.edges) { loop = loop || e.first == e.second; }
    c.label("self-loop", loop);
    c.label("kind-" + g.kind);
    c.nontrivial = nc > 1 && g.edges.size() >= 2;
}
} // namespace graph
#endif
