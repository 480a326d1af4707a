#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C20";
const char* const pbt_rule = "Random construction and modification histories of cell sets (duplicates, negative and extreme ids, copies, assignments), cell-set ids (all byte values, prefixes, equal texts), connection values (random writes, copies) and connectivity graphs, compared with std::set / std::string / array models after every step. Non-trivial: history with at least 3 modifying operations.";
namespace {
void cellSets(Case& c)
{
    Src& s = c.s;
    struct M { FD::CellSet a; std::string id; std::set<int> m; };
    std::vector<M> v;
    auto val = [&] { switch (s.draw(8)) { case 0: return -s.range(0, 5); case 1: return 2147483647 - s.range(0, 3); case 2: return s.range(0, 1000000); default: return s.range(0, 12); } };
    const int ops = s.range(1, 20);
    for (int k = 0; k < ops; ++k) {
        switch (v.empty() ? s.draw(2) : s.weighted({1, 2, 6, 1, 1})) {
        case 0: { const auto id = genId(s); v.push_back({FD::CellSet{FD::CellSetID(id)}, id, {}}); c.describe([&] { return " new " + quote(id); }); break; }
        case 1: {
            const auto id = genId(s);
            std::vector<int> cl;
            int m = s.range(0, 10);
            if (s.chance(1, 120)) { // many cells
                Src b = s.bulk();
                m = s.chance(1, 100) ? b.range(65000, 80000) : b.range(50, 3000);
                const int top = b.pick(std::vector<int>{100, 4000, 2147483647});
                for (int i = 0; i < m; ++i) { cl.push_back(b.range(0, top)); }
                c.label("many-cells");
            } else { for (int i = 0; i < m; ++i) { cl.push_back(val()); } }
            v.push_back({FD::CellSet(FD::CellSetID(id), cl), id, std::set<int>(cl.begin(), cl.end())});
            c.describe([&] { return str(" new ", quote(id), " with ", m, " cells"); });
            break;
        }
        case 2: { M& x = v[s.draw(v.size())]; const int i = s.chance(1, 3) && !x.m.empty() ? *x.m.begin() : val(); x.a.insert(i); x.m.insert(i); c.describe([&] { return str(" insert ", i); }); break; }
        case 3: { const M y = v[s.draw(v.size())]; v.push_back(y); c.describe([] { return " copy"; }); break; }
        default: { const M y = v[s.draw(v.size())]; M& x = v[s.draw(v.size())]; x = y; c.describe([] { return " assign"; }); }
        }
        for (const auto& x : v) {
            c.check(x.a.id().to_string() == x.id, "cell set id changed");
            std::multiset<int> got(x.a.begin(), x.a.end());
            c.checkf(got.size() == x.m.size() && std::set<int>(got.begin(), got.end()) == x.m, [&] { return str("cell set iterates over ", got.size(), " cells, expected ", x.m.size()); });
        }
    }
    c.nontrivial = ops >= 3;
    c.label("cell-sets");
}
void ids(Case& c)
{
    Src& s = c.s;
    const int n = s.range(2, 6);
    std::vector<std::string> t;
    for (int i = 0; i < n; ++i) {
        std::string x = genId(s);
        if (!t.empty() && s.chance(1, 3)) { x = t[s.draw(t.size())]; if (s.chance(1, 2)) { x += static_cast<char>(s.range(0, 255)); } else if (!x.empty() && s.chance(1, 2)) { x[s.draw(x.size())] ^= static_cast<char>(1 << s.draw(8)); } }
        t.push_back(x);
    }
    c.describe([&] { std::string d = "ids:"; for (const auto& x : t) { d += quote(x) + " "; } return d; });
    c.check(FD::CellSetID().to_string().empty(), "default id is not empty");
    for (const auto& x : t) {
        const FD::CellSetID a(x);
        c.checkf(a.to_string() == x, [&] { return "id text not preserved: " + quote(x) + " became " + quote(a.to_string()); });
        const FD::CellSetID b(a);
        c.check(b.to_string() == x, "copied id differs");
        FD::CellSetID d;
        d = a;
        c.check(d.to_string() == x, "assigned id differs");
        for (const auto& y : t) {
            const FD::CellSetID q(y);
            c.checkf((a < q) == (x < y), [&] { return "order of " + quote(x) + " and " + quote(y); });
        }
    }
    std::map<FD::CellSetID, int> m;
    std::map<std::string, int> r;
    for (int i = 0; i < n; ++i) { m[FD::CellSetID(t[i])] += i + 1; r[t[i]] += i + 1; }
    c.check(m.size() == r.size(), "ids as map keys are confused");
    auto it = r.begin();
    for (const auto& x : m) { c.check(x.first.to_string() == it->first && x.second == it->second, "ids as map keys are confused"); ++it; }
    c.nontrivial = n >= 3;
    c.label("ids");
}
void values(Case& c)
{
    Src& s = c.s;
    using CV = FD::ConnectionValues;
    const bool large = s.chance(1, 50);
    const std::size_t P = s.chance(1, 12) ? (s.chance(1, 6) && !large ? s.range(41, 300) : s.range(6, 40)) : s.range(0, 5), E = large ? s.range(100, s.chance(1, 20) ? 70000 : 5000) : s.range(0, 9);
    std::vector<std::pair<CV, std::vector<double>>> v;
    v.emplace_back(CV(CV::NumConnections{E}, CV::NumPhases{P}), std::vector<double>(E * P, 0.0));
    c.describe([&] { return str("values ", E, "x", P); });
    const int ops = s.range(1, 20);
    if (s.chance(1, 4)) { // every entry a value of its own
        auto& x = v[0];
        const bool down = s.chance(1, 2);
        const std::size_t N = E * P;
        for (std::size_t k = 0; k < N; ++k) {
            const std::size_t q = down ? N - 1 - k : k;
            x.first(CV::ConnID{q / P}, CV::PhaseID{q % P}) = 0.5 + static_cast<double>(q);
            x.second[q] = 0.5 + static_cast<double>(q);
        }
        c.label("all-entries-written");
    }
    for (int k = 0; k < ops; ++k) {
        if (E * P > 0) {
            auto& x = v[s.draw(v.size())];
            const std::size_t e = s.draw(E), p = s.draw(P);
            const double w = s.chance(1, 6) ? std::ldexp(s.range(-9, 9) / 7.0, s.range(-1000, 1000)) : s.range(-50, 50) * 0.1;
            x.first(CV::ConnID{e}, CV::PhaseID{p}) = w;
            x.second[e * P + p] = w;
        }
        if (s.chance(1, 6) && v.size() < 4) { const auto y = v[s.draw(v.size())]; v.push_back(y); }
        if (s.chance(1, 10)) { const auto y = v[s.draw(v.size())]; auto& z = v[s.draw(v.size())]; z = y; }
        if (large && k + 1 < ops) { continue; }
        for (const auto& x : v) {
            c.check(x.first.numConnections() == E && x.first.numPhases() == P, "dimensions of connection values");
            for (std::size_t e = 0; e < E; ++e) { for (std::size_t p = 0; p < P; ++p) { c.checkf(x.first(CV::ConnID{e}, CV::PhaseID{p}) == x.second[e * P + p], [&] { return str("value (", e, ",", p, ") of ", E, "x", P, " is ", x.first(CV::ConnID{e}, CV::PhaseID{p}), ", written ", x.second[e * P + p]); }); } }
        }
    }
    c.nontrivial = ops >= 3 && E > 1 && P > 1;
    c.label("connection-values");
}
void graphs(Case& c)
{
    Src& s = c.s;
    const int n = s.chance(1, 10) ? s.range(31, 2000000) : s.range(1, 30), m = s.chance(1, 20) ? s.range(100, s.chance(1, 40) ? 80000 : 3000) : s.range(0, 12);
    Src b = s.bulk();
    Src& q = m > 50 ? b : s;
    std::vector<int> t;
    for (int i = 0; i < 2 * m; ++i) { t.push_back(q.range(0, n - 1)); }
    const FD::ConnectivityGraph g(n, t);
    const FD::ConnectivityGraph h(g);
    FD::ConnectivityGraph k(1, {});
    k = h;
    c.describe([&] { return str("graph ", n, " cells ", m, " connections"); });
    for (const FD::ConnectivityGraph* x : {&g, &h, static_cast<const FD::ConnectivityGraph*>(&k)}) {
        c.check(x->numCells() == static_cast<std::size_t>(n) && x->numConnections() == static_cast<std::size_t>(m), "graph sizes");
        for (int e = 0; e < m; ++e) { const auto pr = x->connection(e); c.checkf(pr.first == t[2*e] && pr.second == t[2*e + 1], [&] { return str("connection ", e, " is ", pr.first, "-", pr.second, ", given ", t[2*e], "-", t[2*e + 1]); }); }
    }
    c.nontrivial = m >= 3;
    c.label("graph");
}
}
void pbt_property(Case& c)
{
    switch (c.s.draw(4)) { case 0: cellSets(c); break; case 1: ids(c); break; case 2: values(c); break; default: graphs(c); }
}
