#include "csr.hpp"
using namespace csr;
const char* const pbt_property_id = "C14";
const char* const pbt_rule = "Random multiset of connections (weighted with exactly summable weights, or unweighted; rows and columns independent, columns may exceed the row count; up to 1.3 million connections, many duplicates) compressed to N rows; structure, weights and iteration compared with an ordered map. Non-trivial: at least 3 connections with a repeated pair.";
void pbt_property(Case& c)
{
    Src& s0 = c.s;
    const bool large = s0.chance(1, 60);
    Src bulk = s0.bulk();
    Src& s = large ? bulk : s0;
    const bool huge = large && s0.chance(1, 30);
    const bool giant = huge && s0.chance(1, 20);          // beyond 2^20 connections
    const bool few = huge && !giant && s0.chance(1, 3);   // one pair repeated very often
    const int rows = few ? s.range(1, 3) : huge ? s.range(40000, 140000) : large ? s.range(1, 3000) : s.range(1, 9);
    const int cols = s0.chance(1, 2) ? rows : (few ? s.range(1, 2) : huge ? s.range(1, 200000) : large ? s.range(1, 5000) : s.range(1, 14));
    const bool weighted = !s0.chance(1, 4);
    const int m = giant ? s.range(1040000, 1300000) : huge ? s.range(60000, 200000) : large ? s.range(0, 20000) : s.range(0, 24);
    std::vector<Conn> v;
    for (int k = 0; k < m; ++k) {
        if (!v.empty() && s.chance(1, 4)) { Conn d = v[s.draw(v.size())]; if (weighted) { d.w = genWeight(s); } v.push_back(d); }
        else { v.push_back(genConn(s, rows, cols, weighted)); }
    }
    const int e2 = weighted && s0.chance(1, 8) ? s0.range(-400, 400) : 0;   // sums stay exact
    if (e2 != 0) { for (auto& x : v) { x.w = std::ldexp(x.w, e2); } }
    int maxRow = -1;
    for (const auto& x : v) { maxRow = std::max(maxRow, x.i); }
    std::size_t N = rows;
    switch (s0.draw(4)) { case 0: N = maxRow + 1; break; case 1: N = rows + (s0.chance(1, 400) ? s0.range(1000, 200000) : s0.range(0, 6)); break; default: break; }
    c.describe([&] { return str("N=", N, " ", show(v)); });
    Opm::AssembledConnections a;
    for (const auto& x : v) { add(a, x); }
    a.compress(N);
    const auto want = compressed(v, N);
    compare(c, a, want, "compressed");
    const Opm::AssembledConnections copy(a);
    compare(c, copy, want, "copy");
    c.nontrivial = v.size() >= 3 && want.m.size() < v.size();
    c.label("weighted", weighted);
    c.label("empty", v.empty());
    c.label("large", large);
    c.label("huge", huge);
    c.label("giant", giant);
    c.label("few-pairs", few);
    c.label("unusual-magnitude", e2 != 0);
    c.label("many-trailing-rows", static_cast<int>(N) > maxRow + 999);
    c.label("trailing-empty-rows", static_cast<int>(N) > maxRow + 1);
    c.label("columns-beyond-rows", cols > static_cast<int>(N));
}
