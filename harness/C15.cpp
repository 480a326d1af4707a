#include "csr.hpp"
using namespace csr;
const char* const pbt_property_id = "C15";
const char* const pbt_rule = "Random history (up to 40 operations) on one to three builder objects: adding weighted/unweighted connections, compressing (valid, too few rows, mixed weights), copying and assigning objects, adding to one object connections taken from its own compressed graph; the compressed graph and pending state are compared with a list/map model after every operation. Non-trivial: at least two successful compressions of one object with different graphs.";
namespace {
struct Obj
{
    Opm::AssembledConnections a;
    std::vector<Conn> pending;
    Compressed cur;
    int builds = 0;
};
}
void pbt_property(Case& c)
{
    Src& s = c.s;
    std::vector<Obj> o(1);
    const int ops = s.range(3, c.thorough ? 80 : 40);
    int best = 0;
    bool mode = !s.chance(1, 3);
    const int e2 = s.chance(1, 8) ? s.range(-400, 400) : 0;   // unit of the weights
    const bool wide = s.chance(1, 100);                       // some graphs with very many rows
    auto size = [&] { return wide && s.chance(1, 2) ? (s.chance(1, 20) ? s.range(60000, 140000) : s.range(100, 3000)) : s.range(1, 6); };
    int rows = size(), cols = s.chance(1, 2) ? rows : s.range(1, 9);
    for (int k = 0; k < ops; ++k) {
        Obj& x = o[s.draw(o.size())];
        switch (s.weighted({10, 6, 1, 1, 1, 1})) {
        case 0: {
            const int m = s.range(1, 4);
            for (int q = 0; q < m; ++q) {
                const bool w = x.pending.empty() ? mode : (s.chance(1, 25) ? !x.pending.front().weighted : x.pending.front().weighted);
                Conn n = genConn(s, rows, cols, w);
                n.w = std::ldexp(n.w, e2);
                add(x.a, n);
                x.pending.push_back(n);
                c.describe([&] { return str(" +", show({n})); });
            }
            break;
        }
        case 1: {
            int maxRow = -1;
            bool mixed = false;
            for (const auto& q : x.pending) { maxRow = std::max(maxRow, q.i); mixed = mixed || q.weighted != x.pending.front().weighted; }
            std::size_t N = 0;
            switch (s.draw(4)) { case 0: N = maxRow + 1; break; case 1: N = rows; break; case 2: N = s.range(0, rows + 2); break; default: N = rows + s.range(0, 4); }
            c.describe([&] { return str(" compress(", N, ")"); });
            if (mixed) {
                c.checkf(throwsA<std::logic_error>([&] { x.a.compress(N); }), [&] { return str("compress of partly weighted connections accepted"); });
                c.label("rejected-mixed");
                if (x.cur.valid) { compare(c, x.a, x.cur, "after rejected compress"); }
                c.check(throwsA<std::logic_error>([&] { x.a.compress(maxRow + 1); }), "repeated compress of partly weighted connections accepted");
                if (x.cur.valid) { compare(c, x.a, x.cur, "after rejected compress"); }
                x = Obj();  // the only way to go on
                break;
            }
            if (static_cast<std::size_t>(maxRow + 1) > N) {
                c.checkf(throwsA<std::invalid_argument>([&] { x.a.compress(N); }), [&] { return str("compress(", N, ") with source ", maxRow, " accepted"); });
                c.label("rejected-rows");
            } else {
                x.a.compress(N);
                x.cur = compressed(x.pending, N);
                x.pending.clear();
                best = std::max(best, ++x.builds);
                // Next graph may differ in kind and size.
                mode = !s.chance(1, 3);
                if (s.chance(1, 2)) { rows = size(); cols = s.chance(1, 2) ? rows : s.range(1, 9); }
            }
            break;
        }
        case 2: { if (o.size() < 3) { Obj y = x; o.push_back(y); c.label("copied"); c.describe([] { return " copy"; }); } break; }
        case 3: { const Obj y = x; Obj& z = o[s.draw(o.size())]; z.a = y.a; z.pending = y.pending; z.cur = y.cur; z.builds = y.builds; c.describe([] { return " assign"; }); break; }
        case 4: {
            if (!x.cur.valid || x.cur.m.empty()) { break; }
            // Transposed graph rebuilt in the same object from its own data.
            if (!x.pending.empty() && x.pending.front().weighted != x.cur.weighted) { break; }
            for (const auto& q : x.cur.m) { const Conn n{q.first.second, q.first.first, x.cur.weighted, q.second}; add(x.a, n); x.pending.push_back(n); }
            c.label("self-feed");
            c.describe([] { return " self-feed"; });
            break;
        }
        default: { Obj y; std::swap(y, x); if (s.chance(1, 2)) { std::swap(y, x); } c.describe([] { return " swap"; }); }
        }
        if (s.chance(1, 4000)) { // very many builds of one object
            Obj& x = o[s.draw(o.size())];
            const int K = (s.chance(1, 8) ? 65536 : 256) + (s.chance(1, 2) ? 0 : s.range(-2, 2));
            bool mixed = false;
            for (const auto& q : x.pending) { mixed = mixed || q.weighted != x.pending.front().weighted; }
            if (!mixed && rows <= 6) {
                int top = -1;
                for (const auto& q : x.pending) { top = std::max(top, q.i); }
                for (int i = 0; i < K; ++i) {
                    const Conn n{i % 3, (i + i / 5) % 2, x.pending.empty() ? i % 7 != 3 : x.pending.front().weighted, 0.5};
                    add(x.a, n);
                    x.pending.push_back(n);
                    const std::size_t N = std::max(top, 2) + 1 + i % 2;
                    x.a.compress(N);
                    x.cur = compressed(x.pending, N);
                    x.pending.clear();
                    top = -1;
                    ++x.builds;
                    if (i % 41 == 0 || i + 3 > K) { compare(c, x.a, x.cur, str("build ", i, " in a row")); }
                }
                c.label("many-builds");
            }
        }
        for (const auto& y : o) { if (y.cur.valid) { compare(c, y.a, y.cur, str("after operation ", k)); } }
    }
    // Whatever is pending must still come out right.
    for (auto& y : o) {
        bool mixed = false;
        int maxRow = -1;
        for (const auto& q : y.pending) { maxRow = std::max(maxRow, q.i); mixed = mixed || q.weighted != y.pending.front().weighted; }
        if (mixed) { c.check(throwsA<std::logic_error>([&] { y.a.compress(maxRow + 1); }), "compress of partly weighted connections accepted"); continue; }
        y.a.compress(maxRow + 1);
        y.cur = compressed(y.pending, maxRow + 1);
        y.pending.clear();
        compare(c, y.a, y.cur, "final compress");
    }
    c.label("many-rows", wide);
    c.label("unusual-magnitude", e2 != 0);
    c.nontrivial = best >= 2;
}
