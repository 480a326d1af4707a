#include "curve.hpp"
using namespace curve;
const char* const pbt_property_id = "C17";
const char* const pbt_rule = "Random cells (times with many ties, wide ranges or arbitrary values; zero pore volumes; volumes over nine orders of magnitude; unusual units; more than 2^16 cells; pore-volume fraction limits, also exactly on a cell's share); every step of the curve from both overloads, and of the curve for permuted and scaled cells, matched to the cells in order of total travel time. Non-trivial: at least three contributing cells with two different times. Discarded: no contributing cell (curve undefined).";
void pbt_property(Case& c)
{
    Src& s = c.s;
    const Cells x = genCells(c, false, true);
    const RefCurve r = reference(x);
    c.describe([&] { return show(x); });
    if (!r.ok) { c.discard(); }
    const auto g0 = fphi(x, 0), g1 = fphi(x, 1);
    checkCurve(c, x, r, g0, "curve");
    checkCurve(c, x, r, g1, "curve (solution overload)");
    c.check(g0.first.size() == g1.first.size(), "overloads differ");
    for (std::size_t k = 0; k < g0.first.size(); ++k) { c.checkf(close(g0.first[k], g1.first[k], 1e-14L * x.n()) && close(g0.second[k], g1.second[k], 1e-14L * x.n()), [&] { return str("overloads differ at point ", k); }); }
    if (x.frac == 1.0) {
        const auto d = FD::flowCapacityStorageCapacityCurve(x.a, x.b, x.pv);
        checkCurve(c, x, r, d, "curve (default fraction)");
        FD::Solution f, v;
        auto a = x.a, b = x.b;
        f.assignGlobalToF(std::move(a));
        v.assignGlobalToF(std::move(b));
        checkCurve(c, x, r, FD::flowCapacityStorageCapacityCurve(FD::Toolbox::Forward{f}, FD::Toolbox::Reverse{v}, x.pv), "curve (solution overload, default fraction)");
    }
    // Permuted and scaled cells.
    Cells y = x;
    std::vector<int> pi(x.n());
    for (int i = 0; i < x.n(); ++i) { pi[i] = i; }
    if (x.n() > 60) { Src b = s.bulk(); b.shuffle(pi); } else { s.shuffle(pi); }
    const double fp = std::ldexp(1.0, s.chance(1, 8) ? s.range(-300, 300) : s.range(-20, 20)), ft = std::ldexp(1.0, s.range(-20, 20));
    const bool swap = s.chance(1, 4);
    for (int i = 0; i < x.n(); ++i) { y.a[pi[i]] = x.a[i] * ft; y.b[pi[i]] = x.b[i] * ft; y.pv[pi[i]] = x.pv[i] * fp; }
    if (swap) { std::swap(y.a, y.b); }
    const RefCurve ry = reference(y);
    const auto gy = fphi(y, static_cast<int>(s.draw(2)));
    checkCurve(c, y, ry, gy, "permuted and scaled");
    {
        // Point by point, whatever the order of the input: also with ties and empty cells.
        { for (std::size_t k = 0; k < g0.first.size(); ++k) { c.checkf(close(g0.first[k], gy.first[k], 1e-14L * x.n()) && close(g0.second[k], gy.second[k], 1e-14L * x.n()), [&] { return str("permuting/scaling changes point ", k); }); } }
    }
    int contributing = 0;
    for (double v : x.pv) { contributing += v > 0; }
    c.label("filtered-cells", contributing > static_cast<int>(r.cell.size()));
    c.label("limit-on-share", [&] { LD t = 0; for (double v : x.pv) { t += v; } for (double v : x.pv) { if (v > 0 && static_cast<LD>(v) == t * x.frac) { return true; } } return false; }());
    c.label("ties", ties(x, r));
    c.label("zero-pv", contributing < x.n());
    c.label("large", x.n() >= 100);
    c.label("huge", x.n() >= 65000);
    c.label("wide-volumes", x.wide);
    c.label("scaled-units", x.scaled);
    c.label("tiny-fraction", x.frac < 1e-7);
    c.nontrivial = r.cell.size() >= 3 && x.time(r.cell.front()) < x.time(r.cell.back());
}
