// Storage/flow capacity data: generator and reference.
#ifndef CURVE_HPP
#define CURVE_HPP
#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>

namespace curve {
using namespace flow;

struct Cells
{
    std::vector<double> a, b, pv;      // forward time, reverse time, pore volume
    double frac = 1.0;
    bool rough = false;
    bool wide = false, scaled = false;
    int n() const { return static_cast<int>(pv.size()); }
    double time(int i) const { return a[i] + b[i]; }
};

inline std::string show(const Cells& x)
{
    std::string d = str("fraction=", x.frac, " n=", x.n());
    if (x.n() <= 30) { d += " (time,pv):"; for (int i = 0; i < x.n(); ++i) { d += str("(", x.a[i], "+", x.b[i], ",", x.pv[i], ") "); } }
    return d;
}

inline Cells genCells(Case& c, bool positivePv, bool filter)
{
    Src& s0 = c.s;
    const bool huge = s0.chance(1, 3000);        // beyond 2^16 cells
    const bool large = huge || s0.chance(1, 150);
    Src bulk = large ? s0.bulk() : Src(1);
    Src& s = large ? bulk : s0;
    Cells x;
    const int n = huge ? s.range(65000, 72000) : large ? s.range(100, 3000) : (s0.chance(1, 4) ? s.range(8, 40) : s.range(1, 9));
    x.wide = !large && s0.chance(1, 8);          // volumes over nine orders of magnitude
    x.rough = huge || (!x.wide && s0.chance(1, 4));
    const int tmode = huge ? 1 : static_cast<int>(s0.draw(x.wide ? 3 : 4));
    const int pmax = s0.pick(std::vector<int>{4, 40, 1, 400});
    for (int i = 0; i < n; ++i) {
        double a = 0, b = 0;
        switch (tmode) {
        case 0: a = s.range(0, 3); b = s.range(0, 3); break;                       // many ties
        case 1: a = s.range(0, 1000) * 0.125; b = s.range(0, 1000) * 0.125; break;
        case 2: a = 0.5; b = s.chance(1, 8) ? 1.5 : 0.5; break;                    // nearly all equal
        default: a = std::ldexp(1.0, s.range(0, 14)); b = std::ldexp(s.range(0, 7), s.range(0, 14)); // wide
        }
        if (s.chance(1, 10)) { std::swap(a, b); }
        if (a + b == 0) { b = 0.5; }
        if (x.rough) { a *= 1.1 + 0.001 * s.range(0, 9999); b *= 0.7 + 0.001 * s.range(0, 9999); }
        double v = s.range(positivePv ? 1 : 0, pmax) * 0.25;
        if (x.wide) { v = std::ldexp(s.range(positivePv ? 1 : 0, 3) * 0.25, s.range(0, 30)); }
        if (!positivePv && s.chance(1, 8)) { v = 0; }
        if (x.rough) { v *= 0.3 + 0.001 * s.range(0, 9999); }
        x.a.push_back(a); x.b.push_back(b); x.pv.push_back(v);
    }
    if (filter && !x.rough && s0.chance(1, 2)) {
        // Make the total a power of two, so that shares and limits are exact.
        double tot = 0;
        for (double v : x.pv) { tot += v; }
        double p2 = 0.25;
        while (p2 < tot) { p2 *= 2; }
        x.pv[s.draw(n)] += p2 - tot;
        tot = p2;
        if (tot > 0) {
            switch (s0.draw(4)) {
            case 0: x.frac = x.pv[s.draw(n)] / tot; break;                          // exactly on a cell's share
            case 1: x.frac = (x.pv[s.draw(n)] - 0.125) / tot; break;
            case 2: x.frac = (x.pv[s.draw(n)] + 0.125) / tot; break;
            default: x.frac = s0.range(1, 64) / 64.0;
            }
        }
    } else if (filter && s0.chance(1, 4)) { x.frac = s0.pick(std::vector<double>{0.5, 0.25, 0.75, 1.5, 100.0}); }
    if (x.rough) { x.frac = 1.0; }
    x.scaled = s0.chance(1, 8);                  // unusual units
    if (x.scaled) {
        const int kp = s0.range(-300, 300), kt = s0.range(-60, 10);
        for (double& v : x.pv) { v = std::ldexp(v, kp); }
        for (double& v : x.a) { v = std::ldexp(v, kt); }
        for (double& v : x.b) { v = std::ldexp(v, kt); }
    }
    return x;
}

struct RefCurve
{
    std::vector<int> cell;          // contributing cells sorted by time
    LD P = 0, F = 0;                // totals over included cells
    bool ok = true;
};

inline RefCurve reference(const Cells& x)
{
    RefCurve r;
    LD total = 0;
    for (double v : x.pv) { total += v; }
    for (int i = 0; i < x.n(); ++i) {
        if (x.frac < 1.0 && static_cast<LD>(x.pv[i]) > static_cast<LD>(x.frac) * total) { continue; }
        if (x.pv[i] > 0) { r.cell.push_back(i); r.P += x.pv[i]; r.F += static_cast<LD>(x.pv[i]) / x.time(i); }
    }
    std::sort(r.cell.begin(), r.cell.end(), [&](int i, int j) { return x.time(i) < x.time(j); });
    r.ok = !r.cell.empty();
    return r;
}

// Full check of a curve against the cells (order inside groups of equal time is free).
inline void checkCurve(Case& c, const Cells& x, const RefCurve& r, const FD::Graph& g, const std::string& what)
{
    const auto& Phi = g.first;
    const auto& F = g.second;
    const std::size_t n = x.n();
    c.checkf(Phi.size() == n + 1 && F.size() == n + 1, [&] { return str(what, ": ", Phi.size(), "/", F.size(), " points for ", n, " cells"); });
    c.checkf(Phi[0] == 0.0 && F[0] == 0.0, [&] { return str(what, ": starts at (", Phi[0], ",", F[0], ")"); });
    const LD eps = 4e-16L * (n + 4);
    c.checkf(close(Phi[n], 1, eps) && close(F[n], 1, eps), [&] { return str(what, ": ends at (", Phi[n], ",", F[n], ")"); });
    std::size_t pos = 0, groupEnd = 0;
    std::vector<char> used(n, 0);
    LD cp = 0, cf = 0;
    const LD smallest = [&] { LD m = r.P; for (int i : r.cell) { m = std::min<LD>(m, x.pv[i]); } return m / r.P; }();
    for (std::size_t k = 1; k <= n; ++k) {
        const LD dp = static_cast<LD>(Phi[k]) - Phi[k - 1], df = static_cast<LD>(F[k]) - F[k - 1];
        c.checkf(dp >= 0 && df >= 0, [&] { return str(what, ": curve decreases at point ", k); });
        if (dp <= smallest / 2 && df <= eps) { // cell without contribution
            c.checkf(dp <= eps, [&] { return str(what, ": storage step ", (double) dp, " without flow at point ", k); });
            continue;
        }
        if (pos == groupEnd) { // next group of equal times
            c.checkf(pos < r.cell.size(), [&] { return str(what, ": more contributing steps than cells"); });
            while (groupEnd < r.cell.size() && x.time(r.cell[groupEnd]) == x.time(r.cell[pos])) { ++groupEnd; }
        }
        // Find a not yet used cell of the current group with this pore volume.
        int hit = -1;
        LD bestd = 1;
        const std::size_t gs = [&] { std::size_t q = groupEnd; while (q > 0 && x.time(r.cell[q - 1]) == x.time(r.cell[groupEnd - 1])) { --q; } return q; }();
        for (std::size_t q = gs; q < groupEnd; ++q) {
            const int i = r.cell[q];
            if (used[i]) { continue; }
            const LD d = std::fabs(dp - x.pv[i] / r.P);
            if (hit < 0 || d < bestd) { hit = i; bestd = d; }
        }
        c.checkf(hit >= 0 && bestd <= eps, [&] { return str(what, ": storage step ", (double) dp, " at point ", k, " is not the share of a cell with the next travel time ", x.time(r.cell[gs])); });
        used[hit] = 1;
        ++pos;
        cp += x.pv[hit] / r.P;
        cf += static_cast<LD>(x.pv[hit]) / x.time(hit) / r.F;
        c.checkf(close(Phi[k], cp, eps), [&] { return str(what, ": storage capacity at point ", k, " is ", Phi[k], ", expected ", (double) cp); });
        c.checkf(close(F[k], cf, eps), [&] { return str(what, ": flow capacity at point ", k, " is ", F[k], ", expected ", (double) cf); });
    }
    c.checkf(pos == r.cell.size(), [&] { return str(what, ": ", pos, " contributing steps, expected ", r.cell.size()); });
}

inline FD::Graph fphi(const Cells& x, int how)
{
    if (how == 0) { return FD::flowCapacityStorageCapacityCurve(x.a, x.b, x.pv, x.frac); }
    FD::Solution f, r;
    auto a = x.a, b = x.b;
    f.assignGlobalToF(std::move(a));
    r.assignGlobalToF(std::move(b));
    return FD::flowCapacityStorageCapacityCurve(FD::Toolbox::Forward{f}, FD::Toolbox::Reverse{r}, x.pv, x.frac);
}

inline bool ties(const Cells& x, const RefCurve& r)
{
    for (std::size_t k = 1; k < r.cell.size(); ++k) { if (x.time(r.cell[k]) == x.time(r.cell[k - 1])) { return true; } }
    return false;
}
} // namespace curve
#endif
