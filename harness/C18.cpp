#include "curve.hpp"
using namespace curve;
const char* const pbt_property_id = "C18";
const char* const pbt_rule = "Arbitrary curves (monotone, non-monotone, single point, repeated points): twice trapezoidal area minus one in long double. F-Phi curves of random cells: range, Gini-type pairwise sum, zero for equal times, invariance under permutation, subdivision and scaling. Non-trivial: at least 3 distinct curve points.";
void pbt_property(Case& c)
{
    Src& s = c.s;
    if (s.chance(1, 3)) {
        const int n = s.chance(1, 1500) ? s.range(65000, 140000) : s.chance(1, 50) ? s.range(200, 2000) : s.range(1, 14);
        Src b = s.bulk();
        Src& q = n > 100 ? b : s;
        FD::Graph g;
        const bool mono = s.chance(1, 2), grid = n <= 14 && s.chance(1, 4);
        double x = 0, y = 0;
        for (int i = 0; i < n; ++i) {
            if (grid && mono) { x = std::min(1.0, x + q.range(0, 3) * 0.125); y = std::min(1.0, y + q.range(0, 3) * 0.125); }
            else if (grid) { x = q.range(0, 4) * 0.25; y = q.range(0, 4) * 0.25; }
            else if (mono) { x += q.range(0, 8) * 0.03; y += q.range(0, 8) * 0.07; } else { x = q.range(-40, 40) * 0.11; y = q.range(-40, 40) * 0.13; }
            g.first.push_back(x); g.second.push_back(y);
        }
        c.describe([&] { std::string d = "curve:"; for (int i = 0; i < std::min(n, 30); ++i) { d += str("(", g.first[i], ",", g.second[i], ")"); } return d; });
        LD area = 0, mag = 0;
        for (int i = 1; i < n; ++i) { const LD t = (static_cast<LD>(g.second[i]) + g.second[i - 1]) * (static_cast<LD>(g.first[i]) - g.first[i - 1]) / 2; area += t; mag += std::fabs(t); }
        const double L = FD::lorenzCoefficient(g);
        c.checkf(close(L, 2 * area - 1, 1e-14L * (n + 4) * (1 + mag)), [&] { return str("Lorenz coefficient ", L, ", expected ", (double) (2 * area - 1)); });
        c.label("arbitrary-curve");
        c.label("single-point", n == 1);
        c.label("huge-curve", n >= 65000);
        c.nontrivial = n >= 3;
        return;
    }
    Cells x = genCells(c, false, true);
    const bool equal = s.chance(1, 8);
    if (equal) { for (int i = 0; i < x.n(); ++i) { x.a[i] = x.a[0]; x.b[i] = x.b[0]; } }
    if (x.n() > 600) { x.a.resize(600); x.b.resize(600); x.pv.resize(600); x.frac = 1.0; }
    const RefCurve r = reference(x);
    if (!r.ok) { c.discard(); }
    c.describe([&] { return show(x); });
    const LD tol = 1e-14L * (x.n() + 8);
    auto gini = [&](const Cells& z, const RefCurve& q) {
        LD t = 0;
        for (int i : q.cell) { for (int j : q.cell) { const LD pi = z.pv[i] / q.P, pj = z.pv[j] / q.P, fi = static_cast<LD>(z.pv[i]) / z.time(i) / q.F, fj = static_cast<LD>(z.pv[j]) / z.time(j) / q.F; t += std::fabs(fi * pj - fj * pi); } }
        return t / 2;
    };
    const double L = FD::lorenzCoefficient(fphi(x, static_cast<int>(s.draw(2))));
    c.checkf(L >= -(double) tol && L <= 1 + (double) tol, [&] { return str("Lorenz coefficient out of [0,1]: ", L); });
    const LD G = gini(x, r);
    c.checkf(close(L, G, tol), [&] { return str("Lorenz coefficient ", L, ", pairwise sum gives ", (double) G); });
    if (equal) { c.checkf(close(L, 0, tol), [&] { return str("equal travel times but Lorenz coefficient ", L); }); c.label("equal-times"); }
    // Permutation, subdivision, scaling.
    Cells y = x;
    const int k = x.frac >= 1.0 ? s.range(0, 3) : 0;
    for (int i = 0; i < k; ++i) { const int q = static_cast<int>(s.draw(y.n())); y.pv[q] /= 2; y.pv.push_back(y.pv[q]); y.a.push_back(y.a[q]); y.b.push_back(y.b[q]); }
    std::vector<int> pi(y.n());
    for (int i = 0; i < y.n(); ++i) { pi[i] = i; }
    if (y.n() > 60) { Src b = s.bulk(); b.shuffle(pi); } else { s.shuffle(pi); }
    const double fp = std::ldexp(1.0, s.chance(1, 8) ? s.range(-300, 300) : s.range(-20, 20)), ft = std::ldexp(1.0, s.range(-20, 20));
    Cells z = y;
    for (int i = 0; i < y.n(); ++i) { z.a[pi[i]] = y.a[i] * ft; z.b[pi[i]] = y.b[i] * ft; z.pv[pi[i]] = y.pv[i] * fp; }
    const double L2 = FD::lorenzCoefficient(fphi(z, 0));
    c.checkf(close(L, L2, 2 * tol), [&] { return str("permutation/subdivision/scaling changes the Lorenz coefficient from ", L, " to ", L2); });
    c.label("subdivided", k > 0);
    c.label("large", x.n() >= 100);
    c.label("wide-volumes", x.wide);
    c.label("scaled-units", x.scaled);
    c.nontrivial = r.cell.size() >= 3 && x.time(r.cell.front()) < x.time(r.cell.back());
}
