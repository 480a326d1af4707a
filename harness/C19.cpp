#include "curve.hpp"
using namespace curve;
const char* const pbt_property_id = "C19";
const char* const pbt_rule = "Arbitrary curves with exactly representable coordinates (repeated flow or storage values, non-monotone): each output point against its formula. F-Phi curves of random cells (ties, zero volumes, volume limits): monotonicity, range, end value and the cell-wise sum of min(volume share, flow share x time). Non-trivial: at least three output points.";
void pbt_property(Case& c)
{
    Src& s = c.s;
    if (s.chance(1, 3)) {
        const int n = s.chance(1, 1500) ? s.range(65000, 140000) : s.chance(1, 30) ? s.range(15, 200) : s.range(1, 14);
        const bool fine = s.chance(1, 4); // tiny steps in flow
        Src bulk = n > 200 ? s.bulk() : Src(1);
        Src& q = n > 200 ? bulk : s;
        FD::Graph g;
        const bool mono = s.chance(1, 2);
        int x = 0, y = 0;
        for (int i = 0; i < n; ++i) {
            if (i > 0) { if (mono) { x += q.range(0, 4); y += q.range(0, 3); } else { x = q.range(-16, 16); y = q.range(-6, 6); } }
            g.first.push_back(x / 32.0); g.second.push_back(fine ? std::ldexp(y, -48) : y / 32.0);
        }
        c.describe([&] { std::string d = "curve:"; for (int i = 0; i < std::min(n, 200); ++i) { d += str("(", g.first[i], ",", g.second[i], ")"); } return d; });
        const auto r = FD::sweepEfficiency(g);
        std::vector<LD> t{0}, e{0}, mag{0};
        for (int i = 1; i < n; ++i) {
            const LD fd = g.second[i] - g.second[i - 1], sd = g.first[i] - g.first[i - 1];
            if (fd != 0) { t.push_back(sd / fd); e.push_back(g.first[i] + (1 - static_cast<LD>(g.second[i])) * t.back()); mag.push_back(std::fabs(g.first[i]) + std::fabs((1 - static_cast<LD>(g.second[i])) * t.back())); }
        }
        c.checkf(r.first.size() == t.size() && r.second.size() == t.size(), [&] { return str(r.first.size(), "/", r.second.size(), " points, expected ", t.size()); });
        for (std::size_t k = 0; k < t.size(); ++k) {
            c.checkf(close(r.first[k], t[k], 1e-13L * (1 + std::fabs(t[k]))), [&] { return str("dimensionless time ", k, " is ", r.first[k], ", expected ", (double) t[k]); });
            c.checkf(close(r.second[k], e[k], 1e-13L * (1 + std::fabs(t[k]) + std::fabs(e[k]) + mag[k])), [&] { return str("efficiency ", k, " is ", r.second[k], ", expected ", (double) e[k]); });
        }
        c.label("arbitrary-curve");
        c.label("tiny-steps", fine);
        c.label("huge-curve", n >= 65000);
        c.label("flat-steps", static_cast<int>(t.size()) < n);
        c.nontrivial = t.size() >= 3;
        return;
    }
    Cells x = genCells(c, false, true);
    if (x.n() > 300) { x.a.resize(300); x.b.resize(300); x.pv.resize(300); x.frac = 1.0; }
    const RefCurve r = reference(x);
    if (!r.ok) { c.discard(); }
    c.describe([&] { return show(x); });
    const auto g = fphi(x, static_cast<int>(s.draw(2)));
    const auto e = FD::sweepEfficiency(g);
    std::size_t steps = 0;
    for (std::size_t k = 1; k < g.second.size(); ++k) { steps += g.second[k] != g.second[k - 1]; }
    c.checkf(e.first.size() == steps + 1 && e.second.size() == steps + 1, [&] { return str(e.first.size(), "/", e.second.size(), " points for ", steps, " flow steps"); });
    c.check(e.first[0] == 0 && e.second[0] == 0, "does not start at (0,0)");
    const LD ulp = 3e-16L * (x.n() + 4);
    LD prevT = 0, prevE = 0, prevErr = 0;
    std::size_t out = 0;
    for (std::size_t k = 1; k < g.second.size(); ++k) {
        if (g.second[k] == g.second[k - 1]) { continue; }
        ++out;
        const LD fd = static_cast<LD>(g.second[k]) - g.second[k - 1];
        const double t = e.first[out], v = e.second[out];
        // Cell time of this step (shares known from the cells), with the cancellation error of the step.
        const LD err = ulp * (1 + t) / fd;
        c.checkf(t >= prevT - err - prevErr, [&] { return str("dimensionless time decreases at point ", out); });
        c.checkf(v >= prevE - err - prevErr - ulp, [&] { return str("efficiency decreases at point ", out); });
        c.checkf(v >= -ulp - err && v <= 1 + err + ulp, [&] { return str("efficiency out of range: ", v); });
        LD sum = 0;
        for (int i : r.cell) { sum += std::min<LD>(x.pv[i] / r.P, static_cast<LD>(x.pv[i]) / x.time(i) / r.F * t); }
        c.checkf(close(v, sum, 2 * err + ulp), [&] { return str("efficiency at dimensionless time ", t, " is ", v, ", cells give ", (double) sum); });
        prevT = t; prevE = v; prevErr = err;
    }
    c.checkf(close(e.second.back(), 1, 1e-12L), [&] { return str("final efficiency is ", e.second.back()); });
    c.label("filtered-or-zero", r.cell.size() < static_cast<std::size_t>(x.n()));
    c.label("ties", ties(x, r));
    c.label("wide-volumes", x.wide);
    c.label("scaled-units", x.scaled);
    c.nontrivial = e.first.size() >= 3;
}
