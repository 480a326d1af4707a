#include "flow.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <climits>
using namespace flow;
const char* const pbt_property_id = "C24";
const char* const pbt_rule = "Random call sequences (index and normal requests of random length, range, mean, deviation) executed on twin generators; lengths, ranges, equality of twins, affine relation of normal samples to the standard sequence, continuation, chi-square of index values and moments of normal values (alarm only beyond 9 standard deviations). Non-trivial: at least three calls with n >= 2.";

void pbt_property(Case& c)
{
    Src& s = c.s;
    Opm::RandomVector a, b, st; // st: standard twin (mean 0, stdev 1)
    const bool longer = s.chance(1, 1500);      // many requests
    const int calls = longer ? s.range(250, 1200) : s.range(1, 8);
    int real = 0;
    std::vector<std::vector<double>> idxHeads, normHeads; // beginnings of all earlier results
    for (int k = 0; k < calls; ++k) {
        const std::size_t n = longer ? static_cast<std::size_t>(s.range(0, 24)) : s.chance(1, 6000) ? s.range(60000, 150000) : s.chance(1, 30000) ? (s.chance(1, 4) ? 8000000 : 1000000) : s.weighted({5, 1, 1}) == 1 ? s.range(500, 3000) : static_cast<std::size_t>(s.range(0, 30));
        real += n >= 2;
        if (s.chance(1, 2)) {
            int m = 0;
            switch (s.draw(8)) { case 6: m = s.range(1000000, INT_MAX); break; case 7: m = (1 << s.range(2, 30)) + s.range(-1, 1); break; case 0: m = s.range(0, 3); break; case 1: m = s.range(1, 40); break; case 2: m = INT_MAX; break; case 3: m = s.range(1000, 1000000); break; default: m = s.range(0, 300); }
            if (n >= 1000000 && !s.chance(1, 4)) { m = s.range(1000, static_cast<int>(n / 40) - 1); } else if (n >= 60000 && s.chance(1, 2)) { m = s.range(100, 1400); } else if (n >= 60000 && s.chance(1, 2)) { m = s.range(1000000, INT_MAX); }
            c.describe([&] { return str(" index(", n, ",", m, ")"); });
            const auto x = a.index(n, m), y = b.index(n, m), z = st.index(n, m);
            c.checkf(x.size() == n, [&] { return str("index(", n, ",", m, ") returns ", x.size(), " values"); });
            c.check(x == y && x == z, "two new generators with identical call sequences differ");
            for (int v : x) { c.checkf(v >= 0 && v <= m, [&] { return str("index value ", v, " outside 0..", m); }); }
            if (m <= 40 && n >= 500) {
                std::vector<LD> cnt(m + 1, 0);
                for (int v : x) { cnt[v] += 1; }
                LD chi = 0;
                const LD e = static_cast<LD>(n) / (m + 1);
                for (LD q : cnt) { chi += (q - e) * (q - e) / e; }
                c.checkf(chi <= m + 9 * std::sqrt(2.0L * std::max(m, 1)) + 40, [&] { return str("index(", n, ",", m, ") is not uniform: chi-square ", (double) chi); });
                c.label("uniformity");
            } else if (m > 40 && n >= 500) {
                LD mean = 0;
                for (int v : x) { mean += v; }
                mean /= n;
                // Sixteen bins of (nearly) equal width.
                std::vector<LD> cnt(16, 0), ex(16, 0);
                auto bin = [&](long long v) { return static_cast<int>(v * 16 / (static_cast<long long>(m) + 1)); };
                for (int v : x) { cnt[bin(v)] += 1; }
                for (int q = 0; q < 16; ++q) { const long long N = static_cast<long long>(m) + 1; const long long lo = (q * N + 15) / 16, hi = ((q + 1) * N + 15) / 16; ex[q] = static_cast<LD>(hi - lo) / N * n; }
                LD chi = 0;
                for (int q = 0; q < 16; ++q) { chi += (cnt[q] - ex[q]) * (cnt[q] - ex[q]) / ex[q]; }
                c.checkf(chi <= 15 + 9 * std::sqrt(30.0L) + 40, [&] { return str("index(", n, ",", m, ") is not uniform: chi-square of 16 bins ", (double) chi); });
                const LD sd = static_cast<LD>(m) / std::sqrt(12.0L * n);
                c.checkf(std::fabs(mean - m / 2.0L) <= 9 * sd + 1, [&] { return str("mean of index(", n, ",", m, ") is ", (double) mean); });
                int lo = INT_MAX, hi = 0;
                for (int v : x) { lo = std::min(lo, v); hi = std::max(hi, v); }
                c.checkf(lo < m / 8.0 && hi > m - m / 8.0, [&] { return str("index(", n, ",", m, ") does not span its range: ", lo, "..", hi); });
                c.label("range-span");
            }
            if (m >= 1000 && n >= 12) {
                std::vector<double> head;
                for (int i = 0; i < 12; ++i) { head.push_back(x[i] / (m + 1.0)); }
                for (const auto& h : idxHeads) {
                    bool same = true;
                    for (int i = 0; i < 12; ++i) { same = same && std::fabs(h[i] - head[i]) < 2e-3; }
                    c.checkf(!same, [&] { return str("index(", n, ",", m, ") repeats an earlier request instead of continuing the sequence"); });
                }
                idxHeads.push_back(head);
                c.check(std::set<int>(x.begin(), x.begin() + 12).size() > 1, "index values all equal");
            }
            if (n >= 60000 && m >= 1000000) {
                const LD lambda = static_cast<LD>(n) * n / 2 / (static_cast<LD>(m) + 1);
                const LD coll = static_cast<LD>(n) - [&] { auto u = x; std::sort(u.begin(), u.end()); return std::unique(u.begin(), u.end()) - u.begin(); }();
                c.checkf(coll <= lambda + 9 * std::sqrt(lambda) + 30, [&] { return str("index(", n, ",", m, ") takes too few different values: ", (double) coll, " repetitions, expected ", (double) lambda); });
                c.label("distinct-values");
            }
            if (static_cast<LD>(n) >= 40.0L * (static_cast<LD>(m) + 1)) {
                std::vector<char> seen(m + 1, 0);
                for (int v : x) { seen[v] = 1; }
                for (int v = 0; v <= m; ++v) { c.checkf(seen[v] != 0, [&] { return str("value ", v, " never occurs in index(", n, ",", m, ")"); }); }
                c.label("all-values-occur");
            }
        } else {
            double mean = 0, sd = 1;
            const bool def = s.chance(1, 4);
            if (!def) { mean = s.range(-100, 100) * 0.37; sd = s.pick(std::vector<double>{1.0, 0.001, 0.5, 3.7, 1000.0}); if (s.chance(1, 4)) { const double u = std::ldexp(1.0, s.range(-60, 60)); mean *= u; sd *= s.chance(1, 2) ? u : std::ldexp(1.0, s.range(-30, 30)); } }
            c.describe([&] { return str(" normal(", n, ",", mean, ",", sd, ")"); });
            const auto x = def ? a.normal(n) : a.normal(n, mean, sd), y = def ? b.normal(n) : b.normal(n, mean, sd), z = st.normal(n);
            c.checkf(x.size() == n, [&] { return str("normal(", n, ") returns ", x.size(), " values"); });
            c.check(x == y, "two new generators with identical call sequences differ");
            c.check(z.size() == n, "length");
            for (std::size_t i = 0; i < n; ++i) {
                c.checkf(std::isfinite(x[i]) && close(x[i], mean + static_cast<LD>(sd) * z[i], 1e-12L * (std::fabs(mean) + sd * (1 + std::fabs(z[i])))), [&] { return str("normal value ", x[i], " is not mean + stdev * ", z[i], " for mean ", mean, " stdev ", sd); });
            }
            if (n >= 500) {
                LD m1 = 0, m2 = 0, m4 = 0;
                int above = 0, in1 = 0;
                for (double v : z) { m1 += v; above += v > 0; in1 += std::fabs(v) < 1; }
                m1 /= n;
                for (double v : z) { m2 += (v - m1) * (v - m1); m4 += std::pow(static_cast<LD>(v), 4); }
                m2 /= n;
                m4 /= n;
                c.checkf(std::fabs(m1) <= 9 / std::sqrt(static_cast<LD>(n)), [&] { return str("mean of ", n, " standard normal values is ", (double) m1); });
                c.checkf(std::fabs(m2 - 1) <= 9 * std::sqrt(2.0L / n), [&] { return str("variance of ", n, " standard normal values is ", (double) m2); });
                c.checkf(std::fabs(above - n / 2.0) <= 9 * 0.5 * std::sqrt(static_cast<double>(n)), [&] { return str(above, " of ", n, " standard normal values are positive"); });
                c.checkf(std::fabs(in1 - 0.682689 * n) <= 9 * 0.4655 * std::sqrt(static_cast<double>(n)), [&] { return str(in1, " of ", n, " standard normal values are within one deviation"); });
                c.label("moments");
            }
            if (n >= 60000) {
                int b3 = 0, b4 = 0;
                for (double v : z) { b3 += std::fabs(v) > 3; b4 += std::fabs(v) > 4; }
                const double e3 = 0.0026998 * n, e4 = 6.3342e-5 * n;
                c.checkf(std::fabs(b3 - e3) <= 9 * std::sqrt(e3), [&] { return str(b3, " of ", n, " standard normal values are beyond three deviations, expected ", e3); });
                c.checkf(b4 <= e4 + 9 * std::sqrt(e4) + 9 && (e4 < 40 || b4 > 0), [&] { return str(b4, " of ", n, " standard normal values are beyond four deviations, expected ", e4); });
                c.label("tails");
            }
            if (n >= 4) {
                const std::vector<double> head(z.begin(), z.begin() + 4);
                for (const auto& h : normHeads) { c.check(h != head, "a normal request repeats an earlier one instead of continuing the sequence"); }
                normHeads.push_back(head);
                c.check(n > 100 || std::set<double>(z.begin(), z.end()).size() == z.size(), "normal values repeat");
            }
        }
    }
    c.nontrivial = real >= 3;
}
