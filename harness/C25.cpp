#include "flow.hpp"
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
using namespace flow;
const char* const pbt_property_id = "C25";
const char* const pbt_rule = "Random flow problem given to one solver object, random sequence of 2-12 global and local solves with random start sets (subsets of the source cells, arbitrary positive values, some zero, rarely empty) incl. rejected ones (negative values); every result compared with that of a new solver and with the reference; scaled and united start sets checked for linearity. Non-trivial: at least two different local solves reaching 3 cells.";

namespace {
struct System
{
    Opm::AssembledConnections down, up;
    std::vector<double> pv;
    FD::CellSetValues src;
};
void compareField(Case& c, const FD::CellSetValues& a, const FD::CellSetValues& b, const Field& f, bool tof, const std::string& what)
{
    c.checkf(a.size() == b.size(), [&] { return what + ": supports differ"; });
    for (const auto& x : a) {
        const auto y = b.find(x.first);
        c.checkf(y != b.end(), [&] { return what + ": supports differ"; });
        if (x.second == y->second) { continue; }
        const LD tol = tof ? Reference::tolTof(f, x.first) : Reference::tolT(f, x.first);
        c.checkf(close(x.second, y->second, 2 * tol), [&] { return str(what, ": cell ", x.first, ": ", x.second, " versus ", y->second); });
    }
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    GenOpt o;
    o.maxLarge = 500;
    const Problem p = genProblem(c, o);
    const bool fwd = !s.chance(1, 2);
    c.describe([&] { return str(fwd ? "forward " : "reverse ", show(p)); });
    Reference ref(p, fwd);
    precondition(c, ref);
    System y;
    for (int e = 0; e < p.nconn(); ++e) {
        double f = static_cast<double>(p.total(e));
        if (!fwd) { f = -f; }
        const int a = p.cells[2*e], b = p.cells[2*e + 1];
        if (f > 0) { y.down.addConnection(a, b, f); y.up.addConnection(b, a, f); }
        else if (f < 0) { y.down.addConnection(b, a, -f); y.up.addConnection(a, b, -f); }
    }
    y.down.compress(p.n);
    y.up.compress(p.n);
    y.pv = p.pv;
    const auto all = ref.allSources();
    for (const auto& q : all) { y.src[q.first] = q.second; }
    if (all.empty()) { c.discard(); }
    std::vector<std::pair<int, double>> cells(all.begin(), all.end());
    FD::TracerTofSolver solver(y.down, y.up, y.pv, y.src);
    const Field g = ref.solve(all);
    if (!ref.ok) { c.discard(); }
    auto newSolver = [&] { return FD::TracerTofSolver(y.down, y.up, y.pv, y.src); };
    auto genStart = [&] {
        std::map<int, double> st;
        const int k = s.range(1, std::min<int>(4, static_cast<int>(cells.size())));
        for (int i = 0; i < k; ++i) { const auto& q = cells[s.draw(cells.size())]; st[q.first] = s.chance(1, 2) ? q.second : q.second * (s.range(1, 16) / 8.0); }
        return st;
    };
    // Zero start values are admissible and contribute nothing.
    auto withZeros = [&](std::map<int, double> st) {
        if (s.chance(1, 4)) { for (int i = s.range(1, 2); i > 0; --i) { if (st.insert({cells[s.draw(cells.size())].first, 0.0}).second) { c.label("zero-start-value"); } } }
        return st;
    };
    auto asValues = [](const std::map<int, double>& m) { return FD::CellSetValues(m.begin(), m.end()); };
    int wide = 0;
    const int ops = s.range(2, p.n > 100 ? 5 : 12);
    std::map<int, double> previous;
    for (int k = 0; k < ops; ++k) {
        if (p.n <= 60 && s.chance(1, 1500)) { // very many solves in a row
            const int K = 256 + (s.chance(1, 2) ? 0 : s.range(-2, 2));
            const auto st = genStart();
            for (int i = 0; i < K; ++i) { if (i % 97 == 96) { solver.solveGlobal(); } else { solver.solveLocal(asValues(st)); } }
            c.label("burst");
            c.describe([&] { return str(" ", K, " solves"); });
        }
        switch (s.weighted({6, 3, 2, 2, 2})) {
        case 0: {
            const auto st = (!previous.empty() && s.chance(1, 4)) ? previous : s.chance(1, 30) ? std::map<int, double>() : genStart();
            previous = st;
            const auto stz = withZeros(st);
            c.describe([&] { return str(" local#", st.size()); });
            const auto r = solver.solveLocal(asValues(stz));
            FD::TracerTofSolver fresh = newSolver();
            const auto q = fresh.solveLocal(asValues(st));
            const Field f = ref.solve(st);
            if (!ref.ok) { c.discard(); }
            compareField(c, r.concentration, q.concentration, f, false, str("local solve ", k, " concentration (new solver)"));
            compareField(c, r.tof, q.tof, f, true, str("local solve ", k, " time-of-flight (new solver)"));
            checkSupport(c, p, f, r.concentration, "local solve");
            checkTracerTof(c, p, f, r.tof, str("local solve ", k));
            for (const auto& x : r.concentration) { c.checkf(close(x.second, f.T[x.first], Reference::tolT(f, x.first)), [&] { return str("local solve ", k, ": concentration of cell ", x.first, " is ", x.second, ", expected ", (double) f.T[x.first]); }); }
            wide += r.concentration.size() >= 3;
            break;
        }
        case 1: {
            c.describe([] { return " global"; });
            const auto r = solver.solveGlobal();
            checkGlobal(c, p, g, r, str("global solve ", k));
            FD::TracerTofSolver fresh = newSolver();
            const auto q = fresh.solveGlobal();
            c.check(q.size() == r.size(), "global solve size");
            for (std::size_t i = 0; i < r.size(); ++i) { c.checkf(close(r[i], q[i], 2 * Reference::tolTof(g, static_cast<int>(i))), [&] { return str("global solve ", k, " differs from that of a new solver in cell ", i); }); }
            break;
        }
        case 2: { // rejected
            auto st = genStart();
            auto it = st.begin();
            std::advance(it, s.draw(st.size()));
            it->second = -it->second;
            c.describe([] { return " rejected"; });
            c.check(throwsA<std::logic_error>([&] { solver.solveLocal(asValues(st)); }), "negative start value accepted");
            c.label("rejected");
            break;
        }
        case 3: { // scaling
            const auto st = genStart();
            const double f = std::ldexp(1.0, s.range(-6, 6));
            auto sc = st;
            for (auto& q : sc) { q.second *= f; }
            c.describe([&] { return str(" scaled ", f); });
            const bool order = s.chance(1, 2);
            FD::TracerTofSolver fresh = newSolver();
            const auto r = order ? solver.solveLocal(asValues(st)) : fresh.solveLocal(asValues(st));
            const auto q = solver.solveLocal(asValues(sc));
            const Field a = ref.solve(st), b = ref.solve(sc);
            if (!ref.ok) { c.discard(); }
            c.check(r.concentration.size() == q.concentration.size() && r.tof.size() == q.tof.size(), "scaling the start set changes the support");
            for (const auto& x : r.concentration) {
                const int i = x.first;
                c.check(q.concentration.count(i) == 1 && q.tof.count(i) == 1, "scaling the start set changes the support");
                c.checkf(close(q.concentration.at(i), f * x.second, f * Reference::tolT(a, i) + Reference::tolT(b, i)), [&] { return str("scaling by ", f, ": concentration of cell ", i, " goes from ", x.second, " to ", q.concentration.at(i)); });
                c.checkf(close(q.tof.at(i), r.tof.at(i), Reference::tolTof(a, i) + Reference::tolTof(b, i)), [&] { return str("scaling by ", f, ": time-of-flight of cell ", i, " goes from ", r.tof.at(i), " to ", q.tof.at(i)); });
            }
            c.label("scaled");
            break;
        }
        default: { // union
            const auto s1 = genStart(), s2 = genStart();
            auto su = s1;
            for (const auto& q : s2) { su[q.first] += q.second; }
            c.describe([] { return " union"; });
            const auto r1 = solver.solveLocal(asValues(s1)), r2 = solver.solveLocal(asValues(s2)), ru = solver.solveLocal(asValues(su));
            const Field f1 = ref.solve(s1), f2 = ref.solve(s2), fu = ref.solve(su);
            if (!ref.ok) { c.discard(); }
            std::map<int, LD> sum;
            for (const auto& x : r1.concentration) { sum[x.first] += x.second; }
            for (const auto& x : r2.concentration) { sum[x.first] += x.second; }
            c.check(sum.size() == ru.concentration.size(), "support of united start sets is not the union");
            for (const auto& x : ru.concentration) { c.checkf(sum.count(x.first) && close(sum[x.first], x.second, Reference::tolT(f1, x.first) + Reference::tolT(f2, x.first) + Reference::tolT(fu, x.first)), [&] { return str("united start sets: concentration of cell ", x.first, " is ", x.second, ", separate ones sum to ", (double) sum[x.first]); }); }
            c.label("united");
        }
        }
    }
    labelProblem(c, p, ref);
    c.nontrivial = wide >= 2;
}
