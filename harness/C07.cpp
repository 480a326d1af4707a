#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C07";
const char* const pbt_rule = "Random flow problem and a random composition of 1-6 representation changes (cell renumbering, connection reordering, endpoint swap + negation, splitting into parallel connections, zero-flux connections, redistribution over phases, zero-rate inflow entries, well renaming, start-set reordering/repetition, common scaling by a power of two); results compared cell by cell after mapping back. Non-trivial: at least one effective change and a tracer reaching at least 3 cells.";

void pbt_property(Case& c)
{
    Src& s = c.s;
    const Problem p = genProblem(c);
    wellConditioned(c, p);
    const bool fwd = !s.chance(1, 2);
    Problem q = p;
    Mapping m;
    m.perm.resize(p.n);
    for (int i = 0; i < p.n; ++i) { m.perm[i] = i; }
    std::string applied;
    bool dupStart = false, shuffleStart = false;
    const int k = s.range(1, 6);
    for (int step = 0; step < k; ++step) {
        const int E = q.nconn();
        switch (s.draw(10)) {
        case 0: { // renumber cells
            std::vector<int> pi(q.n);
            for (int i = 0; i < q.n; ++i) { pi[i] = i; }
            if (q.n > 300) { Src b = s.bulk(); b.shuffle(pi); } else { s.shuffle(pi); }
            for (auto& x : q.cells) { x = pi[x]; }
            std::vector<double> pv(q.n);
            for (int i = 0; i < q.n; ++i) { pv[pi[i]] = q.pv[i]; }
            q.pv = pv;
            for (auto& w : q.inflow) { std::map<int, double> z; for (const auto& x : w.second) { z[pi[x.first]] = x.second; } w.second = z; }
            for (auto& x : m.perm) { x = pi[x]; }
            applied += "renumber ";
            break;
        }
        case 1: { // reorder connections
            std::vector<int> pi(E);
            for (int i = 0; i < E; ++i) { pi[i] = i; }
            if (E > 300) { Src b = s.bulk(); b.shuffle(pi); } else { s.shuffle(pi); }
            Problem z = q;
            for (int e = 0; e < E; ++e) {
                z.cells[2*e] = q.cells[2*pi[e]]; z.cells[2*e + 1] = q.cells[2*pi[e] + 1];
                for (int f = 0; f < q.nphase; ++f) { z.flux[e*q.nphase + f] = q.flux[pi[e]*q.nphase + f]; }
            }
            q = z;
            applied += "reorder ";
            break;
        }
        case 2: { // swap endpoints
            Src b = s.bulk();
            for (int e = 0; e < E; ++e) {
                if (b.chance(1, 2)) {
                    std::swap(q.cells[2*e], q.cells[2*e + 1]);
                    for (int f = 0; f < q.nphase; ++f) { q.flux[e*q.nphase + f] = -q.flux[e*q.nphase + f]; }
                }
            }
            applied += "swap ";
            break;
        }
        case 3: { // split into parallel connections (same direction, exact halves/quarters)
            const int ns = std::min(E, s.range(1, 4));
            for (int i = 0; i < ns; ++i) {
                const int e = static_cast<int>(s.draw(q.nconn()));
                const double part = s.chance(1, 2) ? 0.25 : 0.5;
                const bool flip = s.chance(1, 2);
                q.cells.push_back(q.cells[2*e + (flip ? 1 : 0)]);
                q.cells.push_back(q.cells[2*e + (flip ? 0 : 1)]);
                for (int f = 0; f < q.nphase; ++f) {
                    const double v = q.flux[e*q.nphase + f];
                    q.flux.push_back((flip ? -part : part) * v);
                    q.flux[e*q.nphase + f] = (1.0 - part) * v;
                }
            }
            applied += "split ";
            break;
        }
        case 4: { // zero-flux connections
            const int nz = s.range(1, 4);
            for (int i = 0; i < nz; ++i) {
                const int a = s.range(0, q.n - 1), b = s.range(0, q.n - 1);
                if (a == b) { continue; }
                q.cells.push_back(a); q.cells.push_back(b);
                // Zero in total: all zero, or phases that cancel exactly.
                const double v = (q.nphase > 1 && s.chance(1, 2)) ? 0.5 * s.range(1, 8) : 0.0;
                for (int f = 0; f < q.nphase; ++f) { q.flux.push_back(f == 0 ? v : (f == 1 ? -v : 0.0)); }
            }
            applied += "zero-conn ";
            break;
        }
        case 5: { // redistribute over phases
            if (p.kind.find("rough") != std::string::npos || p.kind.find("wide") != std::string::npos) { break; } // sums would round
            const int np = s.range(1, 5);
            std::vector<double> fl;
            Src b = s.bulk();
            for (int e = 0; e < E; ++e) {
                double rest = static_cast<double>(q.total(e));
                for (int f = 0; f + 1 < np; ++f) {
                    double part = 0;
                    switch (b.draw(4)) { case 0: part = rest / 2; break; case 1: part = -rest; break; case 2: part = rest; break; default: break; }
                    fl.push_back(part);
                    rest -= part;
                }
                fl.push_back(rest);
            }
            q.nphase = np;
            q.flux = fl;
            applied += "phases ";
            break;
        }
        case 6: { // zero-rate entries, also in otherwise absent wells
            for (auto& w : q.inflow) { if (s.chance(1, 2)) { w.second.insert({s.range(0, q.n - 1), 0.0}); } }
            if (s.chance(1, 2)) { q.inflow[freshId(s, q.inflow)][s.range(0, q.n - 1)] = 0.0; }
            if (s.chance(1, 4)) { q.inflow[freshId(s, q.inflow)]; }
            applied += "zero-rate ";
            break;
        }
        case 7: { // rename wells
            std::map<std::string, std::map<int, double>> z;
            std::map<std::string, std::string> ren;
            for (const auto& w : q.inflow) {
                std::string to = "R" + std::to_string(s.range(0, 50));
                while (z.count(to)) { to += "x"; }
                z[to] = w.second;
                ren[w.first] = to;
            }
            q.inflow = z;
            for (const auto& w : p.inflow) { const auto cur = m.id(w.first); m.ren[w.first] = ren.at(cur); }
            applied += "rename ";
            break;
        }
        case 8:
            dupStart = true;
            shuffleStart = true;
            applied += "start-sets ";
            break;
        default: { // common scaling
            const double f = std::ldexp(1.0, s.range(-12, 12));
            for (auto& x : q.flux) { x *= f; }
            for (auto& x : q.pv) { x *= f; }
            for (auto& w : q.inflow) { for (auto& x : w.second) { x.second *= f; } }
            applied += "scale ";
        }
        }
    }
    c.describe([&] { return str(fwd ? "forward; " : "reverse; ", applied, "; ", show(p), " => ", show(q)); });
    const auto src = sources(p, fwd), srcq = sources(q, fwd);
    auto ids = someIds(s, src, false);
    if (p.n > 300 && ids.size() > 2) { ids.resize(2); }
    auto idq = ids;
    if (shuffleStart) { s.shuffle(idq); }
    std::vector<FD::CellSet> sq;
    for (const auto& id : idq) {
        std::vector<int> cl;
        for (const auto& x : srcq.at(m.id(id))) { cl.push_back(x.first); if (dupStart) { cl.push_back(x.first); } }
        if (dupStart && s.chance(1, 2)) { s.shuffle(cl); }
        if (s.chance(1, 3)) {
            FD::CellSet one{FD::CellSetID(m.id(id))};
            for (int x : cl) { one.insert(x); }
            sq.push_back(one);
        } else { sq.emplace_back(FD::CellSetID(m.id(id)), cl); }
    }
    if (dupStart && !sq.empty() && s.chance(1, 3)) { sq.push_back(sq.front()); }
    FD::Toolbox t = toolboxOf(p), u = toolboxOf(q);
    const FD::Solution a = compute(t, fwd, startSets(src, ids)), b = compute(u, fwd, sq);
    sameSolution(c, p, fwd, ids, a, b, "after " + applied, m);
    std::istringstream is(applied);
    std::string w;
    std::set<std::string> seen;
    while (is >> w) { if (seen.insert(w).second) { c.label(w); } }
    for (const auto& id : ids) { if (!applied.empty() && a.concentration(FD::CellSetID(id)).size() >= 3) { c.nontrivial = true; } }
    c.label("large", p.n >= 200);
}
