#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C27";
const char* const pbt_rule = "Random flow problem P and a variant P' with 1-4 local changes (pore volume of a cell, flux of a connection incl. reversal and shut-off, rate of a well cell, new or removed well cell, any change to wells of the opposite sign). Both are computed in the same direction; every cell that no change site reaches must keep all values, all concentrations must stay if only volumes or opposite-sign wells changed, and enlarged volumes may not shorten any time where the cap plays no role. Non-trivial: a reached cell outside the influenced region, and either a non-empty influenced region or an opposite-sign change.";

namespace {
std::vector<char> influenced(const Problem& p, bool fwd, const std::set<int>& seeds)
{
    std::vector<std::vector<int>> out(p.n);
    for (int e = 0; e < p.nconn(); ++e) {
        LD f = p.total(e);
        if (!fwd) { f = -f; }
        if (f > 0) { out[p.cells[2*e]].push_back(p.cells[2*e + 1]); } else if (f < 0) { out[p.cells[2*e + 1]].push_back(p.cells[2*e]); }
    }
    std::vector<char> r(p.n, 0);
    std::vector<int> st(seeds.begin(), seeds.end());
    for (int v : st) { r[v] = 1; }
    while (!st.empty()) { const int u = st.back(); st.pop_back(); for (int v : out[u]) { if (!r[v]) { r[v] = 1; st.push_back(v); } } }
    return r;
}
int downstream(const Problem& p, int e, bool fwd)
{
    LD f = p.total(e);
    if (!fwd) { f = -f; }
    return f > 0 ? p.cells[2*e + 1] : f < 0 ? p.cells[2*e] : -1;
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    const bool fwd = !s.chance(1, 2);
    const Problem p = genProblem(c);
    Problem q = p;
    std::set<int> seeds;
    bool volumesOnly = true, enlarged = true, anyVolume = false, opposite = false;
    std::string what;
    const int changes = s.range(1, 4);
    for (int k = 0; k < changes; ++k) {
        switch (s.weighted({3, 3, 3, 2, 2})) {
        case 0: { // pore volume
            const int i = s.range(0, p.n - 1);
            const double f = s.pick(std::vector<double>{2.0, 1.25, 10.0, 0.5, 0.0});
            if (f < 1) { enlarged = false; }
            q.pv[i] *= f;
            seeds.insert(i);
            anyVolume = true;
            what += str("pv(", i, ")*", f, " ");
            break;
        }
        case 1: { // connection flux
            if (p.nphase == 0 || p.nconn() == 0) { break; }
            const int e = s.range(0, p.nconn() - 1);
            const double f = s.pick(std::vector<double>{2.0, 0.5, 0.0, -1.0, 16.0});
            for (int d : {downstream(q, e, fwd)}) { if (d >= 0) { seeds.insert(d); } }
            for (int m = 0; m < q.nphase; ++m) { q.flux[static_cast<std::size_t>(e) * q.nphase + m] *= f; }
            for (int d : {downstream(q, e, fwd)}) { if (d >= 0) { seeds.insert(d); } }
            volumesOnly = false;
            what += str("flux(", e, ")*", f, " ");
            break;
        }
        case 2: { // rate of a well cell
            if (q.inflow.empty()) { break; }
            auto w = q.inflow.begin();
            std::advance(w, s.draw(q.inflow.size()));
            if (w->second.empty()) { break; }
            auto x = w->second.begin();
            std::advance(x, s.draw(w->second.size()));
            if ((fwd ? x->second : -x->second) > 0) { seeds.insert(x->first); volumesOnly = false; } else { opposite = true; }
            what += str("rate(", quote(w->first), ",", x->first, ") ");
            if (s.chance(1, 3)) { w->second.erase(x); } else { x->second *= s.pick(std::vector<double>{2.0, 0.5, 3.0}); }
            break;
        }
        case 3: { // new perforation, of an old or a new well
            const int i = s.range(0, p.n - 1);
            const bool match = s.chance(1, 2);
            double rate = s.range(1, 8) * 0.25;
            if (!p.flux.empty() && p.flux[0] != 0) { rate *= std::fabs(p.flux[0]); }
            std::string id;
            if (!q.inflow.empty() && s.chance(1, 2)) { auto w = q.inflow.begin(); std::advance(w, s.draw(q.inflow.size())); id = w->first; } else { id = freshId(s, q.inflow); }
            if (q.inflow[id].count(i)) { break; }
            q.inflow[id][i] = (match == fwd) ? rate : -rate;
            if (match) { seeds.insert(i); volumesOnly = false; } else { opposite = true; }
            what += str("perforation(", quote(id), ",", i, ") ");
            break;
        }
        default: { // all wells of the opposite sign
            const double f = s.pick(std::vector<double>{0.0, 2.0, 0.5, 64.0});
            for (auto& w : q.inflow) { for (auto& x : w.second) { if ((fwd ? x.second : -x.second) < 0) { x.second *= f; opposite = true; } } }
            what += str("sinks*", f, " ");
        }
        }
    }
    c.describe([&] { return str(fwd ? "forward " : "reverse ", show(p), " changes: ", what); });
    Reference ref(p, fwd), ref2(q, fwd);
    precondition(c, ref);
    precondition(c, ref2);
    auto hit = influenced(p, fwd, seeds);
    { const auto h2 = influenced(q, fwd, seeds); for (int i = 0; i < p.n; ++i) { hit[i] = hit[i] || h2[i]; } }
    std::vector<std::string> ids;
    for (const auto& id : someIds(s, ref.wells(), true)) { if (ref2.wells().count(id) && (p.n <= 300 || ids.size() < 2)) { ids.push_back(id); } }

    FD::Toolbox t = toolboxOf(p);
    const FD::Solution a = compute(t, fwd, startSets(ref.wells(), ids));
    // The variant is computed by a new toolbox or by the first one.
    FD::Toolbox u = s.chance(1, 2) ? toolboxOf(q) : std::move(t);
    u.assignPoreVolume(q.pv); u.assignConnectionFlux(fluxOf(q)); u.assignInflowFlux(inflowOf(q));
    const FD::Solution b = compute(u, fwd, startSets(ref2.wells(), ids));

    bool keeps = false;
    std::map<std::string, Field> F, G;
    auto field = [&](const std::string* id, bool variant) -> const Field& {
        auto& m = variant ? G : F;
        const std::string key = id ? "t" + *id : "g";
        auto it = m.find(key);
        if (it == m.end()) {
            Reference& r = variant ? ref2 : ref;
            it = m.emplace(key, r.solve(id ? r.wells().at(*id) : r.allSources())).first;
            if (!r.ok) { c.discard(); }
        }
        return it->second;
    };
    c.check(static_cast<int>(a.timeOfFlight().size()) == p.n && static_cast<int>(b.timeOfFlight().size()) == p.n, "size of global time-of-flight");
    for (int i = 0; i < p.n; ++i) {
        if (hit[i]) { continue; }
        const double x = a.timeOfFlight()[i], y = b.timeOfFlight()[i];
        if (x != y) {
            const Field& f = field(nullptr, false);
            c.checkf(close(x, y, 2 * Reference::tolTof(f, i)), [&] { return str("global time of cell ", i, " changes from ", x, " to ", y, " although no change lies upstream"); });
        }
        keeps = keeps || x < maxTof;
    }
    for (const auto& id : ids) {
        for (int k = 0; k < 2; ++k) {
            const auto x = k ? a.concentration(FD::CellSetID(id)) : a.timeOfFlight(FD::CellSetID(id)), y = k ? b.concentration(FD::CellSetID(id)) : b.timeOfFlight(FD::CellSetID(id));
            const char* name = k ? "concentration" : "tracer time";
            for (int i = 0; i < p.n; ++i) {
                if (hit[i] && !(k && volumesOnly)) { continue; }
                const auto xi = x.find(i), yi = y.find(i);
                c.checkf((xi == x.end()) == (yi == y.end()), [&] { return str(name, " of ", quote(id), " in cell ", i, (yi == y.end() ? " disappears" : " appears"), " although no change upstream matters"); });
                if (xi == x.end()) { continue; }
                keeps = true;
                if (xi->second != yi->second) {
                    const Field& f = field(&id, false);
                    const LD tol = k ? Reference::tolT(f, i) : Reference::tolTof(f, i);
                    c.checkf(close(xi->second, yi->second, 2 * tol), [&] { return str(name, " of ", quote(id), " in cell ", i, " changes from ", xi->second, " to ", yi->second, " although no change upstream matters"); });
                }
            }
        }
    }
    if (volumesOnly && anyVolume && enlarged && ref2.capped == 0 && ref.capped == 0) {
        auto belowCap = [&](const Field& f) { for (int i = 0; i < p.n; ++i) { if (f.reached[i] && !(f.tof[i] < maxTof)) { return false; } } return true; };
        if (belowCap(field(nullptr, true))) {
            const Field &f = field(nullptr, false), &g = field(nullptr, true);
            for (int i = 0; i < p.n; ++i) {
                c.checkf(b.timeOfFlight()[i] >= a.timeOfFlight()[i] - (double) (Reference::tolTof(f, i) + Reference::tolTof(g, i)), [&] { return str("global time of cell ", i, " drops from ", a.timeOfFlight()[i], " to ", b.timeOfFlight()[i], " although volumes only grew"); });
            }
            c.label("monotone");
        }
        for (const auto& id : ids) {
            if (!belowCap(field(&id, true))) { continue; }
            const Field &f = field(&id, false), &g = field(&id, true);
            const auto x = a.timeOfFlight(FD::CellSetID(id)), y = b.timeOfFlight(FD::CellSetID(id));
            for (const auto& v : x) {
                const int i = v.first;
                if (f.faint[i] || !y.count(i)) { continue; }
                c.checkf(y.at(i) >= v.second - (double) (Reference::tolTof(f, i) + Reference::tolTof(g, i)), [&] { return str("time of ", quote(id), " in cell ", i, " drops from ", v.second, " to ", y.at(i), " although volumes only grew"); });
            }
        }
    }
    bool some = false;
    for (char h : hit) { some = some || h; }
    c.label("influenced-region", some);
    c.label("opposite-sign-change", opposite);
    c.label("volumes-only", volumesOnly && anyVolume);
    c.nontrivial = keeps && (some || opposite);
    labelProblem(c, p, ref);
}
