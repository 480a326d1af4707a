#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C21";
const char* const pbt_rule = "Random histories (up to 30 operations) on several solution objects: assigning global fields and per-id time-of-flight / concentration fields (incl. empty fields, overwriting), copying and moving, interleaved with full comparison of every object with a map model. Non-trivial: at least two ids, one of them overwritten or a copy made.";
namespace {
struct Model
{
    std::vector<double> g;
    std::map<std::string, std::map<int, double>> tof, conc;
};
struct Obj { std::unique_ptr<FD::Solution> s; Model m; };

void compareAll(Case& c, const Obj& o, const std::vector<std::string>& ids)
{
    c.check(o.s->timeOfFlight() == o.m.g, "global field differs from the last assigned one");
    std::vector<std::string> want;
    for (const auto& x : o.m.conc) { want.push_back(x.first); }
    std::vector<std::string> got;
    for (const auto& x : o.s->startPoints()) { got.push_back(x.to_string()); }
    c.checkf(got == want, [&] { return str("start points: ", got.size(), " ids, expected ", want.size(), ", in ascending order"); });
    for (const auto& id : ids) {
        const auto t = o.s->timeOfFlight(FD::CellSetID(id)), q = o.s->concentration(FD::CellSetID(id));
        const auto mt = o.m.tof.find(id), mq = o.m.conc.find(id);
        c.checkf(std::map<int, double>(t.begin(), t.end()) == (mt == o.m.tof.end() ? std::map<int, double>() : mt->second), [&] { return "time-of-flight field of " + quote(id) + " differs from the last assigned one"; });
        c.checkf(std::map<int, double>(q.begin(), q.end()) == (mq == o.m.conc.end() ? std::map<int, double>() : mq->second), [&] { return "concentration field of " + quote(id) + " differs from the last assigned one"; });
    }
}
}
void pbt_property(Case& c)
{
    Src& s = c.s;
    std::map<std::string, std::map<int, double>> names;
    std::vector<std::string> ids;
    const bool many = s.chance(1, 80);
    Src bulk = many ? s.bulk() : Src(1);
    const int ni = many ? s.range(10, 80) * (s.chance(1, 8) ? 4 : 1) : s.range(1, 5);
    for (int i = 0; i < ni; ++i) { const auto id = freshId(many ? bulk : s, names); names[id]; ids.push_back(id); }
    ids.push_back(freshId(s, names)); // never assigned
    std::vector<Obj> o(1);
    o[0].s = std::make_unique<FD::Solution>();
    const int ops = s.range(1, many ? (ni > 80 ? 12 : 120) : c.thorough ? 60 : 30);
    std::set<std::string> used;
    bool over = false, copied = false;
    auto field = [&] { std::map<int, double> f; const int k = s.range(0, 5); if (s.chance(1, 200)) { Src b = s.bulk(); const int m = s.chance(1, 150) ? b.range(66000, 90000) : b.range(50, 1500); for (int i = 0; i < m; ++i) { f[b.range(0, 200000)] = b.range(0, 9999) * 0.3; } return f; } for (int i = 0; i < k; ++i) { f[s.range(0, 20)] = s.range(-9, 9) * 0.3; } return f; };
    if (many && s.chance(1, 2)) {
        for (int i = 0; i < ni; ++i) {
            for (int kind = 0; kind < 2; ++kind) {
                if (bulk.chance(1, 10)) { continue; }
                std::map<int, double> f;
                const int m = bulk.range(0, 4);
                for (int j = 0; j < m; ++j) { f[bulk.range(0, 20)] = bulk.range(-9, 9) * 0.3; }
                const FD::CellSetValues v(f.begin(), f.end());
                if (kind) { o[0].s->assign(FD::CellSetID(ids[i]), FD::Solution::TracerConcentration{v}); o[0].m.conc[ids[i]] = f; }
                else { o[0].s->assign(FD::CellSetID(ids[i]), FD::Solution::TimeOfFlight{v}); o[0].m.tof[ids[i]] = f; }
            }
        }
        c.label("many-ids-filled");
        c.describe([&] { return str(" filled ", ni, " ids"); });
    }
    compareAll(c, o[0], ids);
    for (int k = 0; k < ops; ++k) {
        Obj& x = o[s.draw(o.size())];
        const std::string& id = ids[s.draw(ni)];
        switch (s.weighted({4, 4, 2, 2, 1})) {
        case 0: { const auto f = field(); over = over || x.m.tof.count(id); x.s->assign(FD::CellSetID(id), FD::Solution::TimeOfFlight{FD::CellSetValues(f.begin(), f.end())}); x.m.tof[id] = f; used.insert(id); c.describe([&] { return str(" tof", quote(id), "#", f.size()); }); break; }
        case 1: { const auto f = field(); over = over || x.m.conc.count(id); x.s->assign(FD::CellSetID(id), FD::Solution::TracerConcentration{FD::CellSetValues(f.begin(), f.end())}); x.m.conc[id] = f; used.insert(id); c.describe([&] { return str(" conc", quote(id), "#", f.size()); }); break; }
        case 2: { std::vector<double> g(s.chance(1, 100) ? (s.chance(1, 60) ? s.range(65000, 70000) : s.range(100, 2000)) : s.range(0, 6)); Src b = g.size() > 50 ? s.bulk() : Src(1); if (g.size() > 50) { for (auto& v : g) { v = b.range(0, 9); } } else for (auto& v : g) { v = s.range(0, 9); } x.m.g = g; x.s->assignGlobalToF(std::move(g)); c.describe([] { return " global"; }); break; }
        case 3: { if (o.size() < 4) { Obj y; y.s = std::make_unique<FD::Solution>(*x.s); y.m = x.m; o.push_back(std::move(y)); copied = true; c.describe([] { return " copy"; }); } break; }
        default: { auto n = std::make_unique<FD::Solution>(std::move(*x.s)); x.s = std::move(n); c.label("moved"); c.describe([] { return " move"; }); }
        }
        for (const auto& y : o) { compareAll(c, y, ids); }
        // Destroying one object must not affect the others.
        if (o.size() > 1 && s.chance(1, 10)) { o.erase(o.begin() + s.draw(o.size())); for (const auto& y : o) { compareAll(c, y, ids); } }
    }
    c.nontrivial = used.size() >= 2 && (over || copied);
    c.label("copied", copied);
    c.label("overwritten", over);
}
