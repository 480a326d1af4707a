#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C08";
const char* const pbt_rule = "Random history (2-25 operations) on a toolbox over one graph: valid and rejected assignments of pore volumes, fluxes and inflows (fresh, mutated or earlier data), injection/production computations with valid or invalid start sets, move construction/assignment; every computation is compared with a freshly built toolbox given the model's latest data, and all earlier solutions are re-checked at the end. Non-trivial: at least two successful computations with a data change between them.";

namespace {
void mutate(Src& s, Problem& p)
{
    // Small change of fluxes keeping everything else.
    const int k = s.range(1, 3);
    for (int i = 0; i < k && !p.flux.empty(); ++i) {
        auto& f = p.flux[s.draw(p.flux.size())];
        switch (s.draw(5)) {
        case 0: f = -f; break;
        case 1: f = 0; break;
        case 2: std::swap(f, p.flux[s.draw(p.flux.size())]); break;
        case 3: { auto& g = p.flux[s.draw(p.flux.size())]; const double h = f / 2; f -= h; g += h; break; } // same sum
        default: f *= 2;
        }
    }
}

void mutateVolume(Src& s, Problem& p)
{
    auto& v = p.pv[s.draw(p.n)];
    auto& w = p.pv[s.draw(p.n)];
    switch (s.draw(4)) {
    case 0: std::swap(v, w); break;
    case 1: v = 2 * v + 0.25; break;
    case 2: { const double h = v / 2; v -= h; w += h; break; }
    default: for (auto& x : p.pv) { x = x * s.range(1, 3) + 1; }
    }
}

// Changes a detail of one or two wells.
void mutateWells(Src& s, Problem& p)
{
    auto well = [&] { auto w = p.inflow.begin(); std::advance(w, s.draw(p.inflow.size())); return w; };
    const int k = s.range(1, 2);
    for (int i = 0; i < k; ++i) {
        if (p.inflow.empty() || s.chance(1, 6)) { p.inflow[freshId(s, p.inflow)][s.range(0, p.n - 1)] = (s.chance(1, 2) ? 0.5 : -0.5) * s.range(1, 4); continue; }
        const auto w = well();
        if (w->second.empty()) { w->second[s.range(0, p.n - 1)] = 0.5; continue; }
        auto x = w->second.begin();
        std::advance(x, s.draw(w->second.size()));
        switch (s.draw(7)) {
        case 0: x->second *= s.pick(std::vector<double>{2, 0.5, -1, 0}); break;
        case 1: { const double r = x->second; w->second.erase(x); w->second[s.range(0, p.n - 1)] = r; break; } // other cell
        case 2: w->second.erase(x); break;
        case 3: w->second[s.range(0, p.n - 1)] = x->second; break; // one cell more
        case 4: { const auto m = w->second; p.inflow.erase(w); p.inflow[freshId(s, p.inflow)] = m; break; } // other name
        case 5: { const auto v = well(); if (v != w) { std::swap(v->second, w->second); } break; } // exchanged names
        default: if (p.inflow.size() > 1) { p.inflow.erase(w); }
        }
    }
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    GenOpt o;
    o.allowLarge = false;
    o.maxSmall = 16;
    Problem base = genProblem(c, o);
    c.describe([&] { return show(base); });
    auto tb = std::make_unique<FD::Toolbox>(graphOf(base));
    Problem cur = base;                 // model: latest assigned data
    bool havePv = false, haveFlux = false;
    cur.inflow.clear();
    std::vector<Problem> pool{base};    // data sets over the same graph
    auto other = [&]() -> Problem& {
        if (pool.size() < 5 && s.chance(2, 5)) {
            Problem q = pool[s.draw(pool.size())];
            switch (s.draw(7)) {
            case 0: mutate(s, q); break;
            case 1: q = reversed(q); break;
            case 2: mutateVolume(s, q); break;
            case 3: case 4: mutateWells(s, q); break;
            case 5: mutate(s, q); mutateVolume(s, q); mutateWells(s, q); break;
            default: {
                q.inflow.clear();
                const int nw = s.range(0, 3);
                for (int w = 0; w < nw; ++w) {
                    auto& m = q.inflow[freshId(s, q.inflow)];
                    for (int i = 0; i < s.range(1, 2); ++i) { m[s.range(0, q.n - 1)] = s.range(-3, 3) * 0.5; }
                }
                q.nphase = s.range(1, 2);
                std::vector<double> fl;
                for (int e = 0; e < q.nconn(); ++e) { for (int k = 0; k < q.nphase; ++k) { fl.push_back(s.range(-4, 4) * 0.25); } }
                q.flux = fl;
            }
            }
            pool.push_back(q);
        }
        return pool[s.draw(pool.size())];
    };
    std::vector<std::pair<FD::Solution, Snapshot>> kept;
    int computed = 0;
    bool changed = false, changedBetween = false;
    int ops = s.range(2, c.thorough ? 40 : 25);
    bool followUp = false;
    for (int k = 0; k < ops; ++k) {
        const int op = followUp ? 0 : s.chance(1, 1500) ? 10 : s.weighted({8, 4, 4, 4, 2, 2, 2, 1, 1, 3});
        followUp = false;
        switch (op) {
        case 0: case 9: { // computation, valid start sets
            const bool fwd = !s.chance(1, 2);
            const auto src = sources(cur, fwd);
            const auto ids = someIds(s, src, false);
            const auto st = looseStartSets(s, src, ids);
            if (!havePv || !haveFlux) {
                c.check(throwsA<std::logic_error>([&] { compute(*tb, fwd, {}); }), "computation before assignment is not refused");
                c.describe([&] { return str(" [", fwd ? "inj" : "prod", " refused]"); });
                c.label("refused-before-data");
                break;
            }
            { const Reference r(cur, fwd); precondition(c, r); }
            c.describe([&] { return str(" [", fwd ? "inj" : "prod", " ", ids.size(), " sets]"); });
            const FD::Solution a = compute(*tb, fwd, st);
            FD::Toolbox fresh(graphOf(base));
            const bool order = s.chance(1, 2);
            if (order) { fresh.assignInflowFlux(inflowOf(cur)); }
            fresh.assignConnectionFlux(fluxOf(cur));
            fresh.assignPoreVolume(cur.pv);
            if (!order) { fresh.assignInflowFlux(inflowOf(cur)); }
            const FD::Solution b = compute(fresh, fwd, st);
            sameSolution(c, cur, fwd, ids, a, b, str("operation ", k, " (", fwd ? "injection" : "production", ")"));
            kept.emplace_back(a, Snapshot(a));
            if (computed > 0 && changed) { changedBetween = true; }
            ++computed;
            changed = false;
            break;
        }
        case 1: { const Problem& q = other(); tb->assignPoreVolume(q.pv); cur.pv = q.pv; havePv = true; changed = true; c.describe([] { return " [pv]"; }); break; }
        case 2: { const Problem& q = other(); tb->assignConnectionFlux(fluxOf(q)); cur.flux = q.flux; cur.nphase = q.nphase; haveFlux = true; changed = true; c.describe([] { return " [flux]"; }); break; }
        case 3: { const Problem& q = other(); tb->assignInflowFlux(inflowOf(q)); cur.inflow = q.inflow; changed = true; c.describe([] { return " [inflow]"; }); break; }
        case 4: { // rejected assignments
            c.label("rejected-assignment");
            switch (s.draw(3)) {
            case 0: {
                std::vector<double> pv(base.n + (s.chance(1, 2) ? 1 : -1), 3.0);
                c.check(throwsA<std::logic_error>([&] { tb->assignPoreVolume(pv); }), "pore volumes of wrong size accepted");
                break;
            }
            case 1: {
                FD::ConnectionValues f(FD::ConnectionValues::NumConnections{static_cast<std::size_t>(base.nconn() + (s.chance(1, 2) || base.nconn() == 0 ? 1 : -1))}, FD::ConnectionValues::NumPhases{1});
                c.check(throwsA<std::logic_error>([&] { tb->assignConnectionFlux(f); }), "fluxes of wrong size accepted");
                break;
            }
            default: {
                Problem q = other();
                q.inflow[freshId(s, q.inflow)][s.chance(1, 2) ? base.n : -1] = s.chance(1, 2) ? 2.0 : -2.0;
                c.check(throwsA<std::logic_error>([&] { tb->assignInflowFlux(inflowOf(q)); }), "inflow outside the graph accepted");
            }
            }
            c.describe([] { return " [rejected assignment]"; });
            break;
        }
        case 5: { // rejected computations
            if (!havePv || !haveFlux) { break; }
            const bool fwd = !s.chance(1, 2);
            const auto src = sources(cur, fwd);
            auto ids = idsOf(src);
            auto st = startSets(src, ids);
            if (!ids.empty() && s.chance(1, 2)) {
                std::set<int> has;
                for (const auto& w : src) { for (const auto& q : w.second) { has.insert(q.first); } }
                int bad = -1;
                for (int i = 0; i < base.n; ++i) { if (!has.count(i)) { bad = i; break; } }
                st[s.draw(st.size())].insert(bad);
            } else {
                std::map<std::string, std::map<int, double>> used = cur.inflow;
                st.emplace_back(FD::CellSetID(freshId(s, used)), std::vector<int>{});
            }
            if (s.chance(1, 2)) { s.shuffle(st); }
            c.check(throwsA<std::runtime_error>([&] { compute(*tb, fwd, st); }), "invalid start set accepted");
            c.label("rejected-computation");
            c.describe([] { return " [rejected computation]"; });
            break;
        }
        case 10: { // very many assignments or computations in a row
            const int K = (s.chance(1, 6) && base.n + base.nconn() <= 150 ? 65536 : 256) + (s.chance(1, 2) ? 0 : s.range(-2, 2));
            const int kind = static_cast<int>(s.weighted({2, 4, 2, 1}));
            const Problem q = other();
            const Problem r = other();
            const bool primed = havePv && haveFlux && !s.chance(1, 4);
            if (primed || kind == 3) {
                if (!havePv || !haveFlux || (kind == 3 && K > 1000)) { break; }
                { const Reference a(cur, true), b(cur, false); precondition(c, a); precondition(c, b); }
                const bool first = s.chance(1, 2);
                for (int i = 0; i < (kind == 3 ? K : 2); ++i) { compute(*tb, (i % 2 == 0) == first, {}); }
            }
            const auto fq = fluxOf(q), fr = fluxOf(r);
            const auto iq = inflowOf(q), ir = inflowOf(r);
            for (int i = 1; kind < 3 && i <= K; ++i) {
                const bool useR = i % 2 == K % 2;
                if (kind == 0) { tb->assignPoreVolume(useR ? r.pv : q.pv); }
                if (kind == 1) { tb->assignConnectionFlux(useR ? fr : fq); }
                if (kind == 2) { tb->assignInflowFlux(useR ? ir : iq); }
            }
            if (kind == 0) { cur.pv = r.pv; havePv = true; }
            if (kind == 1) { cur.flux = r.flux; cur.nphase = r.nphase; haveFlux = true; }
            if (kind == 2) { cur.inflow = r.inflow; }
            changed = changed || kind < 3;
            c.describe([&] { return str(" [", K, " times operation ", kind, "]"); });
            c.label("burst");
            followUp = !s.chance(1, 8);
            if (followUp) { ops = std::max(ops, k + 2); }
            break;
        }
        case 6: { auto n = std::make_unique<FD::Toolbox>(std::move(*tb)); tb = std::move(n); c.label("moved"); c.describe([] { return " [move]"; }); break; }
        case 7: {
            Problem z;
            z.n = 2; z.cells = {0, 1};
            auto n = std::make_unique<FD::Toolbox>(graphOf(z));
            if (s.chance(1, 2)) { n->assignPoreVolume({1.0, 1.0}); }
            *n = std::move(*tb);
            tb = std::move(n);
            c.label("moved");
            c.describe([] { return " [move-assign]"; });
            break;
        }
        default: { // same data again
            if (havePv) { tb->assignPoreVolume(cur.pv); }
            if (haveFlux) { tb->assignConnectionFlux(fluxOf(cur)); }
            c.describe([] { return " [re-assign]"; });
        }
        }
    }
    for (const auto& x : kept) { c.check(Snapshot(x.first) == x.second, "an already returned solution has changed"); }
    tb.reset();
    for (const auto& x : kept) { c.check(Snapshot(x.first) == x.second, "an already returned solution has changed after the toolbox was destroyed"); }
    c.nontrivial = changedBetween;
}
