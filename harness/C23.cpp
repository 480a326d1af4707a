#define ALLOC_REPLACE_NEW
#include "alloc.hpp"
#include "flow.hpp"
using namespace flow;
const char* const pbt_property_id = "C23";
const char* const pbt_rule = "Random flow problem and computation (first one of the toolbox, after an earlier computation, or after re-assignment of other fluxes); every memory allocation of the call (C and C++) is made to fail in turn, alone and with all later ones (all points if at most 60, otherwise 60 spread over the call); the call must end in an exception, blocks must balance after the toolbox is destroyed, and repeating the call must give the result of an undisturbed toolbox. A quarter of the cases fail an assignment of pore volumes, fluxes or inflow instead: the previous data must stay in force and the repeated assignment must take effect. Non-trivial: (assignment that allocates, or) computation with at least one start set and three reached cells.";

namespace {
long liveTotal() { return alloc::st().live + alloc::st().liveNew; }

// One assignment hit by memory exhaustion: the data assigned before stay in force, and the
// assignment can be repeated.
void assignment(Case& c)
{
    Src& s = c.s;
    GenOpt o;
    o.allowLarge = false;
    o.maxSmall = 12;
    Problem was = genProblem(c, o);
    Problem now = was;
    const int what = static_cast<int>(s.draw(3));
    switch (what) {
    case 0:
        for (auto& v : now.pv) { v *= s.range(1, 4); }
        break;
    case 1: {
        const int extra = s.range(0, 2);
        now.nphase = was.nphase + extra;
        now.flux.assign(static_cast<std::size_t>(now.nconn()) * now.nphase, 0.0);
        for (int e = 0; e < now.nconn(); ++e) {
            const double f = s.range(1, 3);
            for (int k = 0; k < was.nphase; ++k) { now.flux[static_cast<std::size_t>(e) * now.nphase + k] = f * was.flux[static_cast<std::size_t>(e) * was.nphase + k]; }
            if (extra > 0) { now.flux[static_cast<std::size_t>(e) * now.nphase + was.nphase] = was.total(e) / 4; }
        }
        break;
    }
    default:
        for (auto& w : now.inflow) { const double f = s.range(1, 3); for (auto& q : w.second) { q.second *= f; } }
        if (!now.inflow.empty() && s.chance(1, 3)) { now.inflow.erase(now.inflow.begin()); }
        if (s.chance(1, 3)) { now.inflow["an additional well with a long name"] = {{s.range(0, now.n - 1), s.chance(1, 2) ? 1.0 : -1.0}}; }
    }
    if (s.chance(1, 2)) { std::swap(was, now); }
    wellConditioned(c, was);
    wellConditioned(c, now);
    const bool fwd = !s.chance(1, 2), computed = s.chance(1, 2);
    c.describe([&] { return str("assignment of ", what == 0 ? "pore volumes" : what == 1 ? "fluxes" : "inflow", computed ? " after a computation" : "", fwd ? ", forward; " : ", reverse; ", show(was), " then ", show(now)); });
    const auto fluxNow = fluxOf(now);
    const auto inflowNow = inflowOf(now);
    auto make = [&] {
        auto t = std::make_unique<FD::Toolbox>(toolboxOf(was));
        if (computed) { compute(*t, fwd, {}); }
        return t;
    };
    auto assign = [&](FD::Toolbox& t) {
        if (what == 0) { t.assignPoreVolume(now.pv); }
        else if (what == 1) { t.assignConnectionFlux(fluxNow); }
        else { t.assignInflowFlux(inflowNow); }
    };
    auto result = [&](FD::Toolbox& t, const Problem& p) { const auto src = sources(p, fwd); return compute(t, fwd, startSets(src, idsOf(src))); };
    FD::Toolbox a = toolboxOf(was), b = toolboxOf(now);
    const FD::Solution wantWas = result(a, was), wantNow = result(b, now);
    long total = 0;
    {
        auto t = make();
        alloc::arm(-1, false);
        assign(*t);
        alloc::disarm();
        total = alloc::st().count;
    }
    const int maxPoints = c.thorough ? 200 : 40;
    std::vector<long> points;
    if (total <= maxPoints) { for (long k = 1; k <= total; ++k) { points.push_back(k); } }
    else { for (int k = 0; k < maxPoints; ++k) { points.push_back(1 + static_cast<long>(s.draw(total))); } }
    for (const long k : points) {
        const bool sticky = (k & 1) != 0;
        auto t = make();
        bool threw = false, foreign = false;
        alloc::arm(k, sticky);
        try { assign(*t); }
        catch (const std::exception&) { threw = true; }
        catch (...) { foreign = true; }
        alloc::disarm();
        const bool injected = alloc::st().injected > alloc::st().soft;
        c.checkf(!foreign, [&] { return str("assignment, allocation ", k, ": exception is not a std::exception"); });
        c.checkf(threw || !injected, [&] { return str("assignment: allocation ", k, " of ", total, " fails but success is reported"); });
        if (threw) { sameSolution(c, was, fwd, idsOf(sources(was, fwd)), wantWas, result(*t, was), str("computation after an assignment failed at allocation ", k, " of ", total)); }
        assign(*t);
        sameSolution(c, now, fwd, idsOf(sources(now, fwd)), wantNow, result(*t, now), str("repeated assignment after failure of allocation ", k, " of ", total));
    }
    points.push_back(total + 1000000);
    for (const long k : points) {
        const long before = liveTotal();
        {
            auto t = make();
            alloc::arm(k, (k & 1) != 0);
            try { assign(*t); } catch (...) {}
            alloc::disarm();
        }
        const long leaked = liveTotal() - before;
        c.checkf(leaked == 0, [&] { return str("assignment with failure of allocation ", k, " of ", total, " leaks ", leaked, " blocks"); });
    }
    c.nontrivial = total > 0 && was.n > 1;
    c.label(what == 0 ? "assign pore volumes" : what == 1 ? "assign fluxes" : "assign inflow");
}
}

void pbt_property(Case& c)
{
    Src& s = c.s;
    if (s.chance(1, 4)) { assignment(c); return; }
    GenOpt o;
    o.allowLarge = false;
    const bool bigger = s.chance(1, 25);
    o.maxSmall = bigger ? 90 : 12;
    const Problem p = genProblem(c, o);
    const bool fwd = !s.chance(1, 2);
    { const Reference r(p, true); precondition(c, r); }
    { const Reference r(p, false); precondition(c, r); }
    const int history = static_cast<int>(s.draw(3));
    c.describe([&] { return str(fwd ? "forward" : "reverse", " history ", history, " ", show(p)); });
    Problem other = reversed(p);
    const auto src = sources(p, fwd);
    auto ids = someIds(s, src, false);
    if (ids.size() > 3) { ids.resize(3); }
    const auto st = startSets(src, ids);
    auto make = [&] {
        auto t = std::make_unique<FD::Toolbox>(graphOf(p));
        t->assignPoreVolume(p.pv);
        if (history == 2) {
            t->assignConnectionFlux(fluxOf(other));
            t->assignInflowFlux(inflowOf(other));
            compute(*t, fwd, {});
        }
        t->assignConnectionFlux(fluxOf(p));
        t->assignInflowFlux(inflowOf(p));
        if (history == 1) { compute(*t, !fwd, {}); }
        return t;
    };
    std::unique_ptr<FD::Solution> want;
    long total = 0;
    for (int warm = 0; warm < 2; ++warm) {
        auto t = make();
        alloc::arm(-1, false);
        FD::Solution r = compute(*t, fwd, st);
        alloc::disarm();
        total = alloc::st().count;
        want = std::make_unique<FD::Solution>(std::move(r));
    }
    const int maxPoints = c.thorough ? 400 : bigger ? 24 : 60;
    std::vector<long> points;
    if (total <= maxPoints) { for (long k = 1; k <= total; ++k) { points.push_back(k); } }
    else {
        for (long k = 1; k <= maxPoints / 4; ++k) { points.push_back(k); points.push_back(total + 1 - k); }
        for (int k = 0; k < maxPoints / 2; ++k) { points.push_back(1 + static_cast<long>(s.draw(total))); }
    }
    c.label("all-points", total <= maxPoints);
    for (const long k : points) {
        for (const bool sticky : {false, true}) {
            bool threw = false, foreign = false;
            {
                auto t = make();
                alloc::arm(k, sticky);
                try { compute(*t, fwd, st); }
                catch (const std::exception&) { threw = true; }
                catch (...) { foreign = true; }
                alloc::disarm();
                // A failure of a non-throwing allocation may be covered by a fallback.
                const bool injected = alloc::st().injected > alloc::st().soft;
                c.checkf(!foreign, [&] { return str("allocation ", k, ": exception is not a std::exception"); });
                c.checkf(threw || !injected, [&] { return str("allocation ", k, " of ", total, " fails", sticky ? " (and later ones)" : "", " but the computation reports success"); });
                const FD::Solution again = compute(*t, fwd, st);
                sameSolution(c, p, fwd, ids, *want, again, str("retry after failure of allocation ", k, " of ", total));
                if (s.chance(1, 16)) {
                    const auto osrc = sources(p, !fwd);
                    FD::Toolbox fresh = toolboxOf(p);
                    const auto oi = idsOf(osrc);
                    sameSolution(c, p, !fwd, oi, compute(fresh, !fwd, startSets(osrc, oi)), compute(*t, !fwd, startSets(osrc, oi)), "other direction after failure");
                }
            }
        }
    }
    // Leak measurement without harness allocations in between (also without any failure).
    points.push_back(total + 1000000);
    for (const long k : points) {
        const long before = liveTotal();
        {
            auto t = make();
            alloc::arm(k, (k & 1) != 0);
            try { compute(*t, fwd, st); } catch (...) {}
            alloc::disarm();
        }
        const long leaked = liveTotal() - before;
        c.checkf(leaked == 0, [&] { return str(k > total ? "undisturbed computation" : "failure of allocation ", k, " of ", total, " leaks ", leaked, " blocks"); });
    }
    int reached = 0;
    for (const auto& id : ids) { reached = std::max(reached, static_cast<int>(want->concentration(FD::CellSetID(id)).size())); }
    c.nontrivial = reached >= 3;
    c.label("several-tracers", ids.size() > 1);
    c.label(str("history", history));
}
