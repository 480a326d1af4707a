// Flow problems: data type, generators, conversion to the public API and an
// independent reference solution (direct linear solves in long double).
#ifndef FLOW_HPP
#define FLOW_HPP

#include "pbt.hpp"

#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>

#include <memory>

namespace flow {

namespace FD = Opm::FlowDiagnostics;
using LD = long double;
using pbt::Src;
using pbt::Case;
using pbt::str;
using pbt::throwsA;

const double maxTof = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;

struct Problem
{
    int n = 0;
    std::vector<int> cells;                 // 2*E
    int nphase = 1;
    std::vector<double> flux;               // E*nphase, row major
    std::vector<double> pv;
    std::map<std::string, std::map<int, double>> inflow;
    bool conservative = false;
    std::string kind;

    int nconn() const { return static_cast<int>(cells.size() / 2); }
    LD total(int e) const
    {
        LD t = 0;
        for (int p = 0; p < nphase; ++p) { t += flux[static_cast<std::size_t>(e) * nphase + p]; }
        return t;
    }
};

inline std::string quote(const std::string& s)
{
    std::string o = "'";
    for (unsigned char c : s) {
        if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; } else { o += c; }
    }
    return o + "'";
}

inline std::string show(const Problem& p)
{
    std::ostringstream os;
    os.precision(17);
    os << "problem kind=" << p.kind << " cells=" << p.n << " conns=" << p.nconn() << " phases=" << p.nphase;
    if (p.nconn() > 40 || p.n > 40) { os << " (large, details omitted; wells=" << p.inflow.size() << ")"; return os.str(); }
    os << " conn:[";
    for (int e = 0; e < p.nconn(); ++e) {
        os << (e ? " " : "") << p.cells[2*e] << "-" << p.cells[2*e + 1] << ":";
        for (int k = 0; k < p.nphase; ++k) { os << (k ? "," : "") << p.flux[e * p.nphase + k]; }
    }
    os << "] pv:[";
    for (int i = 0; i < p.n; ++i) { os << (i ? " " : "") << p.pv[i]; }
    os << "] inflow:{";
    for (const auto& w : p.inflow) {
        os << quote(w.first) << ":{";
        for (const auto& q : w.second) { os << q.first << ":" << q.second << ' '; }
        os << "} ";
    }
    os << "}";
    return os.str();
}

// ---------------------------------------------------------------------
// Public API conversion
// ---------------------------------------------------------------------

inline FD::ConnectivityGraph graphOf(const Problem& p) { return FD::ConnectivityGraph(p.n, p.cells); }

inline FD::ConnectionValues fluxOf(const Problem& p)
{
    FD::ConnectionValues f(FD::ConnectionValues::NumConnections{static_cast<std::size_t>(p.nconn())},
                           FD::ConnectionValues::NumPhases{static_cast<std::size_t>(p.nphase)});
    for (int e = 0; e < p.nconn(); ++e) {
        for (int k = 0; k < p.nphase; ++k) {
            f(FD::ConnectionValues::ConnID{static_cast<std::size_t>(e)}, FD::ConnectionValues::PhaseID{static_cast<std::size_t>(k)})
                = p.flux[static_cast<std::size_t>(e) * p.nphase + k];
        }
    }
    return f;
}

inline std::map<FD::CellSetID, FD::CellSetValues> inflowOf(const Problem& p)
{
    std::map<FD::CellSetID, FD::CellSetValues> m;
    for (const auto& w : p.inflow) { m[FD::CellSetID(w.first)] = w.second; }
    return m;
}

inline FD::Toolbox toolboxOf(const Problem& p)
{
    FD::Toolbox t(graphOf(p));
    t.assignPoreVolume(p.pv);
    t.assignConnectionFlux(fluxOf(p));
    t.assignInflowFlux(inflowOf(p));
    return t;
}

// Wells that have flow of the wanted sign, with their cells (sign-adjusted, positive values).
inline std::map<std::string, std::map<int, double>> sources(const Problem& p, bool fwd)
{
    std::map<std::string, std::map<int, double>> r;
    for (const auto& w : p.inflow) {
        for (const auto& q : w.second) {
            const double v = fwd ? q.second : -q.second;
            if (v > 0.0) { r[w.first][q.first] = v; }
        }
    }
    return r;
}

inline std::vector<FD::CellSet> startSets(const std::map<std::string, std::map<int, double>>& src,
                                          const std::vector<std::string>& ids)
{
    std::vector<FD::CellSet> s;
    for (const auto& id : ids) {
        std::vector<int> c;
        for (const auto& q : src.at(id)) { c.push_back(q.first); }
        s.emplace_back(FD::CellSetID(id), c);
    }
    return s;
}

// As startSets, but a set may list any of the source cells (of whichever well), in any number: the
// tracer is that of the well the id names.
inline std::vector<FD::CellSet> looseStartSets(Src& s, const std::map<std::string, std::map<int, double>>& src,
                                               const std::vector<std::string>& ids)
{
    if (!s.chance(1, 6)) { return startSets(src, ids); }
    std::vector<int> any;
    for (const auto& w : src) { for (const auto& q : w.second) { any.push_back(q.first); } }
    std::vector<FD::CellSet> r;
    for (const auto& id : ids) {
        std::vector<int> c;
        for (const auto& q : src.at(id)) { if (s.chance(1, 2)) { c.push_back(q.first); } }
        if (s.chance(1, 3)) { c.push_back(s.pick(any)); }
        r.emplace_back(FD::CellSetID(id), c);
    }
    return r;
}

inline std::vector<std::string> idsOf(const std::map<std::string, std::map<int, double>>& src)
{
    std::vector<std::string> r;
    for (const auto& w : src) { r.push_back(w.first); }
    return r;
}

// Runs the wanted direction and returns a copy of the solution.
inline FD::Solution compute(FD::Toolbox& t, bool fwd, const std::vector<FD::CellSet>& s)
{
    if (fwd) { return t.computeInjectionDiagnostics(s).fd; }
    return t.computeProductionDiagnostics(s).fd;
}

// ---------------------------------------------------------------------
// Reference solution
// ---------------------------------------------------------------------

struct Field
{
    std::vector<char> reached;
    std::vector<char> faint;     // reached, but diluted (almost) beyond double range: may be absent, time is open
    std::vector<LD> T, tof;      // concentration, uncapped time-of-flight (NaN-free)
    std::vector<LD> eT, etof;    // admissible deviation
};

class Reference
{
public:
    bool ok = true;              // false: badly conditioned recirculation, case to be discarded
    bool ambiguous = false;      // fill time within rounding of the cap
    bool onCap = false;          // some fill time is exactly at the cap (not above)
    bool cyclic = false;
    int  largestScc = 1;
    LD   amplification = 1;
    int  capped = 0;
    bool allowFaint = false;     // false: cases with faint cells are discarded (ok becomes false)
    bool faint = false;

    Reference(const Problem& p, bool fwd)
        : n_(p.n), pv_(p.pv)
    {
        in_.resize(n_);
        out_.resize(n_);
        for (int e = 0; e < p.nconn(); ++e) {
            LD f = p.total(e);
            if (!fwd) { f = -f; }
            if (f > 0) { add(p.cells[2*e], p.cells[2*e + 1], f); }
            else if (f < 0) { add(p.cells[2*e + 1], p.cells[2*e], -f); }
        }
        Q_.assign(n_, 0);
        src_ = sources(p, fwd);
        for (const auto& w : src_) { for (const auto& q : w.second) { Q_[q.first] += q.second; } }
        I_ = Q_;
        for (int c = 0; c < n_; ++c) { for (const auto& x : in_[c]) { I_[c] += x.second; } }
        cap_.assign(n_, 0);
        for (int c = 0; c < n_; ++c) {
            const LD lim = static_cast<LD>(pv_[c]) / maxTof;
            cap_[c] = I_[c] < lim;
            if (I_[c] > 0 && std::fabs(static_cast<double>((I_[c] - lim) / I_[c])) < 1e-11) {
                // Decidable only if the cell is exactly on the cap and no rounding can occur.
                if (exactInflow(p, fwd, c) && std::fma(I_[c], static_cast<LD>(maxTof), -static_cast<LD>(pv_[c])) == 0) { cap_[c] = 0; onCap = true; }
                else { ambiguous = true; }
            }
            if (cap_[c] && I_[c] > 0) { ++capped; }
        }
        findScc();
    }

    const std::vector<LD>& inflowTotal() const { return I_; }
    // Whether the inflow of a cell is the same in any order of summation in double precision.
    bool exactInflow(const Problem& p, bool fwd, int c) const
    {
        const double tot = static_cast<double>(I_[c]);
        if (static_cast<LD>(tot) != I_[c] || !(tot > 1e-250)) { return false; }
        const double u = std::ldexp(1.0, std::ilogb(tot) - 51);
        for (int e = 0; e < p.nconn(); ++e) {
            if (p.cells[2*e] != c && p.cells[2*e + 1] != c) { continue; }
            for (int k = 0; k < p.nphase; ++k) {
                const double f = p.flux[static_cast<std::size_t>(e) * p.nphase + k];
                if (std::fmod(f, u) != 0 || std::fabs(f) > 16 * tot) { return false; }
            }
        }
        for (const auto& w : sources(p, fwd)) { const auto x = w.second.find(c); if (x != w.second.end() && std::fmod(x->second, u) != 0) { return false; } }
        return true;
    }
    const std::map<std::string, std::map<int, double>>& wells() const { return src_; }
    std::map<int, double> allSources() const
    {
        std::map<int, double> m;
        for (int c = 0; c < n_; ++c) { if (Q_[c] > 0) { m[c] = static_cast<double>(Q_[c]); } }
        return m;
    }

    std::vector<char> reach(const std::map<int, double>& start) const
    {
        std::vector<char> r(n_, 0);
        std::vector<int> st;
        for (const auto& s : start) { if (!r[s.first]) { r[s.first] = 1; st.push_back(s.first); } }
        while (!st.empty()) {
            const int u = st.back(); st.pop_back();
            for (int v : out_[u]) { if (!r[v]) { r[v] = 1; st.push_back(v); } }
        }
        return r;
    }

    // Solution for tracer source s (cell -> value).
    Field solve(const std::map<int, double>& start)
    {
        Field F;
        F.reached = reach(start);
        F.faint.assign(n_, 0);
        F.T.assign(n_, 0); F.tof.assign(n_, maxTof); F.eT.assign(n_, 0); F.etof.assign(n_, 0);
        std::vector<LD> s(n_, 0), z(n_, 0), ez(n_, 0);
        for (const auto& q : start) { s[q.first] = q.second; }
        const LD tolT = 1e-9L, tolTof = static_cast<LD>(maxTof) / 1e12L;
        for (std::size_t k = 0; k < comps_.size(); ++k) {
            const auto& comp = comps_[k];
            if (!F.reached[comp[0]]) { continue; }
            const bool multi = comp.size() > 1;
            std::vector<LD> b(comp.size()), x;
            // concentration
            for (std::size_t i = 0; i < comp.size(); ++i) {
                const int c = comp[i];
                b[i] = s[c];
                for (const auto& u : in_[c]) { if (scc_[u.first] != scc_[c]) { b[i] += F.T[u.first] * u.second; } }
                b[i] /= I_[c];
            }
            solveBlock(k, false, b, x);
            for (std::size_t i = 0; i < comp.size(); ++i) {
                F.T[comp[i]] = x[i];
                if (x[i] < faintLimit) { F.faint[comp[i]] = 1; faint = true; ok = ok && allowFaint; }
            }
            // its deviation
            for (std::size_t i = 0; i < comp.size(); ++i) {
                const int c = comp[i];
                LD r = 0, inner = 0;
                for (const auto& u : in_[c]) {
                    if (scc_[u.first] != scc_[c]) { r += F.eT[u.first] * u.second; } else { inner += u.second; }
                }
                b[i] = r / I_[c] + (multi ? tolT * inner / I_[c] : 0) + 1e-15L * (in_[c].size() + 4) * F.T[c] + 1e-300L;
            }
            solveBlock(k, false, b, x);
            for (std::size_t i = 0; i < comp.size(); ++i) { F.eT[comp[i]] = x[i]; }
            // z = T * tof
            for (std::size_t i = 0; i < comp.size(); ++i) {
                const int c = comp[i];
                if (cap_[c]) { b[i] = maxTof * F.T[c]; continue; }
                b[i] = pv_[c] * F.T[c];
                for (const auto& u : in_[c]) { if (scc_[u.first] != scc_[c]) { b[i] += z[u.first] * u.second; } }
                b[i] /= I_[c];
            }
            solveBlock(k, true, b, x);
            for (std::size_t i = 0; i < comp.size(); ++i) {
                z[comp[i]] = x[i];
                F.tof[comp[i]] = F.T[comp[i]] > 0 ? x[i] / F.T[comp[i]] : static_cast<LD>(maxTof);
            }
            for (std::size_t i = 0; i < comp.size(); ++i) {
                const int c = comp[i];
                if (cap_[c]) { b[i] = maxTof * F.eT[c]; continue; }
                LD r = pv_[c] * F.eT[c];
                for (const auto& u : in_[c]) {
                    if (scc_[u.first] != scc_[c]) { r += ez[u.first] * u.second; }
                    else if (multi) { r += u.second * (F.T[u.first] * tolTof + F.tof[u.first] * tolT + tolT * tolTof); }
                }
                b[i] = r / I_[c] + 1e-15L * (in_[c].size() + 6) * z[c];
            }
            solveBlock(k, true, b, x);
            for (std::size_t i = 0; i < comp.size(); ++i) {
                const int c = comp[i];
                ez[c] = x[i];
                if (F.T[c] > 0) {
                    if (F.eT[c] > F.T[c] / 2) { vague_ = true; F.etof[c] = 1e300L; }
                    else { F.etof[c] = (ez[c] + F.tof[c] * F.eT[c]) / (F.T[c] - F.eT[c]); }
                    if (cap_[c]) { F.etof[c] = 0; }
                }
            }
        }
        return F;
    }
    static constexpr LD faintLimit = 1e-280L;
    bool vague() const { return vague_; }

    // Admissible absolute deviations (slack factor included).
    static LD tolT(const Field& f, int c) { return 2 * f.eT[c] + 1e-11L * f.T[c]; }
    static LD tolTof(const Field& f, int c)
    {
        return 2 * f.etof[c] + 1e-11L * std::min<LD>(f.tof[c], maxTof);
    }
    static LD expectTof(const Field& f, int c) { return std::min<LD>(f.tof[c], maxTof); }

private:
    int n_;
    std::vector<double> pv_;
    std::vector<std::vector<std::pair<int, LD>>> in_;   // incoming (upwind cell, flux), aggregated per connection
    std::vector<std::vector<int>> out_;
    std::vector<LD> Q_, I_;
    std::vector<char> cap_;
    std::map<std::string, std::map<int, double>> src_;
    std::vector<int> scc_;
    std::vector<std::vector<int>> comps_;               // topological order
    bool vague_ = false;

    struct Lu { std::vector<LD> a; bool done = false; };
    std::vector<Lu> luT_, luZ_;
    std::vector<char> hasCap_;

    void add(int u, int v, LD f) { in_[v].push_back({u, f}); out_[u].push_back(v); }

    // Kosaraju, iterative: independent of the library's algorithm.
    void findScc()
    {
        std::vector<int> order;
        std::vector<char> seen(n_, 0);
        for (int r = 0; r < n_; ++r) {
            if (seen[r]) { continue; }
            std::vector<std::pair<int, std::size_t>> st{{r, 0}};
            seen[r] = 1;
            while (!st.empty()) {
                auto& top = st.back();
                if (top.second < out_[top.first].size()) {
                    const int v = out_[top.first][top.second++];
                    if (!seen[v]) { seen[v] = 1; st.push_back({v, 0}); }
                } else { order.push_back(top.first); st.pop_back(); }
            }
        }
        scc_.assign(n_, -1);
        for (auto it = order.rbegin(); it != order.rend(); ++it) {
            if (scc_[*it] >= 0) { continue; }
            const int id = static_cast<int>(comps_.size());
            comps_.emplace_back();
            std::vector<int> st{*it};
            scc_[*it] = id;
            while (!st.empty()) {
                const int v = st.back(); st.pop_back();
                comps_[id].push_back(v);
                for (const auto& u : in_[v]) { if (scc_[u.first] < 0) { scc_[u.first] = id; st.push_back(u.first); } }
            }
        }
        luT_.resize(comps_.size()); luZ_.resize(comps_.size());
        hasCap_.assign(comps_.size(), 0);
        const auto all = reach(allSources());
        for (std::size_t k = 0; k < comps_.size(); ++k) {
            const auto& c = comps_[k];
            for (int v : c) { hasCap_[k] = hasCap_[k] || cap_[v]; }
            if (c.size() > 1) {
                cyclic = true;
                largestScc = std::max(largestScc, static_cast<int>(c.size()));
                if (all[c[0]]) {
                    std::vector<LD> b(c.size(), 1), x;
                    solveBlock(k, false, b, x);
                    LD g = 1;
                    for (LD v : x) { g = std::max(g, v); if (!(v >= 0.5L)) { ok = false; } }
                    amplification = std::max(amplification, g);
                    if (!(g * static_cast<LD>(c.size()) < 2e5L)) { ok = false; }
                }
            }
        }
    }

    static constexpr std::size_t denseLimit = 160;

    // Solves (I - M) x = b on component k; with zForm capped rows are identity.
    void solveBlock(std::size_t k, bool zForm, const std::vector<LD>& b, std::vector<LD>& x)
    {
        const auto& comp = comps_[k];
        const std::size_t m = comp.size();
        x = b;
        if (m == 1) { return; }
        const bool special = zForm && hasCap_[k];
        if (m > denseLimit) {
            // Gauss-Seidel in extended precision until stationary.
            std::vector<LD> full(n_, 0);
            for (int it = 0; it < 100000; ++it) {
                LD d = 0;
                for (std::size_t i = 0; i < m; ++i) {
                    const int c = comp[i];
                    LD v = b[i];
                    if (!(special && cap_[c])) {
                        LD t = 0;
                        for (const auto& u : in_[c]) { if (scc_[u.first] == scc_[c]) { t += full[u.first] * u.second; } }
                        v += t / I_[c];
                    }
                    const LD den = std::max(std::fabs(v), std::fabs(full[c]));
                    if (den > 0) { d = std::max(d, std::fabs(v - full[c]) / den); }
                    full[c] = v;
                }
                if (d < 1e-17L) { break; }
                if (it == 99999 || (it == 3000 && d > 1e-3L)) { ok = false; break; }
            }
            for (std::size_t i = 0; i < m; ++i) { x[i] = full[comp[i]]; }
            return;
        }
        Lu& lu = special ? luZ_[k] : luT_[k];
        if (!lu.done) {
            std::map<int, std::size_t> loc;
            for (std::size_t i = 0; i < m; ++i) { loc[comp[i]] = i; }
            lu.a.assign(m * m, 0);
            for (std::size_t i = 0; i < m; ++i) {
                lu.a[i*m + i] = 1;
                if (special && cap_[comp[i]]) { continue; }
                for (const auto& u : in_[comp[i]]) {
                    const auto p = loc.find(u.first);
                    if (p != loc.end()) { lu.a[i*m + p->second] -= u.second / I_[comp[i]]; }
                }
            }
            for (std::size_t j = 0; j < m; ++j) {
                const LD piv = lu.a[j*m + j];
                if (!(piv > 1e-15L)) { ok = false; }
                for (std::size_t i = j + 1; i < m; ++i) {
                    const LD f = lu.a[i*m + j] / piv;
                    lu.a[i*m + j] = f;
                    if (f != 0) { for (std::size_t q = j + 1; q < m; ++q) { lu.a[i*m + q] -= f * lu.a[j*m + q]; } }
                }
            }
            lu.done = true;
        }
        for (std::size_t i = 0; i < m; ++i) { for (std::size_t j = 0; j < i; ++j) { x[i] -= lu.a[i*m + j] * x[j]; } }
        for (std::size_t i = m; i-- > 0;) {
            for (std::size_t j = i + 1; j < m; ++j) { x[i] -= lu.a[i*m + j] * x[j]; }
            x[i] /= lu.a[i*m + i];
        }
    }
};

// ---------------------------------------------------------------------
// Generators
// ---------------------------------------------------------------------

struct GenOpt
{
    bool needConservative = false;
    bool acyclicOnly = false;
    bool allowLarge = true;
    int  maxSmall = 40;          // ordinary size limit
    int  maxLarge = 3000;
    bool wide = true;            // allow magnitudes over many decades (acyclic)
    bool manyWells = true;       // rarely, hundreds of wells
};

inline std::string genId(Src& s)
{
    static const std::vector<std::string> base{
        "I-1", "P-1", "I-2", "P-2", "INJ", "PROD", "I-10", "I-11", "", "i-1", "I-1 ", "a", "b", "aa", "ab", "A", "W1", "W01",
        "well with a rather long name that exceeds the small string buffer 1",
        "well with a rather long name that exceeds the small string buffer 2"};
    switch (s.weighted({12, 6, 2, 1})) {
    case 3: return std::string(s.chance(1, 12) ? s.pick(std::vector<int>{1023, 4100}) : s.pick(std::vector<int>{6, 7, 8, 14, 15, 16, 31, 32, 63, 64, 127, 255, 300}), 'x') + std::to_string(s.range(0, 11)); // long common prefix
    case 0: return s.pick(base);
    case 1: return "W" + std::to_string(s.range(0, 99));
    default: {
        std::string r;
        const int n = s.range(0, 6);
        for (int i = 0; i < n; ++i) { r += static_cast<char>(s.range(0, 255)); }
        return r;
    }
    }
}

inline std::string freshId(Src& s, const std::map<std::string, std::map<int, double>>& used)
{
    std::string id = genId(s);
    int k = 0;
    while (used.count(id)) { id = "N" + std::to_string(k++); }
    return id;
}

// Undirected topology.
inline std::string genTopology(Src& s, int n, std::vector<int>& cells, bool sparse)
{
    cells.clear();
    auto conn = [&](int a, int b) { if (a != b) { cells.push_back(a); cells.push_back(b); } };
    std::string kind;
    switch (s.weighted({4, 4, 4, 2, 2, 1, 2})) {
    case 0: { // random
        kind = "random";
        const int m = s.range(1, sparse ? 3 * n : 4 * n);
        for (int i = 0; i < m; ++i) { conn(s.range(0, n - 1), s.range(0, n - 1)); }
        break;
    }
    case 1: // chain
        kind = "chain";
        for (int i = 0; i + 1 < n; ++i) { conn(i, i + 1); }
        break;
    case 2: { // grid
        kind = "grid";
        int nx = 1;
        while ((nx + 1) * (nx + 1) <= n) { ++nx; }
        if (s.chance(1, 3) && nx > 1) { nx = s.range(1, nx); }
        for (int c = 0; c < n; ++c) {
            if ((c % nx) + 1 < nx && c + 1 < n) { conn(c, c + 1); }
            if (c + nx < n) { conn(c, c + nx); }
        }
        break;
    }
    case 3: { // hub
        kind = "hub";
        const int h = s.range(0, n - 1);
        for (int i = 0; i < n; ++i) { if (i != h) { if (s.chance(1, 2)) { conn(i, h); } else { conn(h, i); } } }
        break;
    }
    case 4: { // tree
        kind = "tree";
        for (int i = 1; i < n; ++i) { conn(s.range(0, i - 1), i); }
        break;
    }
    case 5: // dense
        kind = "dense";
        for (int i = 0; i < n; ++i) { for (int j = i + 1; j < std::min(n, i + 12); ++j) { if (s.chance(3, 4)) { conn(i, j); } } }
        break;
    default: { // ring + chords
        kind = "ring";
        for (int i = 0; i < n; ++i) { conn(i, (i + 1) % n); }
        const int m = s.range(0, 3);
        for (int i = 0; i < m; ++i) { conn(s.range(0, n - 1), s.range(0, n - 1)); }
    }
    }
    // Non-neighbouring / repeated connections.
    if (s.chance(1, 2)) {
        const int m = s.range(1, std::max(1, std::min(n, 6)));
        for (int i = 0; i < m; ++i) {
            if (!cells.empty() && s.chance(1, 2)) {
                const int e = static_cast<int>(s.draw(cells.size() / 2));
                const int a = cells[2*e], b = cells[2*e + 1];
                if (s.chance(1, 2)) { conn(a, b); } else { conn(b, a); }
            } else { conn(s.range(0, n - 1), s.range(0, n - 1)); }
        }
    }
    if (cells.empty()) { cells = {0, 1}; }
    // Arbitrary numbering of connection order.
    if (s.chance(1, 3)) {
        std::vector<int> perm(cells.size() / 2);
        for (std::size_t i = 0; i < perm.size(); ++i) { perm[i] = static_cast<int>(i); }
        s.shuffle(perm);
        std::vector<int> c2;
        for (int e : perm) { c2.push_back(cells[2*e]); c2.push_back(cells[2*e + 1]); }
        cells.swap(c2);
    }
    return kind;
}

// Distributes integer totals (times unit) over phases without rounding.
inline void spreadPhases(Src& s, Problem& p, const std::vector<long long>& tot, const std::vector<double>& unit)
{
    const std::size_t E = tot.size();
    p.flux.assign(E * p.nphase, 0.0);
    if (p.nphase == 0) { return; }
    for (std::size_t e = 0; e < E; ++e) {
        long long rest = tot[e];
        for (int k = 0; k + 1 < p.nphase; ++k) {
            long long part = 0;
            switch (s.weighted({2, 3, 1})) {
            case 0: break;
            case 1: part = rest / 2; break;
            default: part = static_cast<long long>(s.draw(2001)) - 1000;
            }
            p.flux[e * p.nphase + k] = static_cast<double>(part) * unit[e];
            rest -= part;
        }
        p.flux[e * p.nphase + p.nphase - 1] = static_cast<double>(rest) * unit[e];
    }
}

inline Problem genProblem(Case& cs, const GenOpt& o = GenOpt())
{
    Src* sp = &cs.s;
    Src& s0 = cs.s;
    Problem p;
    // Size class.
    bool large = false;
    switch (s0.weighted({50, 30, 16, o.allowLarge ? 1 : 0})) {
    case 0: p.n = s0.range(2, 7); break;
    case 1: p.n = s0.range(4, std::max(5, o.maxSmall / 2)); break;
    case 2: p.n = s0.range(o.maxSmall / 2, o.maxSmall); break;
    default: large = true; p.n = s0.range(200, o.maxLarge);
    }
    Src bulk(large ? s0.draw(1ULL << 32) : 0);
    if (large) { sp = &bulk; }
    Src& s = *sp;

    std::string topo;
    if (!large && s0.chance(1, 120)) { // isolated cells only
        topo = "no-connections";
        if (s0.chance(1, 2)) { p.n = 1; }
    } else { topo = genTopology(s, p.n, p.cells, large); }
    const int E = p.nconn();

    // Flow family.
    enum { Conservative, Potential, Generic };
    int fam = o.needConservative ? Conservative : (o.acyclicOnly ? (s0.chance(1, 3) ? Conservative : Potential) : s0.weighted({4, 3, 4}));
    const bool acyclic = o.acyclicOnly || fam == Potential || (fam == Conservative && s.chance(1, 3));
    // Magnitude regime (unit of integer amounts; power of two so that sums are exact).
    const int regime = s0.weighted({3, 5, 3});
    double unit = 1.0 / 16, pvUnit = 0.25;
    int pvMax = 64;
    if (regime == 1) { unit = std::ldexp(1.0, -s0.range(14, 22)); pvUnit = 1.0; pvMax = 5000; }
    if (regime == 2) { unit = std::ldexp(1.0, -s0.range(24, 34)); pvUnit = 1.0; pvMax = 1000; }
    const int amountMax = s0.pick(std::vector<int>{10, 100, 1000, 1});
    switch (s0.weighted({6, 3, 2, 1})) {
    case 0: p.nphase = 1; break;
    case 1: p.nphase = 2; break;
    case 2: p.nphase = 3; break;
    default: p.nphase = s0.chance(1, 12) ? (s0.chance(1, 8) && !large ? s0.range(41, 300) : s0.range(7, 40)) : s0.range(1, 6);
    }

    std::vector<int> rank(p.n);
    for (int i = 0; i < p.n; ++i) { rank[i] = i; }
    if (s.chance(1, 2)) { s.shuffle(rank); }

    std::vector<long long> tot(E, 0);
    std::vector<double> cu(E, unit);
    std::vector<std::pair<int, long long>> src;      // (cell, signed amount)
    std::string famName;

    if (fam == Conservative) {
        famName = "conservative";
        p.conservative = true;
        std::vector<std::vector<int>> inc(p.n);
        for (int e = 0; e < E; ++e) { inc[p.cells[2*e]].push_back(e); inc[p.cells[2*e + 1]].push_back(e); }
        const int npath = large ? s.range(p.n / 20 + 1, p.n / 4 + 1) : s.range(1, 6);
        auto step = [&](int& c, long long a, bool up) {
            if (inc[c].empty()) { return false; }
            for (int t = 0; t < 4; ++t) {
                const int e = inc[c][s.draw(inc[c].size())];
                const int d = (p.cells[2*e] == c) ? p.cells[2*e + 1] : p.cells[2*e];
                if (up && rank[d] < rank[c]) { continue; }
                tot[e] += (p.cells[2*e] == c) ? a : -a;
                c = d;
                return true;
            }
            return false;
        };
        for (int k = 0; k < npath; ++k) {
            int c = s.range(0, p.n - 1);
            const long long a = s.range(1, amountMax);
            src.push_back({c, a});
            const int len = s.range(0, large ? 60 : 2 * p.n);
            for (int i = 0; i < len; ++i) { if (!step(c, a, acyclic)) { break; } }
            src.push_back({c, -a});
        }
        if (!acyclic && s.chance(2, 3)) {
            // Circulations: walk until a cell repeats and keep the loop.
            const int ncirc = large ? s.range(1, p.n / 10 + 1) : s.range(1, 3);
            for (int k = 0; k < ncirc; ++k) {
                const auto save = tot;
                int c = s.range(0, p.n - 1);
                const int home = c;
                const long long a = s.range(1, amountMax);
                bool closed = false;
                for (int i = 0; i < (large ? 12 : 3 * p.n); ++i) {
                    if (!step(c, a, false)) { break; }
                    if (c == home) { closed = true; break; }
                }
                if (!closed) { tot = save; }
            }
        }
    } else {
        const bool wide = o.wide && acyclic && regime == 1 && s0.chance(1, 4);
        famName = acyclic ? (wide ? "potential-wide" : "potential") : "generic";
        for (int e = 0; e < E; ++e) {
            if (s.chance(1, 10)) { continue; }
            long long a = s.range(1, amountMax);
            bool neg = s.chance(1, 2);
            if (acyclic) { neg = rank[p.cells[2*e]] > rank[p.cells[2*e + 1]]; }
            tot[e] = neg ? -a : a;
            if (wide) { cu[e] = std::ldexp(1.0, s.range(-40, 10)); }
        }
        const int nsrc = large ? s.range(p.n / 12 + 1, p.n / 2) : s.range(1, std::max(2, std::min(p.n, 8)));
        for (int k = 0; k < nsrc; ++k) {
            const long long a = s.range(1, amountMax);
            src.push_back({s.range(0, p.n - 1), s.chance(2, 5) ? -a : a});
        }
    }
    if (p.conservative && p.nphase == 0) { p.nphase = 1; }
    spreadPhases(s, p, tot, cu);

    // Pore volumes.
    p.pv.resize(p.n);
    const bool zeros = s0.chance(1, 8);
    for (int c = 0; c < p.n; ++c) {
        p.pv[c] = s.range(1, pvMax) * pvUnit;
        if (zeros && s.chance(1, 5)) { p.pv[c] = 0.0; }
    }
    if (!p.conservative && p.nphase == 1 && s0.chance(1, 5)) {
        // Arbitrary (non-dyadic) magnitudes.
        famName += "-rough";
        for (auto& f : p.flux) { f *= 0.3 + 0.1 * static_cast<double>(s.draw(7)); }
        for (auto& v : p.pv) { v *= 0.7; }
    }

    // Wells: distribute the sources over wells.
    const int nw = large ? s.range(1, 12) : s.range(1, 6);
    std::vector<std::string> ids;
    {
        std::map<std::string, std::map<int, double>> used;
        for (int w = 0; w < nw; ++w) { const auto id = freshId(s, used); used[id]; ids.push_back(id); }
    }
    const bool cross = s0.chance(1, 3);
    for (const auto& q : src) {
        int w = static_cast<int>(s.draw(ids.size()));
        if (!cross) { // separate injecting and producing wells
            if (q.second > 0) { w = (w / 2) * 2 % nw; if (nw > 1 && w % 2) { w = 0; } }
            else { w = (w / 2) * 2 + 1; if (w >= nw) { w = nw - 1; } }
        }
        auto& well = p.inflow[ids[w]];
        const double v = static_cast<double>(q.second) * unit;
        const auto it = well.find(q.first);
        if (it == well.end()) { well[q.first] = v; }
        else if ((it->second > 0) == (v > 0)) { it->second += v; }
        else { // same cell, opposite sign in this well: put it in another (new) well
            const auto id = freshId(s, p.inflow);
            p.inflow[id][q.first] = v;
        }
    }
    bool many = false;
    if (o.allowLarge && o.manyWells && !large && s0.chance(1, 300)) { // very many wells
        many = true;
        const int k = s0.pick(std::vector<int>{20, 70, 130, 260, 300});
        Src b = s0.bulk();
        for (int i = 0; i < k; ++i) {
            const int at = b.range(0, p.n - 1);
            const double v = b.range(1, 4) * unit;
            p.inflow["m" + std::to_string(i)][at] = v;
            p.inflow["w" + std::to_string(i)][at] = -v;
        }
    }
    if (s.chance(1, 6) && !p.inflow.empty()) { p.inflow.begin()->second.insert({s.range(0, p.n - 1), 0.0}); }
    p.kind = topo + "/" + famName + "/r" + std::to_string(regime) + (large ? "/large" : "") + (many ? "/many-wells" : "");
    return p;
}

// Uniform oblique flow through a grid: the tracer of one inflow row is diluted in every cell, down to
// (and below) the smallest double.
inline Problem genDilution(Src& s)
{
    Problem p;
    const int nx = s.range(20, 420), ny = s.range(2, 4);
    const double a = std::ldexp(1.0, -s.range(0, 30)), b = a * std::ldexp(1.0, s.range(0, 10));
    p.n = nx * ny;
    p.nphase = 1;
    p.conservative = true;
    auto id = [&](int i, int j) { return i * ny + j; };
    for (int i = 0; i < nx; ++i) {
        for (int j = 0; j < ny; ++j) {
            if (i + 1 < nx) { p.cells.push_back(id(i, j)); p.cells.push_back(id(i + 1, j)); p.flux.push_back(a); }
            if (j + 1 < ny) { p.cells.push_back(id(i, j)); p.cells.push_back(id(i, j + 1)); p.flux.push_back(b); }
        }
    }
    p.pv.resize(p.n);
    const bool zeros = s.chance(1, 3);
    Src bulk = s.bulk();
    for (double& v : p.pv) { v = bulk.range(1, 1000); if (zeros && bulk.chance(1, 3)) { v = 0; } }
    const int row = s.range(1, ny - 1);
    for (int j = 0; j < ny; ++j) { p.inflow[j == row ? "A" : "W"][id(0, j)] += a; p.inflow[j == row ? "Q" : "E"][id(nx - 1, j)] -= a; }
    for (int i = 0; i < nx; ++i) { p.inflow["S"][id(i, 0)] += b; p.inflow["N"][id(i, ny - 1)] -= b; }
    p.kind = "dilution";
    return p;
}

// Problems with far more cells than 16-bit counters can number: chains, layers and grids, optionally with
// many small circulations.  The reference solution is linear in the number of cells.
inline Problem genHuge(Src& s0)
{
    Problem p;
    p.n = s0.range(66000, 150000);
    p.nphase = s0.range(1, 2);
    const int shape = static_cast<int>(s0.draw(3));
    const bool renumber = s0.chance(1, 2), loops = s0.chance(1, 3);
    Src s = s0.bulk();
    std::vector<int> num(p.n);
    for (int i = 0; i < p.n; ++i) { num[i] = i; }
    if (renumber) { s.shuffle(num); }
    auto conn = [&](int a, int b, double f) {
        const bool flip = s.chance(1, 2);
        p.cells.push_back(num[flip ? b : a]); p.cells.push_back(num[flip ? a : b]);
        for (int k = 0; k < p.nphase; ++k) { p.flux.push_back((flip ? -1 : 1) * (k == 0 ? f : f / 4)); }
    };
    if (shape == 0) { for (int i = 0; i + 1 < p.n; ++i) { conn(i, i + 1, 4.0); } }
    else if (shape == 1) {
        for (int i = 0; i < p.n; ++i) { for (int k = 0; k < 2; ++k) { const int j = i + 1 + s.range(0, 60); if (j < p.n) { conn(i, j, s.range(1, 9)); } } }
    } else {
        const int ny = s.range(2, 400);
        for (int i = 0; i < p.n; ++i) {
            if (i + ny < p.n) { conn(i, i + ny, s.range(1, 20)); }
            if ((i + 1) % ny != 0 && i + 1 < p.n) { conn(i, i + 1, 0.25 * s.range(1, 4)); }
        }
    }
    if (loops) { for (int k = 0; k < p.n / 500; ++k) { const int i = 500 * k + s.range(0, 200); if (i + 1 < p.n) { conn(i + 1, i, 0.5 * s.range(1, 3)); } } }
    p.pv.resize(p.n);
    for (double& v : p.pv) { v = s.range(0, 100); }
    p.inflow["I"][num[0]] = 4.0;
    p.inflow["I2"][num[s.range(0, p.n - 1)]] = 0.5;
    p.inflow["P"][num[p.n - 1]] = -4.0;
    p.inflow["P2"][num[s.range(0, p.n - 1)]] = -0.5;
    if (s0.chance(1, 2)) { // wells in very many cells (aquifers)
        const int k = s0.pick(std::vector<int>{300, 1500, 5000, 20000, 66000});
        const double rate = s0.chance(1, 2) ? 0.5 : 0.0625;
        for (int i = 0; i < k; ++i) { p.inflow["AQ"][num[s.range(0, p.n - 1)]] = rate; p.inflow["EX"][num[s.range(0, p.n - 1)]] = -rate; }
    }
    p.kind = shape == 0 ? "huge-chain" : shape == 1 ? "huge-layers" : "huge-grid";
    if (loops) { p.kind += "-loops"; }
    return p;
}

// Gives some cells the pore volume that takes exactly 200 years to fill.
inline void putOnCap(Src& s, Problem& p, bool fwd)
{
    const Reference r(p, fwd);
    const auto I = r.inflowTotal();
    for (int k = s.range(1, 3); k > 0; --k) {
        const int c = s.range(0, p.n - 1);
        const double v = static_cast<double>(I[c]) * maxTof;
        if (v > 0 && r.exactInflow(p, fwd, c) && std::fma(I[c], static_cast<LD>(maxTof), -static_cast<LD>(v)) == 0) { p.pv[c] = v; }
    }
}

// Reference in both directions, with the conditioning filter applied.
struct Solved
{
    std::unique_ptr<Reference> ref;
    Field global;
};

inline void precondition(Case& c, const Reference& r)
{
    if (!r.ok || r.ambiguous) { c.discard(); }
}

// Discards problems whose recirculation is too badly conditioned (either direction).
inline void wellConditioned(Case& c, const Problem& p)
{
    for (const bool fwd : {true, false}) { const Reference r(p, fwd); precondition(c, r); }
}

inline bool close(LD a, LD b, LD tol) { return std::fabs(a - b) <= tol; }

// Ids of a random selection of the given wells, in random order.
inline std::vector<std::string> someIds(Src& s, const std::map<std::string, std::map<int, double>>& src, bool all)
{
    auto ids = idsOf(src);
    if (!all && s.chance(1, 3)) {
        std::vector<std::string> r;
        for (const auto& i : ids) { if (s.chance(1, 2)) { r.push_back(i); } }
        ids.swap(r);
    }
    if (s.chance(1, 3)) { s.shuffle(ids); }
    return ids;
}

// Checks of computed fields against the reference.
inline void checkGlobal(Case& c, const Problem& p, const Field& f, const std::vector<double>& tof, const std::string& what)
{
    c.checkf(static_cast<int>(tof.size()) == p.n, [&] { return str(what, ": global ToF has ", tof.size(), " values for ", p.n, " cells"); });
    for (int i = 0; i < p.n; ++i) {
        const LD want = Reference::expectTof(f, i), tol = Reference::tolTof(f, i);
        if (f.faint[i]) { c.checkf(tof[i] >= 0 && tof[i] <= maxTof, [&] { return str(what, ": global ToF of cell ", i, " out of range: ", tof[i]); }); continue; }
        c.checkf(close(tof[i], want, tol), [&] {
            return str(what, ": global ToF of cell ", i, " is ", tof[i], ", expected ", (double) want, " +- ", (double) tol, f.reached[i] ? "" : " (not reached)"); });
        c.checkf(tof[i] <= maxTof, [&] { return str(what, ": global ToF of cell ", i, " exceeds the cap: ", tof[i]); });
    }
}

inline void checkSupport(Case& c, const Problem& p, const Field& f, const FD::CellSetValues& v, const std::string& what)
{
    for (const auto& x : v) {
        c.checkf(x.first >= 0 && x.first < p.n && f.reached[x.first], [&] { return str(what, ": value stored for unreachable cell ", x.first); });
    }
    for (int i = 0; i < p.n; ++i) {
        c.checkf(!f.reached[i] || f.faint[i] || v.count(i) == 1, [&] { return str(what, ": no value for reachable cell ", i); });
    }
}

inline void checkConc(Case& c, const Problem& p, const Field& f, const FD::CellSetValues& v, const std::string& what)
{
    checkSupport(c, p, f, v, what);
    for (const auto& x : v) {
        const LD want = f.T[x.first], tol = Reference::tolT(f, x.first);
        if (f.faint[x.first]) { c.checkf(x.second > 0.0 && x.second < 1e-270, [&] { return str(what, ": concentration of cell ", x.first, " is ", x.second, ", expected ", (double) want); }); continue; }
        c.checkf(close(x.second, want, tol), [&] {
            return str(what, ": concentration of cell ", x.first, " is ", x.second, ", expected ", (double) want, " +- ", (double) tol); });
        c.checkf(x.second > 0.0 && x.second <= 1.0 + (double) tol, [&] { return str(what, ": concentration out of (0,1]: ", x.second); });
    }
}

inline void checkTracerTof(Case& c, const Problem& p, const Field& f, const FD::CellSetValues& v, const std::string& what)
{
    checkSupport(c, p, f, v, what);
    for (const auto& x : v) {
        const LD want = Reference::expectTof(f, x.first), tol = Reference::tolTof(f, x.first);
        if (f.faint[x.first]) { c.checkf(x.second >= 0.0 && x.second <= maxTof, [&] { return str(what, ": tracer ToF of cell ", x.first, " out of range: ", x.second); }); continue; }
        c.checkf(close(x.second, want, tol), [&] {
            return str(what, ": tracer ToF of cell ", x.first, " is ", x.second, ", expected ", (double) want, " +- ", (double) tol); });
        c.checkf(x.second <= maxTof, [&] { return str(what, ": tracer ToF of cell ", x.first, " exceeds the cap"); });
    }
}

inline void labelProblem(Case& c, const Problem& p, const Reference& r)
{
    c.label("cyclic", r.cyclic);
    c.label("scc>=3", r.largestScc >= 3);
    c.label("scc>=100", r.largestScc >= 100);
    c.label("capped-cells", r.capped > 0);
    c.label("exactly-on-cap", r.onCap);
    c.label("faint-cells", r.faint);
    c.label("conservative", p.conservative);
    c.label("multi-phase", p.nphase > 1);
    c.label("large", p.n >= 200);
    c.label("huge", p.n > 65536);
    bool cross = false, shared = false;
    std::map<int, int> cnt;
    for (const auto& w : p.inflow) {
        bool a = false, b = false;
        for (const auto& q : w.second) { a = a || q.second > 0; b = b || q.second < 0; if (++cnt[q.first] > 1) { shared = true; } }
        cross = cross || (a && b);
    }
    c.label("crossflow-well", cross);
    c.label("cell-shared-by-wells", shared);
}

// Number of cells that mix at least two upwind sources.
inline int mixingCells(const Problem& p, bool fwd)
{
    std::vector<int> k(p.n, 0);
    for (int e = 0; e < p.nconn(); ++e) {
        LD f = p.total(e);
        if (!fwd) { f = -f; }
        if (f > 0) { ++k[p.cells[2*e + 1]]; } else if (f < 0) { ++k[p.cells[2*e]]; }
    }
    for (const auto& w : sources(p, fwd)) { for (const auto& q : w.second) { ++k[q.first]; } }
    int m = 0;
    for (int x : k) { m += x >= 2; }
    return m;
}

// Compares two solutions of the same problem (b's cells may be renumbered: cell i of a is cell
// perm[i] of b; ids renamed by ren).  Bitwise equal results pass at once; otherwise every value has to
// agree within twice the admissible deviation of the solver, computed from the reference solution.
struct Mapping
{
    std::vector<int> perm;                          // empty: identity
    std::map<std::string, std::string> ren;         // missing: identity
    int cell(int i) const { return perm.empty() ? i : perm[i]; }
    std::string id(const std::string& s) const { const auto p = ren.find(s); return p == ren.end() ? s : p->second; }
};

inline bool bitEqual(double a, double b) { return a == b; }

inline bool exactSame(const Problem& p, const std::vector<std::string>& ids, const FD::Solution& a, const FD::Solution& b, const Mapping& m)
{
    if (a.timeOfFlight().size() != b.timeOfFlight().size()) { return false; }
    for (std::size_t i = 0; i < a.timeOfFlight().size(); ++i) {
        const std::size_t j = m.cell(static_cast<int>(i));
        if (j >= b.timeOfFlight().size() || !bitEqual(a.timeOfFlight()[i], b.timeOfFlight()[j])) { return false; }
    }
    for (const auto& id : ids) {
        const FD::CellSetID ia(id), ib(m.id(id));
        for (int k = 0; k < 2; ++k) {
            const auto x = k ? a.concentration(ia) : a.timeOfFlight(ia), y = k ? b.concentration(ib) : b.timeOfFlight(ib);
            if (x.size() != y.size()) { return false; }
            for (const auto& q : x) {
                if (q.first < 0 || q.first >= p.n) { return false; }
                const auto r = y.find(m.cell(q.first));
                if (r == y.end() || !bitEqual(q.second, r->second)) { return false; }
            }
        }
    }
    return true;
}

inline void sameSolution(Case& c, const Problem& p, bool fwd, const std::vector<std::string>& ids,
                         const FD::Solution& a, const FD::Solution& b, const std::string& what, const Mapping& m = Mapping())
{
    std::set<std::string> want, sa, sb;
    for (const auto& i : ids) { want.insert(m.id(i)); sa.insert(i); }
    for (const auto& q : b.startPoints()) { sb.insert(q.to_string()); }
    c.checkf(b.startPoints().size() == sb.size() && sb == want, [&] { return what + ": start points differ"; });
    std::set<std::string> ga;
    for (const auto& q : a.startPoints()) { ga.insert(q.to_string()); }
    c.checkf(a.startPoints().size() == ga.size() && ga == sa, [&] { return what + ": start points differ"; });
    if (exactSame(p, ids, a, b, m)) { c.label("bitwise-equal"); return; }
    c.label("equal-within-bounds");
    Reference ref(p, fwd);
    precondition(c, ref);
    const Field g = ref.solve(ref.allSources());
    std::map<std::string, Field> F;
    for (const auto& id : ids) { F[id] = ref.solve(ref.wells().at(id)); }
    if (!ref.ok) { c.discard(); }
    c.checkf(a.timeOfFlight().size() == b.timeOfFlight().size() && static_cast<int>(a.timeOfFlight().size()) == p.n, [&] { return what + ": sizes of global ToF differ"; });
    auto cmp = [&](double x, double y, LD tol, const char* field, int cell) {
        c.checkf(close(x, y, 2 * tol), [&] { return str(what, ": ", field, " of cell ", cell, " differs: ", x, " versus ", y, " (admissible ", (double) (2 * tol), ")"); });
    };
    for (int i = 0; i < p.n; ++i) { cmp(a.timeOfFlight()[i], b.timeOfFlight()[m.cell(i)], Reference::tolTof(g, i), "global ToF", i); }
    for (const auto& id : ids) {
        const FD::CellSetID ia(id), ib(m.id(id));
        for (int k = 0; k < 2; ++k) {
            const auto x = k ? a.concentration(ia) : a.timeOfFlight(ia), y = k ? b.concentration(ib) : b.timeOfFlight(ib);
            c.checkf(x.size() == y.size(), [&] { return str(what, ": ", k ? "concentration" : "tracer ToF", " of ", quote(id), " covers ", x.size(), " versus ", y.size(), " cells"); });
            for (const auto& q : x) {
                c.checkf(q.first >= 0 && q.first < p.n && y.count(m.cell(q.first)) == 1, [&] { return str(what, ": tracer ", quote(id), " misses cell ", q.first); });
                cmp(q.second, y.at(m.cell(q.first)), k ? Reference::tolT(F[id], q.first) : Reference::tolTof(F[id], q.first), k ? "concentration" : "tracer ToF", q.first);
            }
        }
    }
}

inline Problem reversed(const Problem& p)
{
    Problem r = p;
    for (auto& f : r.flux) { f = -f; }
    for (auto& w : r.inflow) { for (auto& q : w.second) { q.second = -q.second; } }
    return r;
}

// Everything a solution reports, copied out.
struct Snapshot
{
    std::vector<double> g;
    std::map<std::string, std::pair<std::map<int, double>, std::map<int, double>>> f;
    explicit Snapshot(const FD::Solution& s) : g(s.timeOfFlight())
    {
        for (const auto& id : s.startPoints()) {
            const auto a = s.timeOfFlight(id), b = s.concentration(id);
            f[id.to_string()] = {std::map<int, double>(a.begin(), a.end()), std::map<int, double>(b.begin(), b.end())};
        }
    }
    bool operator==(const Snapshot& o) const { return g == o.g && f == o.f; }
};

} // namespace flow

#endif
