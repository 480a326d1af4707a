// Reference model of the connection builder.
#ifndef CSR_HPP
#define CSR_HPP
#include "pbt.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>

namespace csr {
using pbt::Case;
using pbt::Src;
using pbt::str;
using pbt::throwsA;

struct Conn { int i, j; bool weighted; double w; };

struct Compressed
{
    bool valid = false;
    std::size_t rows = 0;
    bool weighted = false;
    std::map<std::pair<int, int>, double> m;
};

// Weights are multiples of 2^-10 below 2^25, so that sums of any order are exact.
inline double genWeight(Src& s)
{
    switch (s.weighted({3, 3, 1, 1})) {
    case 0: return s.range(1, 8);
    case 1: return s.range(-4096, 4096) / 1024.0;
    case 2: return 0.0;
    default: return s.range(-2000000000, 2000000000) / (s.chance(1, 2) ? 1024.0 : 64.0);
    }
}

inline Conn genConn(Src& s, int rows, int cols, bool weighted)
{
    Conn c;
    c.i = s.chance(1, 4) ? (s.chance(1, 2) ? 0 : rows - 1) : s.range(0, rows - 1);
    c.j = s.chance(1, 4) ? (s.chance(1, 2) ? 0 : cols - 1) : s.range(0, cols - 1);
    c.weighted = weighted;
    c.w = weighted ? genWeight(s) : 0.0;
    return c;
}

inline void add(Opm::AssembledConnections& a, const Conn& c)
{
    if (c.weighted) { a.addConnection(c.i, c.j, c.w); } else { a.addConnection(c.i, c.j); }
}

inline Compressed compressed(const std::vector<Conn>& pending, std::size_t rows)
{
    Compressed r;
    r.valid = true;
    r.rows = rows;
    r.weighted = !pending.empty() && pending.front().weighted;
    for (const auto& c : pending) { r.m[{c.i, c.j}] += c.w; }
    return r;
}

inline std::string show(const std::vector<Conn>& v)
{
    std::string d = "[";
    for (std::size_t k = 0; k < v.size() && k < 40; ++k) { d += str(v[k].i, ">", v[k].j, v[k].weighted ? str(":", v[k].w) : std::string(), " "); }
    return d + (v.size() > 40 ? "...]" : "]");
}

inline void compare(Case& c, const Opm::AssembledConnections& a, const Compressed& r, const std::string& what)
{
    c.checkf(a.numRows() == r.rows, [&] { return str(what, ": numRows() is ", a.numRows(), ", expected ", r.rows); });
    const auto& ia = a.startPointers();
    const auto& ja = a.neighbourhood();
    const auto& sa = a.connectionWeight();
    c.checkf(ia.size() == r.rows + 1, [&] { return str(what, ": ", ia.size(), " start pointers for ", r.rows, " rows"); });
    c.checkf(ia.front() == 0 && ia.back() == ja.size(), [&] { return what + ": start pointers do not run from 0 to the number of entries"; });
    c.checkf(ja.size() == r.m.size(), [&] { return str(what, ": ", ja.size(), " entries, expected ", r.m.size()); });
    c.checkf(sa.size() == (r.weighted ? ja.size() : 0), [&] { return str(what, ": ", sa.size(), " weights for ", ja.size(), " entries of ", r.weighted ? "a weighted" : "an unweighted", " graph"); });
    auto it = r.m.begin();
    for (std::size_t row = 0; row < r.rows; ++row) {
        c.checkf(ia[row] <= ia[row + 1], [&] { return str(what, ": start pointers decrease at row ", row); });
        for (std::size_t k = ia[row]; k < ia[row + 1]; ++k, ++it) {
            c.checkf(it != r.m.end() && it->first.first == static_cast<int>(row) && it->first.second == ja[k], [&] { return str(what, ": entry ", k, " of row ", row, " is target ", ja[k], it != r.m.end() ? str(", expected ", it->first.first, ">", it->first.second) : std::string(", expected none")); });
            if (r.weighted) { c.checkf(sa[k] == it->second, [&] { return str(what, ": weight of ", row, ">", ja[k], " is ", sa[k], ", expected ", it->second); }); }
        }
    }
    if (r.weighted || r.m.empty()) {
        it = r.m.begin();
        for (std::size_t row = 0; row < r.rows; ++row) {
            std::size_t k = 0;
            for (const auto& nb : a.cellNeighbourhood(static_cast<int>(row))) {
                c.checkf(it != r.m.end() && it->first == std::make_pair(static_cast<int>(row), nb.neighbour) && nb.weight == it->second, [&] { return str(what, ": iteration of row ", row, " yields (", nb.neighbour, ",", nb.weight, ")"); });
                ++it;
                ++k;
            }
            c.checkf(k == ia[row + 1] - ia[row], [&] { return str(what, ": iteration of row ", row, " yields ", k, " entries"); });
        }
    }
}
} // namespace csr
#endif
