#include "csr.hpp"
#include <cfloat>
#include <iomanip>
using namespace csr;
const char* const pbt_property_id = "C16";
const char* const pbt_rule = "Random weighted graph with weights over the whole double range (any finite bit pattern, denormals, extremes, values needing 17 digits), streamed to a stream with random precision and floating-point format, possibly twice and with other output around it; text parsed back and compared triple by triple and bit by bit, stream precision and float format compared before/after. Non-trivial: at least two entries, one of which is not a short decimal.";
namespace {
double anyDouble(Src& s)
{
    switch (s.weighted({2, 3, 2, 1, 1})) {
    case 0: return s.range(-9, 9);
    case 1: { std::uint64_t b = (s.draw(1ULL << 32) << 32) | s.draw(1ULL << 32); double d; std::memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.0 / 3; }
    case 2: return (static_cast<double>(s.draw(1ULL << 53)) + 0.5) / 7.0;
    case 3: { static const double x[] = {DBL_MAX, -DBL_MAX, DBL_MIN, DBL_TRUE_MIN, 0.1, 1.0 / 3, DBL_EPSILON, 1 + DBL_EPSILON, 0.0}; return x[s.draw(9)]; }
    default: return std::nextafter(static_cast<double>(s.range(1, 1000)), 0.0);
    }
}
}
void pbt_property(Case& c)
{
    Src& s = c.s;
    Opm::AssembledConnections a;
    std::map<std::pair<int, int>, double> m;
    const bool huge = s.chance(1, 12000);
    const bool large = huge || s.chance(1, 60);
    const int rows = huge ? s.range(1, 80000) : large ? s.range(20, 400) : s.range(1, 6), cols = huge ? 3000 : large ? s.range(1, 300) : s.range(1, 12);
    const bool big = s.chance(1, 10);
    const int n = huge ? s.range(60000, 90000) : large ? s.range(50, 1200) : s.range(0, 12);
    Src bulk = large ? s.bulk() : Src(1);
    Src& b = large ? bulk : s;
    bool precise = false;
    int maxRow = -1;
    for (int k = 0; k < n; ++k) {
        const int i = b.range(0, rows - 1) * (big ? 97 : 1), j = b.range(0, cols - 1) * (big ? 12345 : 1);
        if (m.count({i, j})) { continue; }
        const double w = anyDouble(b);
        a.addConnection(i, j, w);
        m[{i, j}] = w;
        maxRow = std::max(maxRow, i);
        char t[64];
        std::snprintf(t, sizeof t, "%.15e", w);
        precise = precise || std::strtod(t, nullptr) != w;
    }
    a.compress(maxRow + 1 + s.range(0, 3));
    std::ostringstream os;
    const int prec = s.pick(std::vector<int>{6, 0, 1, 3, 10, 16, 17, 20});
    os.precision(prec);
    const int fmt = static_cast<int>(s.draw(4));
    switch (fmt) { case 0: break; case 1: os << std::fixed; break; case 2: os << std::scientific; break; default: os << std::hexfloat; }
    const auto ff = os.flags() & std::ios_base::floatfield;
    c.describe([&] { std::string d = str("precision ", prec, " format ", fmt, " weights:"); if (m.size() > 500) { return d + " (many)"; } for (const auto& q : m) { d += str(q.first.first, ">", q.first.second, ":", q.second, " "); } return d; });
    const int times = s.range(1, 3);
    std::ostringstream before;
    before.precision(prec);
    before.flags(os.flags());
    const double probe = 1234.56789;
    before << probe;
    for (int t = 0; t < times; ++t) {
        os.str("");
        std::ostream& ret = (os << a);
        c.check(&ret == &os, "operator<< returns another stream");
        c.checkf(os.precision() == prec, [&] { return str("stream precision is ", os.precision(), " afterwards, was ", prec); });
        c.checkf((os.flags() & std::ios_base::floatfield) == ff, [&] { return str("floating-point format of the stream changed"); });
        const std::string text = os.str();
        os.str("");
        os << probe;
        c.checkf(os.str() == before.str(), [&] { return str("numbers written afterwards look different: ", os.str(), " versus ", before.str()); });
        std::istringstream is(text);
        std::string line;
        auto it = m.begin();
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            std::string si, sj, sw, rest;
            ls >> si >> sj >> sw;
            c.checkf(!(ls >> rest) && !sw.empty(), [&] { return "line is not a triple: " + line; });
            c.checkf(it != m.end(), [&] { return "superfluous line: " + line; });
            char* e1; char* e2; char* e3;
            const long i = std::strtol(si.c_str(), &e1, 10), j = std::strtol(sj.c_str(), &e2, 10);
            const double w = std::strtod(sw.c_str(), &e3);
            c.checkf(*e1 == 0 && *e2 == 0 && *e3 == 0 && i == it->first.first && j == it->first.second, [&] { return str("line '", line, "', expected ", it->first.first, " ", it->first.second); });
            c.checkf(std::memcmp(&w, &it->second, 8) == 0 || (w == 0 && it->second == 0), [&] { return str("weight read back from '", line, "' is ", w, ", stored ", it->second); });
            c.checkf(sw.find('x') == std::string::npos && sw.find('X') == std::string::npos, [&] { return "weight is not decimal: " + line; });
            ++it;
        }
        c.check(it == m.end(), "entries missing in text output");
    }
    c.nontrivial = m.size() >= 2 && precise;
    c.label("fixed-stream", fmt == 1);
    c.label("hexfloat-stream", fmt == 3);
    c.label("needs-17-digits", precise);
    c.label("empty", m.empty());
    c.label("huge", huge);
}
