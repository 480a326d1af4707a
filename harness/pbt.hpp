// Small property-based testing engine: every random decision of a case is a
// recorded "choice"; a case is a pure function of its choice sequence, so a
// failing case replays from, and shrinks on, that sequence (integrated
// shrinking).  The same property function is driven by the pseudo random
// search (run), by the shrinker (shrink), by saved files (replay) and by
// libFuzzer (PBT_LIBFUZZER).
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

inline std::uint64_t mix64(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix64(seed)) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
};

struct Fail { std::string msg; };
struct Discard {};

// Shared record of the choices of the current case (survives a crash).
struct Shared
{
    static constexpr std::uint64_t cap = 1u << 20;
    std::uint64_t phase;      // 0 idle, 1 running
    std::uint64_t caseIndex;
    std::uint64_t count;
    std::uint64_t msgLen;
    char          msg[4096];
    std::uint64_t choice[cap];
};

// Source of choices.
class Src
{
public:
    // Recorded random source.
    Src(std::uint64_t seed, Shared* sh) : rng_(seed), mode_(Random), sh_(sh) {}
    // Replay source.
    Src(const std::vector<std::uint64_t>* c, Shared* sh) : rng_(0), mode_(Replay), in_(c), sh_(sh) {}
    // Byte driven source (libFuzzer).
    Src(const std::uint8_t* d, std::size_t n, Shared* sh) : rng_(0), mode_(Bytes), data_(d), size_(n), sh_(sh) {}
    // Derived, unrecorded source (for bulk data of large cases).
    explicit Src(std::uint64_t seed) : rng_(seed), mode_(Random) {}

    // Uniform in [0, n).
    std::uint64_t draw(std::uint64_t n)
    {
        if (n <= 1) { return 0; }
        std::uint64_t v = 0;
        switch (mode_) {
        case Random: v = rng_.next() % n; break;
        case Replay:
            v = (pos_ < in_->size()) ? (*in_)[pos_] : 0;
            if (v >= n) { v = n - 1; }
            ++pos_;
            break;
        case Bytes: {
            std::uint64_t lim = n - 1;
            while (lim > 0 && pos_ < size_) { v = (v << 8) | data_[pos_++]; lim >>= 8; }
            v %= n;
            break;
        }
        }
        if (sh_ != nullptr) {
            if (sh_->count < Shared::cap) { sh_->choice[sh_->count] = v; }
            ++sh_->count;
        }
        return v;
    }

    int range(int lo, int hi) { return static_cast<int>(lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(static_cast<std::int64_t>(hi) - lo) + 1))); }
    // True with probability num/den; simplest value is false.
    bool chance(int num, int den) { return draw(den) >= static_cast<std::uint64_t>(den - num); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    // Index by weight; index 0 is simplest.
    int weighted(std::initializer_list<int> w)
    {
        int tot = 0;
        for (int x : w) { tot += x; }
        int d = static_cast<int>(draw(tot)), i = 0;
        for (int x : w) { if (d < x) { return i; } d -= x; ++i; }
        return 0;
    }
    // Small-biased integer in [lo,hi] (log-uniform like).
    int small(int lo, int hi)
    {
        const int span = hi - lo;
        int bits = 0;
        while ((1 << bits) <= span && bits < 30) { ++bits; }
        const int b = static_cast<int>(draw(bits + 1));
        const int m = std::min(span, (1 << b) - 1);
        return lo + static_cast<int>(draw(static_cast<std::uint64_t>(m) + 1));
    }
    // Source for bulk data, seeded by one recorded choice.
    Src bulk() { return Src(draw(1ULL << 32) + 1); }

    template <class T> void shuffle(std::vector<T>& v)
    {
        for (std::size_t i = 0; i + 1 < v.size(); ++i) {
            const std::size_t j = i + draw(v.size() - i);
            std::swap(v[i], v[j]);
        }
    }

private:
    enum Mode { Random, Replay, Bytes };
    Rng rng_;
    Mode mode_;
    const std::vector<std::uint64_t>* in_ = nullptr;
    const std::uint8_t* data_ = nullptr;
    std::size_t size_ = 0;
    std::size_t pos_ = 0;
    Shared* sh_ = nullptr;
};

struct Case
{
    Src& s;
    bool thorough = false;
    bool wantDesc = false;
    bool nontrivial = false;
    std::string desc;
    std::vector<std::string> labels;
    std::uint64_t fingerprint = 0;   // set by property when it knows a canonical form

    explicit Case(Src& src) : s(src) {}

    void label(const std::string& l) { labels.push_back(l); }
    void label(const std::string& l, bool on) { if (on) { labels.push_back(l); } }
    template <class F> void describe(F&& f) { if (wantDesc) { desc += f(); } }

    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
    void check(bool ok, const char* m) { if (!ok) { throw Fail{m}; } }
    template <class F> void checkf(bool ok, F&& f) { if (!ok) { throw Fail{f()}; } }
    [[noreturn]] void discard() { throw Discard{}; }
};

template <class... A>
std::string str(A&&... a)
{
    std::ostringstream os;
    os.precision(17);
    using ex = int[];
    (void) ex{0, ((void)(os << a), 0)...};
    return os.str();
}

// Runs f, reports whether it threw E (exactly "is-a E"); other exceptions pass through as failures.
template <class E, class F>
bool throwsA(F&& f)
{
    try { f(); }
    catch (const E&) { return true; }
    catch (const std::exception& e) { throw Fail{std::string("wrong exception type: ") + e.what()}; }
    return false;
}

} // namespace pbt

// Supplied by each property file.
extern const char* const pbt_property_id;
extern const char* const pbt_rule;
void pbt_property(pbt::Case& c);
// Optional set-up (e.g. start of hooks); weak default in pbt_main.hpp.

#endif
