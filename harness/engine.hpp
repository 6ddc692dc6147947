// Small property-based testing engine: recorded choice streams, forked
// workers, integrated shrinking.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string kind; // stable class of failure (used for shrinking)
    std::string msg; // details
};
struct Discard {};
struct LibExit { // the library called exit()
    int code;
};

// A stream of bounded choices. In generate mode they come from a seeded PRNG
// and are recorded; in replay mode they are read back (missing = 0, i.e. the
// simplest choice).
class Src
{
  public:
    std::vector<uint64_t> ch; // recorded / to replay
    size_t pos = 0;
    bool replay = false;
    uint64_t s[2];
    explicit Src(uint64_t seed);
    explicit Src(const std::vector<uint64_t> &c);
    uint64_t next();
    // uniform in [0,n)
    uint64_t below(uint64_t n);
    // uniform in [lo,hi], simplest = lo
    int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }
    // true with probability num/den, simplest = false
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    // uniform in [0,1)
    double unit() { return (double) below(1ULL << 53) * (1.0 / 9007199254740992.0); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // mixture: end points, midpoint, coarse grid, uniform
    double real(double lo, double hi)
    {
        switch (below(8)) {
            case 0: return lo;
            case 1: return hi;
            case 2: return lo + 0.5 * (hi - lo);
            case 3: return lo + (hi - lo) * (double) below(11) * 0.1;
            default: return uniform(lo, hi);
        }
    }
    // small ints mostly, occasionally up to hi
    int small(int lo, int hi)
    {
        if (hi <= lo) return lo;
        if (chance(1, 4)) return range(lo, hi);
        int h = lo + (hi - lo) / 3;
        return range(lo, h < lo + 1 ? (lo + 1 > hi ? hi : lo + 1) : h);
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    int pickw(std::initializer_list<int> w)
    {
        int tot = 0;
        for (int x : w) tot += x;
        int r = (int) below((uint64_t) tot), i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            ++i;
        }
        return i - 1;
    }
};

struct Case {
    bool nontrivial = false;
    std::ostringstream desc; // human readable description of the case
    void count(const char *name, long n = 1);
};

[[noreturn]] void fail(const std::string &kind, const std::string &msg);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, kind, ...)                                                                     \
    do {                                                                                           \
        if (!(cond)) pbt::fail(kind, pbt::fmt(__VA_ARGS__));                                       \
    } while (0)

// |a-b| <= abs + rel*max(|a|,|b|); NaN equals NaN, inf equals same inf
bool close(double a, double b, double rel = 1e-9, double abs = 1e-12);
// bit-for-bit (NaN == NaN, -0 != 0 tolerated as equal)
bool same(double a, double b);

// Set by the property file.
struct Property {
    const char *id;
    const char *rule; // generator and non-triviality rule
    void (*run)(Src &, Case &);
    long quick_cases; // total over all workers
    long thorough_cases;
    double case_cpu_s; // CPU limit for one case
};
extern const Property property;

// When true exit() called by library code becomes a LibExit exception.
extern bool trap_exit;
// run f, return true when the library called exit() with failure
bool lib_exits(const std::function<void()> &f, int *code = nullptr);
// scratch directory of this process (created lazily, removed at exit)
std::string scratch();
std::string slurp(const std::string &path);

} // namespace pbt
