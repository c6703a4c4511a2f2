// Property-based testing engine: every random choice of a case is a draw from a recorded choice sequence, so that a
// case is a pure function of (code under test, choice sequence); cases are replayed and shrunk at that level.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{

struct Failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct Discard
{
};

class Choices
{
public:
    enum class Mode { Random, Replay, Bytes };

    static Choices random(uint64_t seed);
    static Choices replay(std::vector<uint64_t> v);
    static Choices bytes(const uint8_t* p, std::size_t n);

    // uniform in [0, bound); bound == 0 means the full 64 bits
    uint64_t draw(uint64_t bound);

    const std::vector<uint64_t>& log() const { return _log; }
    static volatile uint64_t* mirror; // when set, receives a copy of the log (survives a crash of the process)

    // ---- generators (simplest value first, for shrinking) ----
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo) + 1)); } // inclusive
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }                 // 0 -> false
    bool flip() { return draw(2) == 1; }
    // index drawn with the given weights
    std::size_t weighted(std::initializer_list<unsigned> w);
    template<class T>
    const T& pick(const std::vector<T>& v) { return v.at(draw(v.size())); }
    template<class T>
    T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    double unit() { return double(draw(uint64_t(1) << 53)) * 0x1p-53; } // [0, 1)
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // a value of moderate size: small integers, multiples of 1/8, or a 53-bit value in [-m, m]
    double moderate(double m = 4);
    std::vector<int> permutation(int n);
    // a string over a small alphabet that is rich in characters that names must not contain
    std::string name(int max_len = 6);
    std::string bytes_string(int max_len);
    // a size: mostly small, rarely up to max
    int size(int lo, int typical, int max);
    // the same, but once in `den` cases up to huge
    int big(int lo, int typical, int max, int huge, unsigned den) { return chance(1, den) ? int(range(lo, huge)) : size(lo, typical, max); }

private:
    Mode _mode{Mode::Random};
    uint64_t _s[4]{};
    std::vector<uint64_t> _in;
    const uint8_t* _p{nullptr};
    std::size_t _pos{0}, _n{0};
    std::vector<uint64_t> _log;
};

class Ctx
{
public:
    bool verbose{false};
    bool is_nontrivial{false};
    std::ostringstream text;                // description of the case (only filled when verbose)
    std::map<std::string, uint64_t> labels; // histogram
    uint64_t digest{0x9e3779b97f4a7c15ULL};

    std::string text_file; // where to mirror the description, if anywhere
    void flush_text();

    void nontrivial() { is_nontrivial = true; }
    void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
    [[noreturn]] void fail(const std::string& msg) { throw Failure(msg); }
    void check(bool c, const std::string& msg)
    {
        if (!c) fail(msg);
    }
    void mix(uint64_t v)
    {
        digest ^= v;
        digest *= 0xff51afd7ed558ccdULL;
        digest ^= digest >> 32;
    }
    void mix(double v)
    {
        if (v != v)
        {
            mix(uint64_t(0x7ff8dead));
            return;
        }
        uint64_t b;
        std::memcpy(&b, &v, 8);
        mix(b);
    }
};

#define NOTE(ctx, expr)                                                                                                \
    do                                                                                                                 \
    {                                                                                                                  \
        if ((ctx).verbose) ((ctx).text << expr << "\n"), (ctx).flush_text();                                                                 \
    } while (0)

#define CHECK(ctx, cond, expr)                                                                                         \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            std::ostringstream _os;                                                                                    \
            _os.precision(17);                                                                                         \
            _os << expr;                                                                                               \
            (ctx).fail(_os.str());                                                                                     \
        }                                                                                                              \
    } while (0)

struct PropertyDef
{
    const char* id;
    const char* rule; // how cases are made and what makes one non-trivial
    void (*run)(Choices&, Ctx&);
};
extern const PropertyDef property_def; // defined by each property's file

int engine_main(int argc, char** argv);

} // namespace pbt

#define PROPERTY(ID, RULE)                                                                                             \
    static void property_body_(pbt::Choices& c, pbt::Ctx& ctx);                                                        \
    const pbt::PropertyDef pbt::property_def{ID, RULE, property_body_};                                                \
    static void property_body_(pbt::Choices& c, pbt::Ctx& ctx)
