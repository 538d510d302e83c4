// Property-based testing engine used by every check.
//
// A property is a function of a Gen (a stream of bounded choices).  Random mode takes the choices
// from a PRNG seeded by (VERIF_SEED, property, case number); replay mode takes them from a recorded
// list; byte mode takes them from a libFuzzer input.  Every choice is recorded, so a failing case can be
// replayed and shrunk by shrinking the list of choices.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>

namespace vf {

typedef std::vector<uint8_t> Bytes;

class Gen {
public:
    virtual ~Gen() {}
    // uniform in [0, n); n >= 1.  0 is the "simplest" choice.
    uint64_t below(uint64_t n);
    // inclusive range, lo is the simplest
    long long range(long long lo, long long hi) { return lo + (long long)below((uint64_t)(hi - lo) + 1); }
    uint8_t byte() { return (uint8_t)below(256); }
    uint64_t u64();
    // true with probability num/den; false is the simplest
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[below(N)]; }
    template <class T> const T &pick(const std::vector<T> &a) { return a[below(a.size())]; }
    // index by weights
    size_t weighted(const std::vector<unsigned> &w);
    // size biased to small values, in [lo, hi]
    size_t size(size_t lo, size_t hi);
    Bytes bytes(size_t n) { Bytes b(n); for (auto &x : b) x = byte(); return b; }
    // an arbitrary interesting byte: mixes uniform with boundary values
    uint8_t ibyte();
protected:
    virtual uint64_t raw(uint64_t n) = 0;
};

// ---- inside a property -------------------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));       // description of the case (kept for replay/sample)
void label(const std::string &l);                                            // classification counter
void nontrivial(uint64_t hash);                                              // the case is non-trivial; hash identifies it
void nontrivial(const std::string &s);
void discard();                                                              // counts a case that exercised nothing
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
bool replaying();                                                            // verbose single-case mode
std::string hex(const void *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string esc(const std::string &s);                                       // printable form

#define VF_CHECK(cond, ...) do { if (!(cond)) ::vf::fail(__VA_ARGS__); } while (0)

// ---- allocation accounting (library objects are relinked to these) -------------------------------
struct Heap {
    static long live();                 // blocks allocated by the library and not yet released
    static long count();                // allocations attempted since reset
    static void reset();                // forget outstanding blocks, clear counters, no faults
    static void fail_at(long n);        // n-th allocation from now fails (1 = next); 0 = off
    static void fail_from(long n);      // n-th and all later fail; 0 = off
    static bool faulted();              // an injected failure was delivered
    static std::string dump();
};
extern "C" void vf_release(void *p);    // release a block the library handed out (as the caller's free())

struct Property {
    const char *id;
    void (*fn)(Gen &);
    long quick, thorough;               // default numbers of cases
    const char *rule;
};
void add(const Property &);
struct Reg { Reg(const Property &p) { add(p); } };
#define VF_PROPERTY(id, quick, thorough, rule) \
    static void prop_##id(::vf::Gen &g); \
    static ::vf::Reg reg_##id({#id, prop_##id, quick, thorough, rule}); \
    static void prop_##id(::vf::Gen &g)

int run_case_bytes(const char *prop, const uint8_t *data, size_t n);   // libFuzzer entry
}
