// Common pieces of all harness programs: deterministic randomness, counters,
// violation recording, instance-counted value types and the shard main loop.
// C++11 only: some checks build the same sources for every language standard.
#pragma once

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0x5bd1e995u)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    int below(int n) { return n <= 1 ? 0 : (int) (next() % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); }   // inclusive
    bool chance(int percent) { return below(100) < percent; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below((int) v.size())]; }
    int weighted(const std::vector<int> &w) {
        int sum = 0;
        for (size_t i = 0; i < w.size(); i++) sum += w[i];
        int r = below(sum);
        for (size_t i = 0; i < w.size(); i++) {
            if (r < w[i]) return (int) i;
            r -= w[i];
        }
        return (int) w.size() - 1;
    }
};

// ------------------------------------------------------------ observations
// Everything a run observed. One instance per shard (per thread in threaded runs).
struct Obs {
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> distinct;     // hashes of distinct non-trivial situations
    std::vector<std::string> samples;
    std::vector<std::string> violations;       // "case|key|message"
    long evaluations;                          // judged observations
    long operations;                           // situations met, distinct or not
    std::string *trace;
    Obs() : evaluations(0), operations(0), trace(nullptr) {}
    void count(const char *k, long n = 1) { counters[k] += n; }
    void situation(const std::string &s) {
        operations++;
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < s.size(); i++) h = (h ^ (unsigned char) s[i]) * 1099511628211ull;
        if (distinct.size() < 400000) distinct.insert(mix64(h));
        if (samples.size() < 12 && (samples.empty() || mix64(h) % 97 == 0)) samples.push_back(s.substr(0, 300));
    }
};

struct CaseFailed {};   // aborts the current case after a violation was recorded

inline std::string clean(std::string s) {
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\n') s[i] = ' ';
        if ((unsigned char) s[i] < 32) s[i] = '.';
    }
    return s;
}

struct Ctx {
    Obs obs;
    long caseNo;
    uint64_t seed;
    std::string tier;
    bool verbose;
    Ctx() : caseNo(-1), seed(1), tier("quick"), verbose(false) {}
    void violation(const std::string &key, const std::string &msg) {
        std::ostringstream o;
        o << caseNo << "|" << key << "|" << clean(msg);
        obs.violations.push_back(o.str());
        if (obs.trace) *obs.trace += "VIOLATION " + o.str() + "\n";
        if (verbose) fprintf(stderr, "VIOLATION %s\n", o.str().c_str());
    }
    void trace(const std::string &s) {
        if (obs.trace) { *obs.trace += s; *obs.trace += "\n"; }
        if (verbose) fprintf(stderr, "%s\n", s.c_str());
    }
};

// record and carry on
inline bool expect(Ctx &c, bool ok, const char *key, const std::string &msg) {
    c.obs.evaluations++;
    if (!ok) c.violation(key, msg);
    return ok;
}
// record and abandon the case
inline void require(Ctx &c, bool ok, const char *key, const std::string &msg) {
    if (!expect(c, ok, key, msg)) throw CaseFailed();
}

template<class T> std::string str(const T &v) { std::ostringstream o; o << v; return o.str(); }
inline std::string joinInts(const std::vector<int> &v) {
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    return o.str();
}

// --------------------------------------------------------------- value types
// Instance-counted, self-checking value. Every construction must be paired with
// exactly one destruction; use after destruction and double destruction are
// noticed even in builds without AddressSanitizer.
struct TokStats {
    long live, made, copies, moves, bad;
    long faultIn;      // throw from the n-th copy from now (0: never)
    long faultMoveIn;  // throw from the n-th move from now (0: never)
    TokStats() : live(0), made(0), copies(0), moves(0), bad(0), faultIn(0), faultMoveIn(0) {}
};
inline TokStats &tokStats() { static thread_local TokStats s; return s; }

struct CopyFault { int code; explicit CopyFault(int c) : code(c) {} };

struct Tok {
    int code;
    unsigned magic;
    Tok *self;
    void born() { magic = 0xA11FEu; self = this; tokStats().live++; tokStats().made++; }
    void check() const { if (magic != 0xA11FEu || self != this) tokStats().bad++; }
    explicit Tok(int c = 0) : code(c) { born(); }
    Tok(const Tok &o) : code(o.code) {
        o.check();
        if (tokStats().faultIn && --tokStats().faultIn == 0) throw CopyFault(4242);
        born();
        tokStats().copies++;
    }
    Tok(Tok &&o) : code(o.code) {
        o.check();
        if (tokStats().faultMoveIn && --tokStats().faultMoveIn == 0) throw CopyFault(4343);
        born();
        o.code = -1;
        tokStats().moves++;
    }
    Tok &operator=(const Tok &o) {
        check(); o.check();
        if (tokStats().faultIn && --tokStats().faultIn == 0) throw CopyFault(4242);
        code = o.code;
        return *this;
    }
    Tok &operator=(Tok &&o) {
        check(); o.check();
        code = o.code;
        if (&o != this) o.code = -1;
        return *this;
    }
    ~Tok() {
        check();
        magic = 0xDEADu;
        self = nullptr;
        tokStats().live--;
    }
    int get() const { check(); return code; }
};
inline bool operator==(const Tok &a, const Tok &b) { return a.get() == b.get(); }
inline bool operator!=(const Tok &a, const Tok &b) { return a.get() != b.get(); }
inline bool operator<(const Tok &a, const Tok &b) { return a.get() < b.get(); }
inline bool operator<=(const Tok &a, const Tok &b) { return a.get() <= b.get(); }
inline bool operator>(const Tok &a, const Tok &b) { return a.get() > b.get(); }
inline bool operator>=(const Tok &a, const Tok &b) { return a.get() >= b.get(); }
inline std::ostream &operator<<(std::ostream &o, const Tok &t) { return o << "T" << t.get(); }

// not printable, larger than two registers, so returned in memory
struct NP {
    int code;
    long pad[5];
    explicit NP(int c = 0) : code(c) { for (int i = 0; i < 5; i++) pad[i] = c * 31 + i; }
    bool sane() const { for (int i = 0; i < 5; i++) if (pad[i] != code * 31 + i) return false; return true; }
};
inline bool operator==(const NP &a, const NP &b) { return a.code == b.code; }
inline bool operator!=(const NP &a, const NP &b) { return a.code != b.code; }
inline bool operator<(const NP &a, const NP &b) { return a.code < b.code; }
inline bool operator<=(const NP &a, const NP &b) { return a.code <= b.code; }
inline bool operator>(const NP &a, const NP &b) { return a.code > b.code; }
inline bool operator>=(const NP &a, const NP &b) { return a.code >= b.code; }

// ------------------------------------------------------------------ shards
std::string jsonEscape(const std::string &s);

typedef void (*CaseFn)(Ctx &, Rng &);
// Runs the cases given on the command line; see base.cpp.
int shardMain(int argc, char **argv, CaseFn fn);
// For programs that run all their cases in one go and call startCase() for each.
typedef void (*BatchFn)(Ctx &, long from, long to);
int batchMain(int argc, char **argv, BatchFn fn);
Rng startCase(Ctx &, long n);
const std::map<std::string, std::string> &options();
std::string option(const std::string &k, const std::string &dflt = "");

} // namespace vh
