// Choice-sequence property engine (property-based testing with integrated shrinking).
//
// A property is a function  void property(Src&).  It draws every random
// decision from Src, so a generated case *is* its sequence of choices: the
// runner can record it, shrink it and replay it, and libFuzzer can mutate it.
// Cases run in forked workers, so that crashes, sanitizer reports, hangs and
// unexpected process exits inside the library are observed as violations.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H

#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

struct Discard {};
struct Failure { std::string msg; };

class Src {
public:
    // Uniform choice in [0, n).  Shrinks towards 0.
    uint64_t draw(uint64_t n);
    // Inclusive integer range; shrinks towards lo.
    long range(long lo, long hi);
    // True with probability num/den; shrinks towards false.
    bool chance(unsigned num, unsigned den);
    // Index with the given relative weights; shrinks towards 0.
    unsigned weighted(const std::vector<unsigned>& w);
    // Real number in [lo, hi]; mixes "nice" values (integers, halves, tenths)
    // with fine-grained ones; shrinks towards lo and towards nice values.
    double real(double lo, double hi);
    // Fine-grained uniform real in [lo,hi].
    double uniform(double lo, double hi);
    double gaussian();
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

    // Observation.
    void label(const char* name);              // tally a class of case
    void nontrivial(bool v = true);            // this case counts as non-trivial
    void feature(uint64_t h);                  // adds to the case's content hash
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // only kept for failing cases
    bool verbose() const { return verbose_; }
    void maximise(const char* name, double v);

    // runner interface
    std::vector<uint64_t> prefix;   // choices to replay
    bool modulo = false;
    bool random_tail = true;        // generate fresh choices after the prefix
    uint64_t rng = 1;
    bool verbose_ = false;
    uint64_t* rec = nullptr; uint32_t* nrec = nullptr; uint32_t maxrec = 0;
    size_t pos = 0;
    bool nontrivial_ = false;
    uint64_t hash_ = 0xcbf29ce484222325ULL;
    std::string desc_;
    std::string notes_;
    uint64_t next();
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void discard_unless(bool c) { if (!c) throw Discard(); }

#define REQUIRE(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

// Run f in a forked child; used for misuse properties where the library is
// documented to terminate the process.
struct ChildResult { bool exited; int code; int sig; bool timeout; std::string err; std::string out; };
ChildResult run_child(const std::function<void()>& f, unsigned seconds = 20, size_t as_limit_mb = 0);

// A scratch directory private to this process (created on demand, removed by the runner).
const std::string& scratch_dir();

// Every property binary defines these.
extern const char* PROP_ID;
extern const char* PROP_RULE;          // what counts as a non-trivial case
extern const unsigned long QUICK_CASES;
extern const unsigned long THOROUGH_CASES;
void property(Src&);

#endif
