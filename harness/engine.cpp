#include "engine.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- choices

static inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

uint64_t Src::next() { return splitmix(rng); }

uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if (n == 0) n = 1;
    if (pos < prefix.size()) { v = prefix[pos]; if (v >= n) v = modulo ? v % n : n - 1; }
    else if (random_tail) v = n == 1 ? 0 : next() % n;
    else v = 0;
    pos++;
    if (rec && *nrec < maxrec) { rec[*nrec] = v; (*nrec)++; }
    else if (rec) throw Discard();
    hash_ = (hash_ ^ (v + 0x9e37)) * 0x100000001b3ULL;
    return v;
}

long Src::range(long lo, long hi) { return hi <= lo ? lo : lo + (long) draw((uint64_t) (hi - lo) + 1); }
bool Src::chance(unsigned num, unsigned den) { return draw(den) >= den - num; }

unsigned Src::weighted(const std::vector<unsigned>& w)
{
    unsigned total = 0; for (unsigned x : w) total += x;
    uint64_t v = draw(total);
    for (unsigned i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
    return 0;
}

double Src::uniform(double lo, double hi)
{
    uint64_t k = draw((1ULL << 30) + 1);
    return lo + (hi - lo) * (double) k / (double) (1ULL << 30);
}

double Src::real(double lo, double hi)
{
    if (!(hi > lo)) return lo;
    unsigned kind = weighted({3, 2, 2, 5});
    double step = kind == 0 ? 1.0 : kind == 1 ? 0.5 : 0.1;
    if (kind < 3) {
        double a = std::ceil(lo / step), b = std::floor(hi / step);
        if (b >= a) {
            double v = (a + (double) draw((uint64_t) (b - a) + 1)) * step;
            return std::min(hi, std::max(lo, v));
        }
        kind = 3;
    }
    return uniform(lo, hi);
}

double Src::gaussian()
{
    double s = 0;
    for (int i = 0; i < 6; i++) s += uniform(-1, 1);
    return s / std::sqrt(2.0);
}

void Src::nontrivial(bool v) { if (v) nontrivial_ = true; }
void Src::feature(uint64_t h) { hash_ = (hash_ ^ h) * 0x100000001b3ULL; }

void Src::note(const char* fmt, ...)
{
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (verbose_) fprintf(stderr, "  | %s\n", b);
}

void fail(const char* fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Failure{b};
}

// ---------------------------------------------------------------- shared state

static const uint32_t MAXREC = 60000;
static const unsigned NLABEL = 256, NSAMPLE = 6, NHASH = 1 << 17;

struct Worker {
    uint64_t rec[MAXREC];
    uint32_t nrec;
    long current;             // index of the running case, -1 when idle
    unsigned long done, discarded, nontrivial;
    int failed;               // 1: Failure thrown
    char msg[2048];
    char curdesc[512];
    struct { char name[56]; unsigned long n; } labels[NLABEL];
    struct { char name[56]; double v; } maxima[32];
    char samples[NSAMPLE][512]; unsigned nsamples;
    uint64_t hashes[NHASH]; unsigned nhash; // of non-trivial cases
};

static Worker* W = nullptr;   // the worker this process is
static bool quiet_obs = false;

void Src::desc(const char* fmt, ...)
{
    if (desc_.size() > 400) return;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!desc_.empty()) desc_ += "; ";
    desc_ += b;
    if (W) strncpy(W->curdesc, desc_.c_str(), 511);
}

void Src::label(const char* name)
{
    if (!W || quiet_obs) return;
    for (unsigned i = 0; i < NLABEL; i++) {
        if (!W->labels[i].name[0]) { strncpy(W->labels[i].name, name, 55); W->labels[i].n = 1; return; }
        if (!strncmp(W->labels[i].name, name, 55)) { W->labels[i].n++; return; }
    }
}

void Src::maximise(const char* name, double v)
{
    if (verbose_) fprintf(stderr, "  | max %s = %.6g\n", name, v);
    if (!W || quiet_obs) return;
    for (unsigned i = 0; i < 32; i++) {
        if (!W->maxima[i].name[0]) { strncpy(W->maxima[i].name, name, 55); W->maxima[i].v = v; return; }
        if (!strncmp(W->maxima[i].name, name, 55)) { if (v > W->maxima[i].v) W->maxima[i].v = v; return; }
    }
}

// ---------------------------------------------------------------- scratch

static std::string base_dir;
static void remove_tree(const std::string& d)
{
    // only ever called on directories this engine created
    if (d.find("/slsmverif.") == std::string::npos) return;
    DIR* h = opendir(d.c_str()); if (!h) return;
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str());
    }
    closedir(h); rmdir(d.c_str());
}

const std::string& scratch_dir()
{
    static std::string d; static pid_t owner = 0;
    if (d.empty() || owner != getpid()) {
        if (base_dir.empty()) {
            const char* in = getenv("VERIF_SCRATCH"); std::string t = std::string(in ? in : "/tmp") + "/slsmverif.XXXXXX";
            if (!mkdtemp(&t[0])) abort(); base_dir = t;
        }
        owner = getpid();
        d = base_dir + "/p" + std::to_string((long) owner);
        mkdir(d.c_str(), 0700);
    }
    return d;
}

// ---------------------------------------------------------------- children

static void set_cpu_timer(unsigned seconds)
{
    itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static std::string slurp(const std::string& p, size_t max = 6000)
{
    std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf();
    std::string r = s.str(); if (r.size() > max) r = r.substr(0, max / 2) + "\n...\n" + r.substr(r.size() - max / 2);
    return r;
}

ChildResult run_child(const std::function<void()>& f, unsigned seconds, size_t as_limit_mb)
{
    int e[2], o[2];
    if (pipe(e) || pipe(o)) abort();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) abort();
    if (p == 0) {
        dup2(o[1], 1); dup2(e[1], 2); close(e[0]); close(o[0]); close(e[1]); close(o[1]);
        set_cpu_timer(seconds);
        (void) as_limit_mb;
        try { f(); } catch (const std::exception& x) { fprintf(stderr, "uncaught %s\n", x.what()); _exit(98); }
        catch (const Failure& x) { fprintf(stderr, "%s\n", x.msg.c_str()); _exit(97); }
        catch (...) { _exit(99); }
        fflush(stdout); fflush(stderr);
        _exit(42);   // returned normally
    }
    close(e[1]); close(o[1]);
    ChildResult r; r.exited = false; r.code = r.sig = 0; r.timeout = false;
    pollfd fds[2] = {{e[0], POLLIN, 0}, {o[0], POLLIN, 0}}; int open = 2;
    while (open) {
        if (poll(fds, 2, -1) < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < 2; i++) if (fds[i].fd >= 0 && fds[i].revents) {
            char b[4096]; ssize_t n = read(fds[i].fd, b, sizeof b);
            if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; open--; }
            else { std::string& s = i ? r.out : r.err; if (s.size() < (1u << 20)) s.append(b, n); }
        }
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
    else { r.sig = WTERMSIG(st); r.timeout = r.sig == SIGVTALRM || r.sig == SIGALRM; }
    return r;
}

// ---------------------------------------------------------------- running one case

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15); splitmix(s); return splitmix(s); }
static uint64_t id_hash() { uint64_t h = 1469598103934665603ULL; for (const char* c = PROP_ID; *c; c++) h = (h ^ (unsigned char) *c) * 1099511628211ULL; return h; }

static const unsigned CASE_CPU = 40;

// 0 pass, 1 fail, 2 discard
static int run_case(Src& s)
{
    W->nrec = 0; W->curdesc[0] = 0; s.rec = W->rec; s.nrec = &W->nrec; s.maxrec = MAXREC;
    set_cpu_timer(CASE_CPU);
    int rc = 0;
    try { property(s); }
    catch (const Discard&) { rc = 2; }
    catch (const Failure& f) { rc = 1; W->failed = 1; strncpy(W->msg, f.msg.c_str(), sizeof W->msg - 1); }
    catch (const std::exception& e) { rc = 1; W->failed = 1; snprintf(W->msg, sizeof W->msg, "uncaught exception: %s", e.what()); }
    set_cpu_timer(0);
    return rc;
}

static Worker* new_worker()
{
    void* p = mmap(nullptr, sizeof(Worker), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Worker*) p;
}

struct Outcome { bool fail = false; std::string cls, msg; };

static std::string first_error_line(const std::string& err)
{
    std::istringstream is(err); std::string l, best;
    while (std::getline(is, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos) return l;
        if (best.empty() && !l.empty()) best = l;
    }
    return best;
}

static std::string crash_site(const std::string& err)
{
    // first stack frame inside the library, for reports
    std::istringstream is(err); std::string l;
    while (std::getline(is, l)) {
        size_t p = l.find(" in slsm::"); if (p != std::string::npos) return l.substr(p + 4);
        p = l.find(" slsm::"); if (p != std::string::npos && l.find("    #") == 0) return l.substr(p + 1); // ThreadSanitizer
    }
    return "";
}

static Outcome classify(int st, Worker* w, const std::string& err)
{
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.fail = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { o.cls = "assert"; o.msg = w->msg; return o; }
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        std::string l = first_error_line(err);
        if (c == 77) { o.cls = "sanitizer"; o.msg = "memory error, data race or undefined behaviour: " + l + " at " + crash_site(err); }
        else { o.cls = "exit"; o.msg = "the library terminated the process (exit " + std::to_string(c) + ") on valid input: " + l; }
        return o;
    }
    int s = WTERMSIG(st);
    if (s == SIGVTALRM) { o.cls = "hang"; o.msg = "no result within the CPU limit of " + std::to_string(CASE_CPU) + " s"; }
    else if (s == SIGKILL) { o.fail = false; o.cls = "killed"; }
    else { o.cls = "signal"; o.msg = "crashed with signal " + std::to_string(s) + ": " + first_error_line(err); }
    return o;
}

static std::string err_path(const std::string& tag) { scratch_dir(); return base_dir + "/err." + tag; }

// run one explicit choice sequence in a child
static bool exec_modulo = false;
static Outcome exec_choices(const std::vector<uint64_t>& c, std::vector<uint64_t>* actual, std::string* desc, bool verbose = false)
{
    static Worker* w = nullptr; if (!w) w = new_worker();
    std::string ep = err_path("shrink");
    w->failed = 0; w->msg[0] = 0; w->nrec = 0; w->samples[0][0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        W = w; quiet_obs = true;
        if (!verbose) { int fd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); close(fd); }
        Src s; s.prefix = c; s.random_tail = false; s.verbose_ = verbose; s.modulo = exec_modulo;
        int rc = run_case(s);
        fflush(stdout); fflush(stderr);
        _exit(rc == 1 ? 10 : 0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (actual) actual->assign(w->rec, w->rec + w->nrec);
    if (desc) *desc = w->curdesc;
    return classify(st, w, verbose ? "" : slurp(ep, 60000));
}

// run the exact sequence of cases of one worker in one process: for failures that need history
static Outcome exec_sequence(uint64_t seed, const std::vector<long>& idx)
{
    static Worker* w = nullptr; if (!w) w = new_worker();
    std::string ep = err_path("seq");
    w->failed = 0; w->msg[0] = 0; w->nrec = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        W = w; quiet_obs = true;
        int fd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
        for (long i : idx) {
            Src s; s.rng = mix(mix(seed, id_hash()), (uint64_t) i);
            if (run_case(s) == 1) _exit(10);
        }
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return classify(st, w, slurp(ep, 60000));
}

typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string& cls, double budget, Outcome& out, unsigned& evals)
{
    Clock::time_point t0 = Clock::now();
    auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
        if (since(t0) > budget) return false;
        if (!smaller(c, best)) return false;
        std::vector<uint64_t> act; evals++;
        Outcome o = exec_choices(c, &act, nullptr);
        if (o.fail && o.cls == cls) {
            std::vector<uint64_t> n = smaller(act, c) ? act : c;
            best = n; out = o; return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && since(t0) < budget) {
        progress = false;
        for (size_t k : {64, 16, 8, 4, 3, 2, 1})
            for (long i = (long) best.size() - (long) k; i >= 0 && since(t0) < budget; ) {
                if ((size_t) i + k > best.size()) { i--; continue; }
                std::vector<uint64_t> c = best; c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) { progress = true; i = std::min(i, (long) best.size() - (long) k); }
                else {
                    // also try deleting while decrementing a preceding length choice
                    bool ok = false;
                    for (long b = 1; b <= 2 && i - b >= 0 && !ok; b++) {
                        std::vector<uint64_t> d = best; if (d[i - b] == 0) continue;
                        d[i - b]--; d.erase(d.begin() + i, d.begin() + i + k); ok = attempt(d);
                    }
                    if (ok) { progress = true; i = std::min(i, (long) best.size() - (long) k); } else i -= (k > 4 ? (long) k / 2 : 1);
                }
            }
        for (size_t i = 0; i < best.size() && since(t0) < budget; i++) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c = best; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && since(t0) < budget && i < best.size()) {
                uint64_t m = lo + (hi - lo) / 2; c = best; c[i] = m;
                if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = m;
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- main

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}

#ifdef VERIF_FUZZ
// coverage-guided mode: bytes are consumed as choices (two to eight bytes each)
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if (!W) { W = new_worker(); quiet_obs = true; }
    Src s; s.random_tail = false; s.modulo = true;
    for (size_t i = 0; i + 4 <= size && s.prefix.size() < 4000; i += 4) {
        uint32_t v; memcpy(&v, data + i, 4); s.prefix.push_back(v & 0x3fffffff);
    }
    W->failed = 0; W->nrec = 0;
    s.rec = W->rec; s.nrec = &W->nrec; s.maxrec = MAXREC;
    try { property(s); }
    catch (const Discard&) {}
    catch (const Failure& f) { fprintf(stderr, "PROPERTY-FAILURE %s\n", f.msg.c_str()); fflush(stderr); abort(); }
    return 0;
}
#else

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "run";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    scratch_dir();
    struct Cleanup { ~Cleanup() { remove_tree(base_dir); } } cleanup;

    if (mode == "replay") {
        std::ifstream f(a["--file"]); std::string tok; std::vector<uint64_t> c; std::vector<long> idx; uint64_t seed = 0;
        std::string line; std::string kind = "choices";
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream is(line); is >> tok;
            if (tok == "modchoices") { exec_modulo = true; tok = "choices"; }
            if (tok == "choices") { uint64_t v; while (is >> v) c.push_back(v); }
            else if (tok == "sequence") { kind = "sequence"; is >> seed; long v; while (is >> v) idx.push_back(v); }
            else if (tok == "bytes") { }
        }
        Outcome o;
        if (kind == "choices") {
            exec_choices(c, nullptr, nullptr, true);
            o = exec_choices(c, nullptr, nullptr);
        }
        else o = exec_sequence(seed, idx);
        if (o.fail) { printf("FAIL %s: %s\n", o.cls.c_str(), o.msg.c_str()); return 1; }
        printf("PASS\n"); return 0;
    }

    bool thorough = a.count("--tier") && a["--tier"] == "thorough";
    uint64_t seed = (uint64_t) num("--seed", 1);
    unsigned long cases = (unsigned long) num("--cases", thorough ? THOROUGH_CASES : QUICK_CASES);
    unsigned nw = (unsigned) num("--workers", 8);
    double budget = num("--budget", 240), shrink_budget = num("--shrink", 60);
    std::string out = a.count("--out") ? a["--out"] : "";
    std::string replay_path = a.count("--replay") ? a["--replay"] : "";

    Clock::time_point t0 = Clock::now();
    std::vector<Worker*> ws; std::vector<pid_t> pids;
    for (unsigned k = 0; k < nw; k++) ws.push_back(new_worker());
    fflush(stdout);
    for (unsigned k = 0; k < nw; k++) {
        pid_t p = fork();
        if (p == 0) {
            W = ws[k];
            int fd = open(err_path("w" + std::to_string(k)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            dup2(fd, 2); dup2(fd, 1); close(fd);
            std::set<std::string> seen;
            for (unsigned long i = k; i < cases; i += nw) {
                if (since(t0) > budget) break;
                if ((i / nw) % 256 == 255) { if (ftruncate(2, 0)) {} }
                W->current = (long) i;
                Src s; s.rng = mix(mix(seed, id_hash()), i);
                int rc = run_case(s);
                if (rc == 1) _exit(10);
                W->current = -1;
                if (rc == 2) { W->discarded++; continue; }
                W->done++;
                if (s.nontrivial_) {
                    W->nontrivial++;
                    if (W->nhash < NHASH) W->hashes[W->nhash++] = s.hash_;
                    if (W->nsamples < NSAMPLE && (W->nontrivial & (W->nontrivial - 1)) == 0) {
                        strncpy(W->samples[W->nsamples++], s.desc_.c_str(), 511);
                    }
                }
            }
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        pids.push_back(p);
    }

    // wait for all workers, or for the first failure
    std::vector<int> status(nw, -1); int failing = -1; Outcome fo; std::vector<std::string> extra;
    unsigned left = nw;
    while (left) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (unsigned k = 0; k < nw; k++) if (pids[k] == p) {
            left--; status[k] = st;
            Outcome o = classify(st, ws[k], slurp(err_path("w" + std::to_string(k)), 60000));
            if (o.fail && failing < 0) {
                failing = (int) k; fo = o;
                for (unsigned q = 0; q < nw; q++) if (status[q] == -1) kill(pids[q], SIGKILL);
            }
            else if (o.cls == "killed" && failing < 0) extra.push_back("a worker was killed from outside");
        }
    }
    double run_wall = since(t0);

    int rc = 0; std::string violation, vmsg, vdesc; unsigned evals = 0;
    if (failing >= 0) {
        Worker* w = ws[failing];
        std::vector<uint64_t> c(w->rec, w->rec + w->nrec);
        long idx = w->current;
        // a crash inside draw-free code leaves the full record; replay with zero tail
        Outcome o; bool repro = false;
        for (int t = 0; t < 3 && !repro; t++) { o = exec_choices(c, nullptr, nullptr); repro = o.fail; }
        std::ofstream rf;
        if (repro) {
            std::string cls = o.cls; Outcome so = o;
            std::vector<uint64_t> m = shrink(c, cls, shrink_budget, so, evals);
            Outcome v; int hits = 0; std::string d;
            for (int t = 0; t < 3; t++) { v = exec_choices(m, nullptr, &d); if (v.fail) hits++; }
            if (hits == 0) { m = c; v = o; }
            rc = 1; violation = "choices"; vmsg = v.msg.empty() ? so.msg : v.msg; vdesc = d;
            if (!replay_path.empty()) {
                rf.open(replay_path);
                rf << "# property " << PROP_ID << "\n# " << vmsg << "\n# case: " << vdesc << "\n# found at seed " << seed << " case " << idx
                   << ", shrunk from " << c.size() << " to " << m.size() << " choices in " << evals << " runs\nchoices";
                for (uint64_t x : m) rf << ' ' << x;
                rf << "\n";
            }
        }
        else {
            // needs the history of earlier cases in the same process
            std::vector<long> seq; for (long i = failing; i <= idx; i += nw) seq.push_back(i);
            Outcome s; bool ok = false;
            for (int t = 0; t < 2 && !ok; t++) { s = exec_sequence(seed, seq); ok = s.fail; }
            if (ok) {
                Clock::time_point ts = Clock::now();
                for (size_t k = seq.size() / 2; k >= 1 && since(ts) < shrink_budget; k /= 2)
                    for (size_t i = 0; i + k < seq.size() && since(ts) < shrink_budget; ) {
                        std::vector<long> q = seq; q.erase(q.begin() + i, q.begin() + i + k);
                        Outcome z = exec_sequence(seed, q); evals++;
                        if (z.fail) { seq = q; s = z; } else i += k;
                    }
                rc = 1; violation = "sequence"; vmsg = s.msg + " (only after earlier cases in the same process)";
                if (!replay_path.empty()) {
                    rf.open(replay_path);
                    rf << "# property " << PROP_ID << "\n# " << vmsg << "\nsequence " << seed;
                    for (long x : seq) rf << ' ' << x;
                    rf << "\n";
                }
            }
            else extra.push_back("a failure did not reproduce (" + fo.cls + ": " + fo.msg + ")");
        }
    }

    // aggregate
    unsigned long done = 0, disc = 0, nt = 0; std::map<std::string, unsigned long> labels; std::map<std::string, double> maxima;
    std::set<uint64_t> hs; std::vector<std::string> samples; bool hash_full = false;
    for (unsigned k = 0; k < nw; k++) {
        done += ws[k]->done; disc += ws[k]->discarded; nt += ws[k]->nontrivial;
        for (unsigned i = 0; i < NLABEL && ws[k]->labels[i].name[0]; i++) labels[ws[k]->labels[i].name] += ws[k]->labels[i].n;
        for (unsigned i = 0; i < 32 && ws[k]->maxima[i].name[0]; i++) {
            std::string n = ws[k]->maxima[i].name; if (!maxima.count(n) || maxima[n] < ws[k]->maxima[i].v) maxima[n] = ws[k]->maxima[i].v;
        }
        for (unsigned i = 0; i < ws[k]->nhash; i++) hs.insert(ws[k]->hashes[i]);
        if (ws[k]->nhash == NHASH) hash_full = true;
    }
    for (unsigned i = 0; i < NSAMPLE && samples.size() < 8; i++)
        for (unsigned k = 0; k < nw && samples.size() < 8; k++) if (i < ws[k]->nsamples) samples.push_back(ws[k]->samples[i]);
    std::ostringstream j;
    j << "{\"property\":" << jstr(PROP_ID) << ",\"rule\":" << jstr(PROP_RULE) << ",\"planned\":" << cases << ",\"evaluations\":" << done
      << ",\"discarded\":" << disc << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << hs.size() << ",\"hash_table_full\":" << (hash_full ? "true" : "false")
      << ",\"wall_s\":" << since(t0) << ",\"run_wall_s\":" << run_wall << ",\"shrink_runs\":" << evals << ",\"labels\":{";
    bool f1 = true; for (auto& l : labels) { j << (f1 ? "" : ",") << jstr(l.first) << ":" << l.second; f1 = false; }
    j << "},\"maxima\":{"; f1 = true;
    for (auto& l : maxima) if (std::isfinite(l.second)) { j << (f1 ? "" : ",") << jstr(l.first) << ":" << l.second; f1 = false; }
    j << "},\"samples\":["; f1 = true; for (auto& s : samples) { j << (f1 ? "" : ",") << jstr(s); f1 = false; }
    j << "],\"notes\":["; f1 = true; for (auto& s : extra) { j << (f1 ? "" : ",") << jstr(s); f1 = false; }
    j << "],\"violation\":" << (rc ? "true" : "false") << ",\"violation_kind\":" << jstr(violation) << ",\"message\":" << jstr(vmsg) << ",\"case\":" << jstr(vdesc) << "}\n";
    if (!out.empty()) { std::ofstream o(out); o << j.str(); } else std::cout << j.str();
    return rc;
}
#endif
