// The demonstration programs, run as programs: generated arguments and input files, and everything they print and write.
#include "io.h"
#include <cmath>
#include <cstdlib>
#include <unistd.h>
const char* PROP_ID = "C32";
const char* PROP_RULE = "a demonstration printed at least one sample whose boundary file was measured, or was given an input file or an option it has to refuse";
const unsigned long QUICK_CASES = 100, THOROUGH_CASES = 1600;

typedef std::vector<std::string> Args;
struct Seg { double x1, y1, x2, y2; double len() const { return std::hypot(x2 - x1, y2 - y1); } };
typedef std::vector<Seg> Segs;
typedef std::vector<Vec> Rows;

static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%g", v); return b; }
static ChildResult start(const std::string& name, const Args& a, long solves, double time = 0)
{
    const char* exe = getenv(("VERIF_DEMO_" + name).c_str()); if (!exe) { fprintf(stderr, "no %s program\n", name.c_str()); throw Discard(); }
    return run_child([&]() {
        std::vector<char*> v; v.push_back((char*) name.c_str()); for (auto& s : a) v.push_back((char*) s.c_str()); v.push_back(nullptr);
        setenv("VERIF_SOLVES", std::to_string(solves).c_str(), 1); setenv("VERIF_TIME", num(time).c_str(), 1); execv(exe, v.data()); _exit(95);
    }, 300);
}
// complete: the program said it is done; otherwise the number of solves has ended it
static bool ran(const ChildResult& r, const std::string& name)
{
    if (r.exited && r.code == 95) throw Discard();
    REQUIRE(r.exited && (r.code == 0 || r.code == 43), "%s ended with %s %d: %.400s", name.c_str(), r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
    return r.code == 0;
}
static void refused(const ChildResult& r, const std::string& name, const char* what)
{
    REQUIRE(r.exited && r.code == 1 && !(r.out + r.err).empty(), "%s with %s ended with %s %d instead of a reported failure: %.300s", name.c_str(), what, r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
}
static Rows rows(const std::string& text, size_t cols)
{
    Rows R; for (auto& l : io::lines(text)) { io::Lines t = io::tokens(l); if (t.size() != cols) continue; Vec v; for (auto& s : t) { double x; if (!io::numeric(s, x)) break; v.push_back(x); } if (v.size() == cols) R.push_back(v); }
    return R;
}
static Segs segs(const std::string& f)
{
    Segs S; REQUIRE(access(f.c_str(), R_OK) == 0, "%s was not written", f.c_str()); Vec p;
    for (auto& l : io::lines(io::slurp(f))) { io::Lines t = io::tokens(l); if (t.empty()) continue; double x, y; REQUIRE(t.size() == 2 && io::numeric(t[0], x) && io::numeric(t[1], y), "%s: line %s", f.c_str(), l.c_str()); p.push_back(x); p.push_back(y); if (p.size() == 4) { S.push_back({p[0], p[1], p[2], p[3]}); p.clear(); } }
    REQUIRE(p.empty() && !S.empty(), "%s holds half a segment, or none", f.c_str());
    return S;
}
static double length(const Segs& S) { double L = 0; for (auto& s : S) L += s.len(); return L; }
// area inside an outline seen whole from one point
static double area(const Segs& S, double x, double y) { double A = 0; for (auto& s : S) A += 0.5 * std::fabs((s.x1 - x) * (s.y2 - y) - (s.x2 - x) * (s.y1 - y)); return A; }
// without the outline of the domain
static Segs inner(const Segs& S, double w, double h) { Segs R; for (auto& s : S) if (!((s.x1 == s.x2 && (s.x1 == 0 || s.x1 == w)) || (s.y1 == s.y2 && (s.y1 == 0 || s.y1 == h)))) R.push_back(s); return R; }
static std::string boundaryFile(size_t k) { return "boundary-segments_" + io::number(k) + ".txt"; }
static void vtk(size_t k, size_t nodes)
{
    std::string f = "level-set_" + io::number(k) + ".vtk"; REQUIRE(access(f.c_str(), R_OK) == 0, "%s was not written", f.c_str());
    REQUIRE(io::slurp(f).find("POINT_DATA " + std::to_string(nodes)) != std::string::npos, "%s does not hold %zu nodes", f.c_str(), nodes);
}
// samples are taken at the first time at or past each multiple of the interval; late: the longest step
static void sampled(const Rows& R, double first, double step, double late, double half)
{
    for (size_t k = 0; k < R.size(); k++) { double t = first + k * step; REQUIRE(R[k][0] >= t - half && R[k][0] <= t + late + half, "sample %zu was taken at %g, not at %g", k + 1, R[k][0], t); }
}
// a running time that may be reached in n steps of dt
static double shorter(Src& s, double least, double most) { if (!s.chance(1, 2)) return 0; s.label("shortened run"); return s.real(least, most); }
static std::string warm(const char* n, double T) { char b[80]; snprintf(b, sizeof b, "%s_%.4f.txt", n, T); return b; }
static void finished(const std::string& f, size_t n, size_t cols, Rows& F)
{
    REQUIRE(access(f.c_str(), R_OK) == 0, "%s was not written", f.c_str()); F = rows(io::slurp(f), cols); REQUIRE(F.size() == n && io::lines(io::slurp(f)).size() == n, "%s has %zu lines for %zu samples", f.c_str(), F.size(), n);
}

static void minimiseArea(Src& s)
{
    long n = s.chance(1, 4) ? 1000 : s.range(3, 40); double end = shorter(s, 1, 15); s.desc("minimise_area, %ld steps, end %g", n, end); ChildResult r = start("minimise_area", {}, n, end); bool all = ran(r, "minimise_area"); Rows R = rows(r.out, 2);
    REQUIRE(R.size() >= (size_t) (all ? (end ? end : 50) : (n - 1) / 2), "%zu samples in %ld steps", R.size(), n); sampled(R, 1, 1, 0.51, 0.06);
    for (size_t k = 0; k < R.size(); k++) {
        Segs S = segs(boundaryFile(k + 1)); double L = length(S), t = R[k][0]; REQUIRE(std::fabs(L - R[k][1]) < 0.06, "sample %zu: printed length %g, the boundary file measures %g", k + 1, R[k][1], L);
        REQUIRE(std::fabs(L / (2 * M_PI) - (80 - t)) < 0.4, "at time %g the circle has radius %g", t, L / (2 * M_PI));
        for (auto& q : S) REQUIRE(std::fabs(std::hypot(q.x1 - 100, q.y1 - 100) - (80 - t)) < 0.8, "at time %g the outline passes through (%g,%g)", t, q.x1, q.y1);
        vtk(k + 1, 201 * 201); s.nontrivial();
    }
    if (all) { Rows F; finished("minimise_area.txt", R.size(), 2, F); for (size_t k = 0; k < F.size(); k++) REQUIRE(std::fabs(F[k][1] - F[k][0]) < 0.3 && std::fabs(F[k][0] - (R[k][0] - R[0][0])) < 0.11, "minimise_area.txt: distance %g after time %g", F[k][1], F[k][0]); s.label("run to the end"); }
    s.label("minimise_area");
}

static void minimisePerimeter(Src& s)
{
    long n = s.range(60, 130); double end = shorter(s, 30, 62); s.desc("minimise_perimeter, %ld steps, end %g", n, end); ChildResult r = start("minimise_perimeter", {}, n, end); bool all = ran(r, "minimise_perimeter"); Rows R = rows(r.out, 3);
    REQUIRE(R.size() >= 1, "no sample in %ld steps: %s", n, r.out.c_str());
    for (size_t k = 0; k < R.size(); k++) {
        Segs S = segs(boundaryFile(k + 1)); double L = length(S), t = R[k][0], rad = std::sqrt(6400 - 2 * t); REQUIRE(t >= 30 * (k + 1) - 0.06, "sample %zu was taken at %g", k + 1, t); REQUIRE(std::fabs(L - R[k][1]) < 0.06, "sample %zu: printed length %g, the boundary file measures %g", k + 1, R[k][1], L);
        REQUIRE(std::fabs(L / (2 * M_PI) - rad) < 0.25, "at time %g the circle has radius %g, expected %g", t, L / (2 * M_PI), rad);
        REQUIRE(std::fabs(R[k][2] - 1 / rad) < 0.15 / rad, "at time %g the mean curvature is %g, expected %g", t, R[k][2], 1 / rad); vtk(k + 1, 201 * 201); s.nontrivial();
    }
    if (all) { Rows F; finished("minimise_perimeter.txt", R.size() - 1, 5, F); for (size_t k = 0; k < F.size(); k++) { double rad = std::sqrt(6400 - 2 * R[k + 1][0]), d = (R[0][1] - R[k + 1][1]) / (2 * M_PI);
        REQUIRE(std::fabs(F[k][0] - (R[k + 1][0] - R[0][0])) < 0.11 && std::fabs(F[k][1] - d) < 0.02 && std::fabs(F[k][2] - 1 / rad) < 0.3 / rad && std::fabs(F[k][3] - R[k + 1][2]) < 6e-5 && std::fabs(F[k][4] - 2 * M_PI / R[k + 1][1]) < 1e-4, "minimise_perimeter.txt: %g %g %g %g %g for the sample at %g", F[k][0], F[k][1], F[k][2], F[k][3], F[k][4], R[k + 1][0]); } s.label("run to the end"); }
    s.label("minimise_perimeter");
}

static void constrained(Src& s)
{
    double T = s.chance(1, 2) ? 0 : s.chance(1, 2) ? s.real(0, 0.01) : s.real(0, 0.5); long n = s.range(40, 130); double end = shorter(s, 0.5, 3); Args a; if (s.chance(5, 6)) a.push_back(num(T)); else T = 0.1; s.desc("minimise_perimeter_constrained %g, %ld steps, end %g", T, n, end); ChildResult r = start("minimise_perimeter_constrained", a, n, end); bool all = ran(r, "minimise_perimeter_constrained"); Rows R = rows(r.out, 3); double last = 1;
    for (size_t k = 0; k < R.size(); k++) {
        Segs S = segs(boundaryFile(k + 1)); double L = length(S); REQUIRE(R[k][0] >= 0.5 * (k + 1) - 0.006, "sample %zu was taken at %g", k + 1, R[k][0]); REQUIRE(std::fabs(L - R[k][1]) < 0.06, "sample %zu: printed length %g, the boundary file measures %g", k + 1, R[k][1], L);
        vtk(k + 1, 201 * 201); s.nontrivial(); if (T > 0.01) continue;
        double A = 1 - area(S, 100, 100) / 40000; REQUIRE(std::fabs(A - R[k][2]) < 0.0075, "sample %zu: printed area fraction %g, the boundary file encloses %g", k + 1, R[k][2], A);
        REQUIRE(A > 0.595 && A <= last + 2e-3, "sample %zu: the material outside the shape covers %g, after %g", k + 1, A, last); last = A;
    }
    if (all) { Rows F; finished(warm("perimeter", T), R.size(), 3, F); for (size_t k = 0; k < F.size(); k++) REQUIRE(std::fabs(F[k][0] - (R[k][0] - R[0][0])) < 0.011 && std::fabs(F[k][1] - R[k][1]) < 0.051 && std::fabs(F[k][2] - R[k][2]) < 0.0051, "summary: %g %g %g for the sample at %g", F[k][0], F[k][1], F[k][2], R[k][0]); s.label("run to the end"); }
    s.label(T == 0 ? "minimise_perimeter_constrained" : "minimise_perimeter_constrained, warm");
}

// the energy of a boundary: every bit of it counts by its height; and its centre
struct Heavy { double upper, lower, reduce; double w(double y) const { return y > upper ? 1 : y < lower ? reduce : 1 - (upper - y) / (upper - lower) * (1 - reduce); } };
static void weigh(const Segs& S, const Heavy& h, double& L, double& cx, double& cy)
{
    L = cx = cy = 0; for (auto& q : S) { double W = 0; for (int j = 0; j < 10; j++) W += h.w(q.y1 + (j + 0.5) / 10 * (q.y2 - q.y1)) / 10; W *= q.len(); L += W; cx += W * (q.x1 + q.x2) / 2; cy += W * (q.y1 + q.y2) / 2; }
    cx /= L; cy /= L;
}
static double lobes(double r, double d) { return 2 * M_PI * r * r - (2 * r * r * std::acos(d / (2 * r)) - d / 2 * std::sqrt(4 * r * r - d * d)); }

// area on which an outline and the union of two circles disagree
static double differ(const Segs& S, double w, double h, double ax, double ay, double bx, double by, double r)
{
    const double d = 0.1; long n = 0; Vec c;
    for (double y = d / 2 + 1e-7; y < h; y += d) {
        c.clear(); for (auto& q : S) if ((q.y1 > y) != (q.y2 > y)) c.push_back(q.x1 + (y - q.y1) / (q.y2 - q.y1) * (q.x2 - q.x1)); std::sort(c.begin(), c.end()); size_t k = 0;
        for (double x = d / 2 + 1e-7; x < w; x += d) { while (k < c.size() && c[k] < x) k++; if (bool(k % 2) != (std::hypot(x - ax, y - ay) < r || std::hypot(x - bx, y - by) < r)) n++; }
    }
    return n * d * d;
}

static void circle(const std::string& f, int w, int h, double x, double y, double r, long drop, long add, bool binary)
{
    std::string t; long n = (w + 1) * (h + 1), i = 0; for (int b = 0; b <= h; b++) for (int a = 0; a <= w; a++) if (i++ < n - drop) { double v = std::hypot(a - x, b - y) - r; if (binary) t.append((char*) &v, 8); else { char c[40]; snprintf(c, sizeof c, "%.17g\n", v); t += c; } }
    for (long k = 0; k < add; k++) if (binary) { double v = 1; t.append((char*) &v, 8); } else t += "1\n";
    io::spit(f, t);
}

static void dumbbell(Src& s)
{
    double T = s.chance(1, 2) ? 0 : s.real(0, 0.05), red = s.real(0.4, 1); long n = s.range(60, 400); Args a; unsigned given = s.weighted({1, 1, 3, 6}); double reduce = given > 1 ? red : 0.65; if (given > 0) a.push_back(num(T)); else T = 0.02; if (given > 1) a.push_back(num(red)); bool bad = false, edge = false; double x = 50, y = 69, r0 = 15;
    if (given == 3) {
        unsigned k = s.weighted({3, 4, 1, 1, 1, 1}); long drop = 0, add = 0; std::string f = "start.txt"; const char* what = "a configuration";
        if (k == 0) { y = s.real(40, 70); r0 = s.real(6, 15); s.label("configuration file"); }
        else if (k == 1) { static const double e[][2] = {{50, 97}, {2, 69}, {98, 31}, {50, 3}}; unsigned j = s.weighted({1, 1, 1, 1}); x = e[j][0] + s.real(-1, 1); y = e[j][1] + s.real(-1, 1); r0 = s.real(6, 14); edge = true; s.label("configuration that crosses the edge of the domain"); }
        else if (k == 2) { drop = s.chance(1, 2) ? s.range(1, 10201) : 1; bad = true; what = "too few values"; }
        else if (k == 3) { add = s.chance(1, 2) ? 1 : s.range(1, 3000); bad = true; what = "too many values"; }
        else if (k == 4) { f = "none.txt"; bad = true; what = "a configuration that is not there"; }
        else { drop = s.range(1, 10000); bad = true; what = "words in the configuration"; }
        circle("start.txt", 100, 100, x, y, r0, drop, add, false); if (k == 5) io::spit("start.txt", io::slurp("start.txt") + "word\n" + std::string((size_t) drop, '1')); 
        a.push_back(f); s.desc("dumbbell %s %s from %s, %ld steps", a[0].c_str(), a[1].c_str(), what, n);
        if (bad) { refused(start("dumbbell", a, 3), "dumbbell", what); s.nontrivial(); s.label("bad configuration file"); return; }
    }
    else s.desc("dumbbell %s %s, %ld steps", given > 0 ? a[0].c_str() : "", given > 1 ? a[1].c_str() : "", n);
    double end = shorter(s, 40, 130); ChildResult r = start("dumbbell", a, n, end); bool all = ran(r, "dumbbell"); Rows R = rows(r.out, 3); Segs target = inner(segs(boundaryFile(0)), 100, 100); Heavy h = {69, 31, reduce}; double At = lobes(20, 38);
    REQUIRE(std::fabs(area(target, 50, 50) - At) < 6, "the target covers %g, two lobes %g", area(target, 50, 50), At);
    double late = -1;
    for (size_t k = 0; k < R.size(); k++) {
        Segs S = segs(boundaryFile(k + 1)); double L, cx, cy; weigh(S, h, L, cx, cy); s.nontrivial(); vtk(k + 1, 101 * 101);
        REQUIRE(R[k][0] >= 40 * (k + 1) - 0.06, "sample %zu was taken at %g", k + 1, R[k][0]);
        REQUIRE(std::fabs(L - R[k][1]) < 0.06, "sample %zu: printed length %g, the boundary file weighs %g", k + 1, R[k][1], L);
        if (edge) continue;
        double D = differ(inner(S, 100, 100), 100, 100, 50, 69, 50, 31, 20) / 10000; REQUIRE(std::fabs(D - R[k][2]) < 0.003, "sample %zu: printed mismatch %g, the shape and the target differ by %g", k + 1, R[k][2], D);
        if (given < 3) { REQUIRE(cy > 50, "without noise the shape left the upper lobe: its centre is at height %g", cy); if (late > 0) REQUIRE(R[k][2] < 0.2 + 2e-3, "sample %zu: the mismatch is %g", k + 1, R[k][2]); late = L; }
    }
    if (all) { Rows F; finished(warm("dumbbell", T), R.size(), 3, F); for (size_t k = 0; k < F.size(); k++) REQUIRE(std::fabs(F[k][0] - (R[k][0] - R[0][0])) < 0.11 && std::fabs(F[k][1] - R[k][1]) < 0.051 && std::fabs(F[k][2] - R[k][2]) < 5.1e-5, "summary: %g %g %g for the sample at %g", F[k][0], F[k][1], F[k][2], R[k][0]); s.label("run to the end"); }
    s.label(edge ? "dumbbell at the edge" : "dumbbell"); if (edge && r.code == 43) s.nontrivial();
}

static void bimodal(Src& s)
{
    double T = s.chance(1, 2) ? 0 : s.real(0, 0.3), g = s.real(0, 0.9); unsigned given = s.weighted({1, 1, 4}); Args a; if (given > 0) a.push_back(num(T)); else T = 0.05; if (given > 1) a.push_back(num(g)); else g = 0.02;
    long n = s.range(60, 500); double end = shorter(s, 1, 3); s.desc("bimodal T %g gravity %g, %ld steps, end %g", T, g, n, end); ChildResult r = start("bimodal", a, n, end); bool all = ran(r, "bimodal"); Rows R = rows(r.out, 5); REQUIRE(R.size() >= 1 || n < 300 || T > 0, "no sample in %ld steps", n); Heavy h = {51, 11, 1 - g};
    segs(boundaryFile(0));
    for (size_t k = 0; k < R.size(); k++) {
        Segs S = segs(boundaryFile(k + 1)); double L, cx, cy; weigh(S, h, L, cx, cy); s.nontrivial(); vtk(k + 1, 71 * 61); double t = k ? 1000 * k + 1 : 1;
        REQUIRE(R[k][0] >= t * 0.9999, "sample %zu was taken at %g", k + 1, R[k][0]); REQUIRE(std::fabs(L - R[k][1]) < 2e-4, "sample %zu: printed length %g, the boundary file weighs %g", k + 1, R[k][1], L);
        REQUIRE(std::fabs(cx - 35 - R[k][3]) < 2e-4 && std::fabs(cy - 30 - R[k][4]) < 2e-4, "sample %zu: printed position (%g,%g), the boundary file's centre is (%g,%g)", k + 1, R[k][3], R[k][4], cx - 35, cy - 30);
        double D = differ(inner(S, 70, 60), 70, 60, 45, 31, 25, 30, 20) / 4200; REQUIRE(std::fabs(D - R[k][2]) < 0.006, "sample %zu: printed mismatch %g, the shape and the target differ by %g", k + 1, R[k][2], D);
    }
    if (all) { Rows F; finished(warm("bimodal", T), R.size(), 5, F); for (size_t k = 0; k < F.size(); k++) { REQUIRE(std::fabs(F[k][0] - (R[k][0] - R[0][0])) < 2e-4 * R[k][0], "summary: time %g for the sample at %g", F[k][0], R[k][0]); for (int j = 1; j < 5; j++) REQUIRE(std::fabs(F[k][j] - R[k][j]) < 5.1e-5 + 1e-6, "summary: column %d is %g, printed %g", j + 1, F[k][j], R[k][j]); } s.label("run to the end"); }
    s.label("bimodal");
}

static double parameter(const std::string& out, const std::string& name)
{
    for (auto& l : io::lines(out)) { io::Lines t = io::tokens(l); double v; if (t.size() == 3 && t[0] == name && t[1] == "=" && io::numeric(t[2], v)) return v; }
    REQUIRE(false, "parameter %s was not printed", name.c_str()); return 0;
}
static void brollySamples(Src& s, const std::string& out, double c, const Heavy& h, long si, bool each, bool all, long n, bool edge, size_t& seen)
{
    char b[60]; snprintf(b, sizeof b, "%.2f", c); std::string tag = b; Rows R = rows(out, 5); seen = R.size(); if (all) REQUIRE((long) R.size() == n, "%zu samples instead of %ld", R.size(), n);
    Rows F = rows(io::slurp("brolly_" + tag + ".txt"), 5); REQUIRE(access(("brolly_" + tag + ".txt").c_str(), R_OK) == 0 && F.size() == R.size(), "brolly_%s.txt has %zu lines for %zu samples", tag.c_str(), F.size(), R.size());
    double t = 0;
    for (size_t k = 0; k < R.size(); k++) {
        for (int j = 1; j < 5; j++) REQUIRE(std::fabs(F[k][j] - R[k][j]) < 1.1e-4, "sample %zu: printed %g, recorded %g", k + 1, R[k][j], F[k][j]);
        REQUIRE(F[k][0] > t && std::fabs(F[k][0] - R[k][0]) <= 0.0051 * R[k][0], "sample %zu at time %g after %g", k + 1, F[k][0], t); t = F[k][0];
        double tr = R[k][4] * si * (k + 1); REQUIRE(tr > -1e-9 && tr < si * (k + 1) * 1.0001 && std::fabs(tr - std::round(tr)) < 6e-5 * si * (k + 1) + 1e-9, "sample %zu: acceptance %g of %ld trials", k + 1, R[k][4], si * (long) (k + 1));
        std::string f = each ? boundaryFile(k + 1) : "boundary-segments_" + tag + ".txt"; if (!each && k + 1 < R.size()) continue;
        double L, cx, cy; weigh(segs(f), h, L, cx, cy); s.nontrivial(); REQUIRE(std::fabs(L - R[k][2]) < 2e-4, "sample %zu: printed length %g, the boundary file weighs %g", k + 1, R[k][2], L);
        double D = differ(inner(segs(f), 70, 60), 70, 60, 45, 31, 25, 30, 20) / 4200; REQUIRE(edge || std::fabs(D - R[k][3]) < 0.006, "sample %zu: printed mismatch %g, the shape and the target differ by %g", k + 1, R[k][3], D);
        REQUIRE(std::fabs(cx - 35 - R[k][1]) < 0.3, "sample %zu: printed position %g, the boundary file's centre is at %g", k + 1, R[k][1], cx - 35);
    }
    if (!R.empty()) { REQUIRE(io::slurp("level-set_" + tag + ".bin").size() == 71 * 61 * 8, "level-set_%s.bin has %zu bytes", tag.c_str(), io::slurp("level-set_" + tag + ".bin").size()); if (each) REQUIRE(io::slurp("boundary-segments_" + tag + ".txt") == io::slurp(boundaryFile(R.size())), "the last boundary file is not the last sample's"); }
}
static void brolly(Src& s)
{
    struct O { const char* brief; const char* full; const char* name; double v; bool given; };
    O o[] = {{"-t", "--temperature", "temperature", (double) s.range(1, 30) / 100, false}, {"-g", "--gravity", "gravityMult", (double) s.range(0, 90) / 100, false}, {"-c", "--centre", "centre", (double) s.range(-12, 12), false}, {"-s", "--spring", "spring", (double) s.range(0, 40) / 100, false},
        {"-ui", "--umbrella-interval", "umbrellaInterval", (double) s.range(1, 60) / 100, false}, {"-si", "--sample-interval", "sampleInterval", (double) s.range(1, 6), false}, {"-n", "--number-samples", "nSamples", (double) s.range(1, 6), false}};
    static const double std_[] = {0.05, 0.02, 10, 0.2, 1, 10, 10000}; Args a; bool each = s.chance(1, 2), lng = s.chance(1, 3);
    for (int i = 0; i < 7; i++) if (s.chance(4, 5)) { o[i].given = true; a.push_back(s.chance(lng ? 2 : 1, lng ? 3 : 4) ? o[i].full : o[i].brief); a.push_back(num(o[i].v)); }
    if (each) a.push_back(s.chance(1, 3) ? "--boundary-sample" : "-b");
    if (s.chance(1, 3) && a.size() > 3) { size_t k = a.size() - (each ? 3 : 2); std::swap(a[0], a[k]); std::swap(a[1], a[k + 1]); }
    auto show = [&]() { std::string t; for (auto& q : a) t += " " + (q.size() > 60 ? q.substr(0, 60) + "..." : q); return t; };
    unsigned odd = s.weighted({14, 1, 1, 2});
    if (odd == 1) { a.insert(a.begin(), s.chance(1, 2) ? "-h" : "--help"); s.desc("bimodal_brolly%s", show().c_str()); ChildResult r = start("bimodal_brolly", a, 3); ran(r, "bimodal_brolly"); REQUIRE(r.code == 0, "help does not end the program"); for (auto& q : o) REQUIRE(r.out.find(std::string(q.brief) + "/" + q.full) != std::string::npos, "help does not name %s/%s", q.brief, q.full); s.nontrivial(); s.label("help"); return; }
    if (odd == 2) { static const char* w[] = {"-x", "temperature", "--unknown", "-", ""}; a.insert(a.begin(), w[s.range(0, 4)]); s.desc("bimodal_brolly%s", show().c_str()); refused(start("bimodal_brolly", a, 3), "bimodal_brolly", "an unknown option"); s.nontrivial(); s.label("unknown option"); return; }
    if (odd == 3) { long k = s.range(0, 7); a.push_back(k == 7 ? (s.chance(1, 2) ? "-r" : "--restart") : s.chance(1, 2) ? o[k].brief : o[k].full); s.desc("bimodal_brolly%s", show().c_str()); refused(start("bimodal_brolly", a, 3), "bimodal_brolly", "an option that lacks its value"); s.nontrivial(); s.label("option without value"); return; }
    unsigned from = s.weighted({5, 2, 4, 1, 1}); std::string f; bool edge = false;
    if (from) {
        long drop = 0, add = 0; double x = s.real(20, 50), y = 30, rad = s.real(6, 12); if (from == 2) { static const double e[][2] = {{35, 58}, {2, 30}, {68, 31}, {35, 2}}; unsigned j = s.weighted({1, 1, 1, 1}); x = e[j][0] + s.real(-1, 1); y = e[j][1] + s.real(-1, 1); edge = true; }
        if (from == 3) drop = s.range(1, 4331); if (from == 4) add = s.range(1, 50);
        f = s.chance(1, 4) ? std::string((size_t) s.range(90, 200), 'r') + ".bin" : "restart.bin"; circle(f, 70, 60, x, y, rad, drop, add, true); a.push_back(s.chance(1, 3) ? "--restart" : "-r"); a.push_back(f);
        if (f.size() > 99) s.label("long file name");
    }
    long n = s.range(20, 150); s.desc("bimodal_brolly%s, %ld steps", show().c_str(), n);
    if (from > 2) { refused(start("bimodal_brolly", a, 3), "bimodal_brolly", "a restart file of the wrong size"); s.nontrivial(); s.label("bad restart file"); return; }
    ChildResult r = start("bimodal_brolly", a, n); bool all = ran(r, "bimodal_brolly"); double v[7];
    for (int i = 0; i < 7; i++) { v[i] = o[i].given ? o[i].v : std_[i]; double got = parameter(r.out, o[i].name); REQUIRE(std::fabs(got - v[i]) < 0.0051, "%s is %g, not %g", o[i].name, got, v[i]); }
    Heavy h = {51, 11, 1 - v[1]}; size_t seen; brollySamples(s, r.out, v[2], h, (long) v[5], each, all, (long) v[6], edge, seen); if (edge) { s.label("restart that crosses the edge of the domain"); s.nontrivial(); }
    if (all) s.label("run to the end");
    s.label(from ? "bimodal_brolly, restarted" : "bimodal_brolly");
}

static void shapeMatch(Src& s)
{
    bool none = s.chance(1, 8), inner = s.chance(1, 2); if (none) { s.desc("shape_match without the shape"); refused(start("shape_match", {}, 3), "shape_match", "no shape file"); s.nontrivial(); s.label("shape_match without the shape"); return; }
    int k = (int) s.range(3, 12); double rad = inner ? s.real(20, 90) : s.real(110, 190) / std::cos(M_PI / k), tilt = s.real(0, 1); if (!inner && rad > 195) rad = 195; if (!inner && rad * std::cos(M_PI / k) < 105) { k = 12; rad = 190; } long n = s.range(12, 40); std::string t; double A = 0.5 * k * rad * rad * std::sin(2 * M_PI / k);
    for (int i = k; i >= 0; i--) { char b[80]; double q = 2 * M_PI * (i % k + tilt) / k; snprintf(b, sizeof b, "%.6f %.6f\n", 200 + rad * std::cos(q), 200 + rad * std::sin(q)); t += b; }
    if (s.chance(1, 2)) { mkdir("demos", 0700); mkdir("demos/shapes", 0700); io::spit("demos/shapes/stanford-bunny.txt", t); } else { mkdir("shapes", 0700); io::spit("shapes/stanford-bunny.txt", t); }
    double end = shorter(s, 1, 3); Args a; if (s.chance(1, 3)) a.push_back("0"); s.desc("shape_match with %d corners at distance %g, %ld steps, end %g", k, rad, n, end); ChildResult r = start("shape_match", a, n, end); bool all = ran(r, "shape_match"); Rows R = rows(r.out, 2); REQUIRE(all || R.size() >= (size_t) (n / 11), "%zu samples in %ld steps", R.size(), n); double last = 1e9;
    for (size_t i = 0; i < R.size(); i++) {
        Segs S = segs(boundaryFile(i + 1)); double mine = area(S, 200, 200), m = std::fabs(A - mine) / 160000; s.nontrivial(); vtk(i + 1, 401 * 401);
        REQUIRE(std::fabs(m - R[i][1]) < 4e-4, "sample %zu: printed mismatch %g, the shape and the target differ by %g", i + 1, R[i][1], m); REQUIRE(R[i][1] < last, "sample %zu: the mismatch grew to %g", i + 1, R[i][1]); last = R[i][1];
    }
    sampled(R, 1, 1, 0.2, 0.06); s.label("shape_match");
    if (all) { Rows F; finished(warm("shape-match", 0), R.size(), 2, F); for (size_t i = 0; i < F.size(); i++) REQUIRE(std::fabs(F[i][0] - (R[i][0] - R[0][0])) < 0.11 && std::fabs(F[i][1] - R[i][1]) < 5.1e-5, "summary: %g %g for the sample at %g", F[i][0], F[i][1], R[i][0]); s.label("run to the end"); }
}

void property(Src& s)
{
    io::Dir d; unsigned which = s.weighted({8, 6, 3, 3, 2, 1, 1});
    switch (which) { case 0: brolly(s); break; case 1: dumbbell(s); break; case 2: bimodal(s); break; case 3: constrained(s); break; case 4: shapeMatch(s); break; case 5: minimiseArea(s); break; default: minimisePerimeter(s); }
}
