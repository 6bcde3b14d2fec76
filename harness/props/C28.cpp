#include "script.h"
#include <cstring>
#include <malloc.h>
#include <new>
#include <pthread.h>
const char* PROP_ID = "C28";
const char* PROP_RULE = "a history of at least three operations changed the level set and was replayed under a perturbation, repeated with the memory in use compared, run in a small stack, or run on a mesh of a million nodes";
const unsigned long QUICK_CASES = 4500, THOROUGH_CASES = 50000;

// Every allocation is filled with a chosen byte, and the bytes in use are counted.
static int fillByte = -1; static long live = 0;
static void* grab(size_t n)
{
    void* p = malloc(n ? n : 1); if (!p) return nullptr;
    if (fillByte >= 0) memset(p, fillByte, n); live += malloc_usable_size(p); return p;
}
static void drop(void* p) { if (p) { live -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

__attribute__((noinline, no_sanitize("address"))) static void smear(int byte)
{
    volatile char a[48 << 10]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char) byte;
}

static std::vector<uint64_t> alone(const Script& c, int fill, int& done)
{
    fillByte = fill; Machine m(c, false); while (m.more()) { smear(fill); m.step(); }
    done = m.done; fillByte = -1; return m.trace;
}

static void compare(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, const char* what)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    REQUIRE(a.size() == b.size() && i == a.size(), "%s: results differ from those of the history run alone, first at record %zu of %zu", what, i, a.size());
}

static int genByte(Src& s) { static const int v[] = {0, 0xff, 0x40, 0x3f, 0xbf, 1}; return s.chance(1, 3) ? (int) s.range(0, 255) : v[s.draw(6)]; }

static void replay(Src& s)
{
    Script c = genScript(s, 14, 6); if (!constructible(c)) throw Discard();
    int f1 = genByte(s), f2 = genByte(s), done; std::vector<uint64_t> a = alone(c, f1, done);
    bool reuse = s.chance(1, 2); unsigned how = s.weighted({2, 3, 3, 2});
    if (how == 0) { fillByte = f2; Machine m(c, reuse); while (m.more()) { smear(f2); m.step(); } fillByte = -1; compare(a, m.trace, reuse ? "with other memory contents, reusing one boundary" : "with other memory contents"); s.label("memory contents"); }
    else if (how == 1) { // others interleaved
        int n = (int) s.range(1, 2); std::vector<Script> o; for (int i = 0; i < n; i++) { o.push_back(genScript(s, 14, 4)); if (!constructible(o.back())) throw Discard(); }
        std::vector<std::vector<uint64_t>> want; for (auto& q : o) { int t; want.push_back(alone(q, f2, t)); }
        std::vector<std::unique_ptr<Machine>> ms; size_t early = s.draw(2); fillByte = f2;
        for (size_t i = 0; i < early; i++) ms.emplace_back(new Machine(o[i], reuse));
        std::unique_ptr<Machine> m(new Machine(c, reuse)); for (size_t i = early; i < o.size(); i++) ms.emplace_back(new Machine(o[i], reuse));
        while (m->more()) { if (s.chance(1, 2)) m->step(); else { auto& q = ms[s.draw(ms.size())]; if (q->more()) { smear(f2); q->step(); } else if (!s.chance(1, 2)) m->step(); } }
        for (auto& q : ms) while (q->more()) q->step();
        fillByte = -1; compare(a, m->trace, "interleaved with other level sets"); for (size_t i = 0; i < ms.size(); i++) compare(want[i], ms[i]->trace, "interleaved with other level sets");
        s.label("interleaved");
    }
    else if (how == 2) { // copies
        fillByte = f2; std::unique_ptr<Machine> m(new Machine(c, reuse)); size_t k = s.draw(c.ops.size() + 1); while (m->at < k) m->step();
        std::unique_ptr<Machine> d(new Machine(*m)); unsigned order = (unsigned) s.draw(4);
        if (order == 0) { while (m->more()) m->step(); compare(a, m->trace, "original of a copy"); m.reset(); while (d->more()) { smear(f2); d->step(); } }
        else if (order == 1) { m.reset(); while (d->more()) d->step(); }
        else if (order == 2) { while (d->more()) d->step(); compare(a, d->trace, "copy"); while (m->more()) m->step(); }
        else while (m->more() || d->more()) { if (m->more() && (s.chance(1, 2) || !d->more())) m->step(); else d->step(); }
        fillByte = -1; if (m) compare(a, m->trace, "original of a copy"); compare(a, d->trace, order == 1 ? "copy whose original is gone" : "copy");
        s.label("copied");
    }
    else { // generated values do not leak into later objects: the same history again, after others were made and discarded
        int n = (int) s.range(1, 3); for (int i = 0; i < n; i++) { Script o = genScript(s, 14, 3); if (!constructible(o)) throw Discard(); int t; alone(o, f2, t); }
        int t; compare(a, alone(c, f2, t), "after other level sets were made and destroyed"); s.label("afterwards");
    }
    s.nontrivial(done >= 3);
}

// The same state-preserving cycle again and again: memory in use stays level, and everything is returned at the end.
static void memory(Src& s)
{
    Script c = genScript(s, 12, 1); if (!constructible(c)) throw Discard();
    long before = live, mid[4] = {0, 0, 0, 0}; int reps = (int) s.range(2, 6); bool noisy = s.chance(1, 3), normals = s.chance(1, 2), fm = s.chance(1, 2), shared = s.chance(1, 2);
    bool any;
    {
        std::unique_ptr<LevelSet> l(construct(c)); ref::Grid g(c.w, c.h); any = hasInterface(g, l->signedDistance);
        if (any) {
            l->reinitialise(); Vec keep = l->signedDistance; Boundary b; MersenneTwister rng; slsm::FastMarchingMethod solver(l->mesh, false); Vec field; field.reserve(keep.size());
            for (int t = 0; t < 4; t++) {
                for (int r = 0; r < (t == 0 ? 2 : reps); r++) {
                    std::copy(keep.begin(), keep.end(), l->signedDistance.begin()); l->reinitialise();
                    std::copy(keep.begin(), keep.end(), l->signedDistance.begin()); b.discretise(*l); for (auto& p : b.points) p.velocity = 0;
                    if (!b.points.empty()) {
                        if (normals) b.computeNormalVectors(*l);
                        double dt = 0.1; if (noisy) { rng.setSeed(7); l->computeVelocities(b.points, dt, 0.0, rng); } else l->computeVelocities(b.points);
                        l->computeGradients(); l->computeAreaFractions(b); l->update(dt);
                    }
                    if (fm) { field.assign(keep.begin(), keep.end()); if (shared) solver.march(field); else { slsm::FastMarchingMethod one(l->mesh, false); one.march(field); } }
                    std::copy(keep.begin(), keep.end(), l->signedDistance.begin());
                }
                mid[t] = live;
            }
        }
    }
    long after = live;
    REQUIRE(mid[1] == mid[2] && mid[2] == mid[3], "repeating the same operations %d times each, memory in use goes %ld, %ld, %ld, %ld bytes", reps, mid[0] - before, mid[1] - before, mid[2] - before, mid[3] - before);
    REQUIRE(after == before, "%ld bytes are still in use after everything was destroyed", after - before);
    s.label("memory"); s.nontrivial(any);
}

struct Job { std::function<void()> f; bool failed = false; std::string msg; };
static void* threadMain(void* p) { Job* j = (Job*) p; try { j->f(); } catch (const Failure& x) { j->failed = true; j->msg = x.msg; } catch (const std::exception& x) { j->failed = true; j->msg = x.what(); } return nullptr; }

// A circle far from the edges of a large mesh: every result has its analytic counterpart.
static void circle(int w, int h, double cx, double cy, double r)
{
    std::vector<Hole> hs = {Hole(cx, cy, r)}; LevelSet ls(w, h, hs); ls.reinitialise(); ref::Grid g(w, h);
    size_t n = (size_t) (w + 1) * (h + 1); REQUIRE(ls.signedDistance.size() == n && ls.mesh.nNodes == n, "%zu distances for %zu nodes", ls.signedDistance.size(), n);
    for (int i = 0; i < g.n(); i++) {
        int x = g.X(i), y = g.Y(i); double e = std::min(std::min(x, w - x), std::min(y, h - y)), d = std::min(e, std::hypot(x - cx, y - cy) - r);
        if (std::fabs(ls.signedDistance[i] - d) > 0.35 + 0.02 * std::fabs(d)) fail("node (%d,%d) of a %dx%d mesh is at %.9g, the distance is %.9g", x, y, w, h, ls.signedDistance[i], d);
    }
    Boundary b; b.discretise(ls); double perimeter = 2 * (w + h) + 2 * M_PI * r;
    REQUIRE(std::fabs(b.length - perimeter) < 4e-2 * 2 * M_PI * r + 1e-6 * perimeter, "boundary length %.9g, expected %.9g", b.length, perimeter);
    double area = ls.computeAreaFractions(b), wantA = (double) w * h - M_PI * r * r;
    REQUIRE(std::fabs(area - wantA) < 0.05 * M_PI * r * r + 1e-9 * wantA, "area %.9g, expected %.9g", area, wantA);
    b.computeNormalVectors(ls);
    for (auto& p : b.points) { double q = std::hypot(p.coord.x - cx, p.coord.y - cy); p.velocity = 0; if (std::fabs(q - r) < 0.5) { double dot = (p.normal.x * (p.coord.x - cx) + p.normal.y * (p.coord.y - cy)) / q; REQUIRE(dot > 0.9, "normal at (%.6g,%.6g) is off: %.6g", p.coord.x, p.coord.y, dot); p.velocity = -1; } }
    ls.computeVelocities(b.points); ls.computeGradients(); ls.update(0.4);
    b.discretise(ls); double area2 = ls.computeAreaFractions(b), want2 = (double) w * h - M_PI * (r - 0.4) * (r - 0.4);
    REQUIRE(std::fabs(area2 - want2) < 0.3 * r + 0.03 * M_PI * r * r + 1e-9 * want2, "area %.9g after a step, expected %.9g", area2, want2);
    std::vector<Hole> m = {Hole(0.75 * w, 0.75 * h, 3.2)}; ls.mask(m); unsigned masked = 0; for (auto& q : ls.mesh.nodes) masked += q.isMasked;
    REQUIRE(masked >= 25 && masked <= 40, "%u nodes masked by a circle of radius 3.2", masked);
}

static void large(Src& s, bool huge)
{
    int w, h; if (huge) { w = (int) s.range(900, 1300); h = (int) s.range(900, 1100); if (s.chance(1, 3)) { w = (int) s.range(30, 60); h = 1000000 / w; if (s.chance(1, 2)) std::swap(w, h); } }
    else { w = (int) s.range(120, 260); h = (int) s.range(120, 260); if (s.chance(1, 3)) { w = (int) s.range(24, 40); h = 40000 / w; if (s.chance(1, 2)) std::swap(w, h); } }
    double r = s.uniform(3, 0.12 * std::min(w, h) + 1), cx = s.uniform(0.25 * w, 0.5 * w), cy = s.uniform(0.25 * h, 0.5 * h);
    if (std::min(std::min(cx, w - cx), std::min(cy, h - cy)) - r < 1.5) throw Discard();
    if (std::hypot(0.75 * w - cx, 0.75 * h - cy) < r + 6) throw Discard();
    s.desc("%dx%d circle (%.9g,%.9g) r %.9g%s", w, h, cx, cy, r, huge ? "" : ", small stack");
    Job j; j.f = [=]() { circle(w, h, cx, cy, r); };
    if (huge) { j.f(); s.label("a million nodes"); }
    else {
        pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 192 << 10);
        if (pthread_create(&t, &a, threadMain, &j)) throw Discard();
        pthread_join(t, nullptr); pthread_attr_destroy(&a); if (j.failed) fail("%s", j.msg.c_str());
        s.label("small stack");
    }
    s.nontrivial();
}

void property(Src& s)
{
    unsigned k = s.weighted({3500, 1000, 60, 3});
    if (k == 0) replay(s); else if (k == 1) memory(s); else large(s, k == 3);
}
