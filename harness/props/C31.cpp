#include "script.h"
#include "io.h"
#include "optim.h"
#include <atomic>
#include <pthread.h>
const char* PROP_ID = "C31";
const char* PROP_RULE = "at least two threads each carried out three or more operations that changed their level set, or at least three threads read one level set, and every result was compared with that of the same work done alone";
const unsigned long QUICK_CASES = 4000, THOROUGH_CASES = 60000;

namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }

// a solver without memory: the middle, a probe of every function, and a point that depends on the gradients
static nlopt::result plainSolver(nlopt::opt& o, std::vector<double>& x, double& f)
{
    Vec g(o.n), none; f = o.objective.f(x, g, o.objective.data);
    for (auto* l : {&o.inequality, &o.equality}) for (auto& q : *l) { Vec h(o.n); q.f(x, h, q.data); for (size_t i = 0; i < o.n; i++) g[i] += 0.25 * h[i]; }
    for (size_t i = 0; i < o.n; i++) x[i] = g[i] > 0 ? 0.7 * o.lb[i] : 0.6 * o.ub[i];
    f = o.objective.f(x, none, o.objective.data); return nlopt::XTOL_REACHED;
}

typedef std::vector<uint64_t> Trace;
struct Job {
    std::function<Trace()> f; Trace t; bool failed = false; std::string msg; std::atomic<int>* gate = nullptr; int n = 0;
    void run() { try { t = f(); } catch (const Failure& x) { failed = true; msg = x.msg; } catch (const std::exception& x) { failed = true; msg = x.what(); } }
};
static void* threadMain(void* p) { Job* j = (Job*) p; j->gate->fetch_add(1); while (j->gate->load() < j->n) sched_yield(); j->run(); return nullptr; }

// all at once first (so that nothing is prepared by an earlier, lone run), then one after another
static void together(std::vector<Job>& js, const char* what)
{
    std::atomic<int> gate(0); std::vector<pthread_t> ts; std::vector<Trace> got;
    for (auto& j : js) { j.gate = &gate; j.n = (int) js.size(); }
    for (auto& j : js) { pthread_t t; if (pthread_create(&t, nullptr, threadMain, &j)) { gate = 1000; for (auto& u : ts) pthread_join(u, nullptr); throw Discard(); } ts.push_back(t); }
    for (auto& t : ts) pthread_join(t, nullptr);
    for (size_t i = 0; i < js.size(); i++) if (js[i].failed) fail("%s, thread %zu: %s", what, i, js[i].msg.c_str());
    for (auto& j : js) got.push_back(j.t);
    for (size_t i = 0; i < js.size(); i++) {
        js[i].run(); if (js[i].failed) fail("%s, %zu done alone: %s", what, i, js[i].msg.c_str());
        size_t k = 0; while (k < got[i].size() && k < js[i].t.size() && got[i][k] == js[i].t[k]) k++;
        if (k < got[i].size() || k < js[i].t.size()) fail("%s: the results of thread %zu of %zu differ from those of the same work done alone, first at record %zu of %zu", what, i, js.size(), k, got[i].size());
    }
}

static uint64_t text(const std::string& t) { uint64_t h = 14695981039346656037ULL; for (char c : t) h = (h ^ (unsigned char) c) * 1099511628211ULL; return h; }
static void pushPoints(Hash& h, const std::vector<BoundaryPoint>& v) { for (auto& p : v) { h.d(p.coord.x); h.d(p.coord.y); h.d(p.normal.x); h.d(p.normal.y); h.d(p.length); h.d(p.velocity); h.v(p.sensitivities); } }

// a history of its own in every thread, with the parts of the library that a single level set does not use
static void separate(Src& s)
{
    int n = (int) s.range(2, 4); std::vector<Job> js(n); std::vector<Script> cs; std::vector<unsigned> seeds, extras; std::vector<std::string> dirs; io::Dir dir; std::vector<int> done(n);
    bool same = s.chance(1, 3); // all of them the same history
    for (int i = 0; i < n; i++) {
        if (i && same) cs.push_back(cs[0]); else cs.push_back(genScript(s, 12, 5));
        if (!constructible(cs.back())) throw Discard();
        seeds.push_back((unsigned) s.draw(1000)); extras.push_back((unsigned) s.draw(128)); dirs.push_back(dir.path + "/t" + std::to_string(i)); mkdir(dirs.back().c_str(), 0700);
    }
    for (int i = 0; i < n; i++) {
        const Script* c = &cs[i]; unsigned seed = seeds[i], extra = extras[i]; std::string d = dirs[i]; int* dn = &done[i];
        js[i].f = [c, seed, extra, d, dn]() {
            Machine m(*c, seed % 2 == 0); MersenneTwister rng; rng.setSeed(seed); slsm::InputOutput io; ref::Grid g(c->w, c->h); int round = 0;
            while (m.more()) {
                m.step(); Hash h; round++; LevelSet& l = *m.ls;
                if (extra & 1) { for (int k = 0; k < 5; k++) { h.d(rng()); h.d(rng.normal()); h.u(rng.integer(-5, 50)); h.d(rng.normal(1, 2)); } }
                if (extra & 2) { std::string f = d + "/a.txt", b = d + "/a.bin", v = d + "/a.vtk"; io.saveLevelSetTXT(f, l, round % 2); io.saveLevelSetVTK(v, l, true, true); io.saveLevelSetBIN(b, l); h.u(text(io::slurp(f))); h.u(text(io::slurp(b))); h.u(text(io::slurp(v))); LevelSet k(c->w, c->h, c->holes); io.loadLevelSetBIN(b, k); h.v(k.signedDistance); io.loadLevelSetTXT(f, k, round % 2); h.v(k.signedDistance); }
                if (extra & 64) { // numbered files
                    unsigned k = 1 + (seed + round) % 9; auto get = [&](const char* kind, const char* ext) { std::string f = d + "/" + kind + "_000" + std::to_string(k) + ext; h.u(text(io::slurp(f))); unlink(f.c_str()); };
                    io.saveLevelSetTXT(k, l, d); get("level-set", ".txt"); io.saveLevelSetVTK(k, l, true, false, d); get("level-set", ".vtk"); io.saveLevelSetBIN(k, l, d); LevelSet q(c->w, c->h, c->holes); io.loadLevelSetBIN(k, q, d); h.v(q.signedDistance); get("level-set", ".bin");
                    if (m.haveB) { io.saveBoundaryPointsTXT(k, m.b, d); get("boundary-points", ".txt"); io.saveBoundarySegmentsTXT(k, m.b, d); get("boundary-segments", ".txt"); } if (m.area) { io.saveAreaFractionsTXT(k, l.mesh, d); get("area", ".txt"); io.saveAreaFractionsVTK(k, l.mesh, d); get("area", ".vtk"); }
                }
                if (extra & 4) { for (int k = 0; k < 6; k++) { double x = rng() * c->w, y = rng() * c->h; h.u(l.mesh.getClosestNode(x, y)); h.u(l.mesh.getElement(x, y)); } }
                if ((extra & 8) && m.haveB) { slsm::Sensitivity t(1e-3); slsm::SensitivityCallback cb = [](const BoundaryPoint& p) { return p.coord.x * p.coord.y; }; for (auto& p : m.b.points) { if (hashd(p.coord.x) == hashd(p.normal.x)) continue; if (m.normals) p.sensitivities[1] = t.computeSensitivity(p, cb); h.d(m.b.computePerimeter(p)); } pushPoints(h, m.b.points); }
                if ((extra & 16) && m.haveB && m.b.points.size() > 3) {
                    std::vector<BoundaryPoint> pts = m.b.points; for (auto& p : pts) { p.isFixed = false; p.sensitivities = {sin(p.coord.x + 0.3 * p.coord.y) + 0.1, -1.0}; }
                    Vec dist(1, seed % 3 ? 0.4 : -0.4), lam = {-0.2, 0.1}; double dt = 1; slsm::Optimise o(pts, dist, lam, dt, c->ml, seed % 2); h.d(o.solve()); h.v(lam); h.d(dt); pushPoints(h, pts);
                }
                if (extra & 32) { // the queue
                    slsm::Heap q(12, true); for (int k = 0; k < 12; k++) q.push(k, rng.integer(0, 6)); for (int k = 0; k < 6; k++) q.set(rng.integer(0, 11), rng.integer(0, 9)); while (!q.empty()) { unsigned a; double v; q.pop(a, v); h.u(a); h.d(v); }
                    std::string f = d + "/p.txt"; if (m.haveB) { io.saveBoundaryPointsTXT(f, m.b); h.u(text(io::slurp(f))); io.saveBoundarySegmentsTXT(f, m.b); h.u(text(io::slurp(f))); } if (m.area) { io.saveAreaFractionsTXT(f, l.mesh); h.u(text(io::slurp(f))); }
                }
                m.trace.push_back(h.h);
            }
            *dn = m.done; return m.trace;
        };
    }
    together(js, "separate level sets");
    for (auto& d : dirs) { io::Dir::clear(d); rmdir(d.c_str()); }
    int busy = 0; for (int v : done) if (v >= 3) busy++;
    s.label(same ? "the same history in every thread" : "separate level sets"); s.nontrivial(busy >= 2);
}

// one level set, only read, by several threads
static void readers(Src& s)
{
    Script c = genScript(s, 14, 3); if (!constructible(c)) throw Discard();
    int n = (int) s.range(2, 4); io::Dir dir; Machine m(c, false); ref::Grid g(c.w, c.h); while (m.more()) m.step();
    if (!hasInterface(g, m.ls->signedDistance)) throw Discard();
    m.bd(); if (m.b.points.size() < 2) throw Discard(); for (auto& p : m.b.points) p.velocity = sin(p.coord.x);
    const LevelSet& l = *m.ls; const Boundary& b = m.b; Snapshot before(l); std::vector<Job> js(n); 
    for (int i = 0; i < n; i++) {
        unsigned seed = (unsigned) s.draw(1000), what = 1 + (unsigned) s.draw(63); std::string d = dir.path + "/r" + std::to_string(i); mkdir(d.c_str(), 0700);
        js[i].f = [&l, &b, &c, seed, what, d]() {
            Trace t; MersenneTwister rng; rng.setSeed(seed); slsm::InputOutput io;
            for (int r = 0; r < 2; r++) {
                Hash h;
                if (what & 1) for (int k = 0; k < 8; k++) { double x = rng() * c.w, y = rng() * c.h; h.u(l.mesh.getClosestNode(x, y)); h.u(l.mesh.getElement(x, y)); h.u(l.mesh.getClosestNode(Coord(x, y))); }
                if (what & 2) { std::string f = d + "/a"; io.saveLevelSetTXT(f, l); h.u(text(io::slurp(f))); io.saveLevelSetVTK(f, l, true, true); h.u(text(io::slurp(f))); io.saveBoundaryPointsTXT(f, b); h.u(text(io::slurp(f))); io.saveBoundarySegmentsTXT(f, b); h.u(text(io::slurp(f))); io.saveAreaFractionsVTK(f, l.mesh); h.u(text(io::slurp(f))); io.saveLevelSetBIN(f, l); h.u(text(io::slurp(f))); }
                if (what & 4) { slsm::FastMarchingMethod fm(l.mesh, r); Vec f = l.signedDistance, v = l.velocity; fm.march(f); h.v(f); Vec f2 = l.signedDistance; fm.march(f2, v); h.v(v); }
                if (what & 8) { Boundary k = b; k.computeNormalVectors(l); pushPoints(h, k.points); slsm::Sensitivity q; q.itoCorrection(k, l, 0.3); pushPoints(h, k.points); for (auto& p : k.points) h.d(k.computePerimeter(p)); }
                if (what & 16) { LevelSet k = l; Boundary q; q.discretise(k); h.d(k.computeAreaFractions(q)); h.d(q.length); k.reinitialise(); h.v(k.signedDistance); }
                if (what & 32) { Boundary k = b; std::vector<BoundaryPoint> pts = b.points; LevelSet q = l; q.computeVelocities(pts); q.computeGradients(); h.v(q.velocity); h.v(q.gradient); }
                t.push_back(h.h);
            }
            return t;
        };
    }
    together(js, "one level set read by several threads");
    requireSame(before, Snapshot(l), ~0u, "reading");
    for (int i = 0; i < n; i++) { std::string d = dir.path + "/r" + std::to_string(i); io::Dir::clear(d); rmdir(d.c_str()); }
    s.label("one level set read by all"); s.nontrivial(n >= 3);
}

void property(Src& s)
{
    nlopt::stub_solver = plainSolver;
    if (s.chance(1, 4)) readers(s); else separate(s);
}
