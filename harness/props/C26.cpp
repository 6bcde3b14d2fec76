#include "optim.h"
#include <unistd.h>
const char* PROP_ID = "C26";
const char* PROP_RULE = "exactly one requirement is violated, or every argument is valid with at least one within rounding (or one unit) of its limit, or a queue is overrun after at least three operations";
const unsigned long QUICK_CASES = 11700, THOROUGH_CASES = 120000;

namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }

static void verdict(const ChildResult& r, bool valid, const char* what)
{
    REQUIRE(!r.timeout, "%s did not end", what);
    if (valid) REQUIRE(r.exited && r.code == 42, "%s is valid but ended in %s %d: %.300s", what, r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
    else {
        REQUIRE(!(r.exited && r.code == 42), "%s was accepted", what);
        REQUIRE(r.exited && r.code == 1, "%s ended in %s %d instead of a reported failure: %.300s", what, r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
        REQUIRE(!r.err.empty(), "%s ended without saying why", what);
    }
}

// A number around the open interval (0,1).
static double around(Src& s, bool& valid, bool& tight)
{
    static const double ok[] = {0.5, 0.1, 0.9, 1e-3, 0.999, 1e-9, 1 - 1e-9, 1 - 1.2e-16, 5e-324, 1e-300};
    static const double bad[] = {0, 1, -0.0, 1.5, -0.5, 1 + 2.3e-16, -5e-324, -1e-9, 2, 1e300, -1e300, INFINITY, -INFINITY, NAN};
    tight = false;
    if (!s.chance(1, 3)) { valid = true; int k = (int) s.weighted({6, 2, 2, 1, 1, 1, 1, 1, 1, 1}); tight = k > 4; return ok[k]; }
    valid = false; return bad[s.draw(14)];
}

static void check(const LevelSet& ls, int w, int h, double ml)
{
    size_t n = (size_t) (w + 1) * (h + 1);
    REQUIRE(ls.signedDistance.size() == n && ls.velocity.size() == n && ls.gradient.size() == n && ls.moveLimit == ml, "an accepted level set has the wrong size or limit");
    for (double v : ls.signedDistance) REQUIRE(fin(v), "an accepted level set holds %g", v);
    REQUIRE(ls.nNarrowBand <= n && ls.nMines <= ls.nNarrowBand && ls.nNarrowBand <= ls.narrowBand.size() && ls.nMines <= ls.mines.size(), "an accepted level set has an inconsistent band");
}

static void constructors(Src& s)
{
    unsigned which = (unsigned) s.draw(6); bool vm, tm; double ml = around(s, vm, tm);
    static const unsigned bands[] = {6, 3, 4, 40, 2, 1, 0, 1000, 3}; static const unsigned big[] = {4294967295u, 2147483648u, 2147483647u, 100000};
    unsigned band = s.chance(1, 12) ? big[s.draw(4)] : bands[s.weighted({6, 3, 1, 1, 2, 1, 1, 1, 1})];
    bool vb = band > 2, fixed = s.chance(1, 3); int w, h; bool vs = true, ts = false;
    std::vector<Hole> a, b; std::vector<Coord> p, q;
    if (which == 0) {
        // around three holes in each direction, which takes a mesh of 75 by 75
        auto side = [&]() { unsigned k = s.weighted({4, 2, 2, 1}); return (int) (k == 0 ? s.range(73, 77) : k == 1 ? s.range(1, 74) : k == 2 ? s.range(75, 130) : 15 * s.range(1, 8)); };
        w = side(); h = side(); vs = w >= 75 && h >= 75; ts = std::min(w, h) <= 76 && vs;
    }
    else {
        w = (int) s.range(1, 16); h = (int) s.range(1, 16); bool cw;
        if (which != 2 && which != 5) a = s.chance(1, 6) ? std::vector<Hole>() : genHoles(s, w, h, 3);
        if (which == 3) b = s.chance(1, 6) ? std::vector<Hole>() : genHoles(s, w, h, 3);
        if (which == 2 || which == 4 || which == 5) p = genPolygon(s, std::max(w, 3), std::max(h, 3), cw);
        if (which == 5) q = genPolygon(s, std::max(w, 3), std::max(h, 3), cw);
        // a target with no interface cannot be made into a distance
        if (which == 3 && s.chance(1, 6)) { b = {Hole(0.5 * w, 0.5 * h, w + h + 1.0)}; }
        if (which >= 3 && vm && vb) {
            std::vector<Hole> none; LevelSet t(w, h, none, 0.5, 6);
            LevelSet u = which == 3 ? LevelSet(w, h, b) : LevelSet(w, h, which == 4 ? p : q);
            vs = hasInterface(ref::Grid(w, h), u.signedDistance);
            // within rounding of losing it
            for (double v : u.signedDistance) if (v != 0 && std::fabs(v) < 1e-9) throw Discard();
        }
    }
    static const char* names[] = {"default", "holes", "points", "holes and target holes", "holes and target points", "points and target points"};
    s.desc("%s constructor, %dx%d, move limit %.17g, band %u%s", names[which], w, h, ml, band, fixed ? ", fixed" : "");
    bool valid = vm && vb && vs;
    ChildResult r = run_child([&]() {
        switch (which) {
            case 0: { LevelSet l(w, h, ml, band, fixed); check(l, w, h, ml); break; }
            case 1: { LevelSet l(w, h, a, ml, band, fixed); check(l, w, h, ml); break; }
            case 2: { LevelSet l(w, h, p, ml, band, fixed); check(l, w, h, ml); break; }
            case 3: { LevelSet l(w, h, a, b, ml, band, fixed); check(l, w, h, ml); REQUIRE(l.target.size() == l.signedDistance.size(), "target of the wrong size"); break; }
            case 4: { LevelSet l(w, h, a, p, ml, band, fixed); check(l, w, h, ml); REQUIRE(l.target.size() == l.signedDistance.size(), "target of the wrong size"); break; }
            default: { LevelSet l(w, h, p, q, ml, band, fixed); check(l, w, h, ml); REQUIRE(l.target.size() == l.signedDistance.size(), "target of the wrong size"); }
        }
    }, 10);
    verdict(r, valid, "constructing a level set");
    s.label(names[which]); s.label(valid ? "valid" : !vm ? "bad move limit" : !vb ? "bad band width" : which ? "target without an interface" : "mesh too small for the default structure");
    s.nontrivial(!vm + !vb + !vs == 1 || (valid && (tm || band == 3 || ts)));
}

// A history of queue operations that ends in an overrun.
static void queue(Src& s)
{
    unsigned cap = (unsigned) s.range(0, 12); bool test = s.chance(1, 2); int nops = (int) s.range(0, 40);
    struct Op { int k; unsigned a; double v; }; std::vector<Op> ops; std::vector<int> stored; unsigned n = 0;
    std::vector<std::pair<double, unsigned>> model; std::vector<double> key; // key by handle
    std::vector<bool> in; int end = (int) s.weighted({3, 3, 3}); // 0 push when full, 1 pop when empty, 2 peek when empty
    std::vector<double> expected; // smallest key for each pop and peek
    auto smallest = [&]() { int b = -1; for (size_t i = 0; i < key.size(); i++) if (in[i] && (b < 0 || key[i] < key[b])) b = (int) i; return b; };
    auto push = [&]() { ops.push_back({0, (unsigned) s.draw(100), (double) s.range(0, 1000000) + 1e-7 * key.size()}); key.push_back(ops.back().v); in.push_back(true); n++; };
    auto pop = [&]() { int b = smallest(); ops.push_back({1, 0, key[b]}); in[b] = false; n--; };
    for (int i = 0; i < nops; i++) {
        unsigned k = s.weighted({5, 3, 1, 2});
        if (k == 0 && n < cap) push(); else if (k == 1 && n) pop();
        else if (k == 2 && n) ops.push_back({2, 0, key[smallest()]});
        else if (k == 3 && n) { std::vector<unsigned> c; for (size_t j = 0; j < key.size(); j++) if (in[j]) c.push_back((unsigned) j); unsigned t = s.pick(c); double v = (double) s.range(0, 1000000) + 1e-7 * t + 3e-8; ops.push_back({3, t, v}); key[t] = v; }
    }
    if (end == 0) while (n < cap) push(); else while (n) pop();
    s.desc("queue of capacity %u, %zu operations, then %s", cap, ops.size(), end == 0 ? "an insertion when full" : end == 1 ? "a removal when empty" : "a look when empty");
    ChildResult r = run_child([&]() {
        slsm::Heap h(cap, test);
        for (auto& o : ops) {
            unsigned a; double v;
            if (o.k == 0) h.push(o.a, o.v);
            else if (o.k == 1) { h.pop(a, v); REQUIRE(v == o.v, "removed key %.12g, the smallest is %.12g", v, o.v); }
            else if (o.k == 2) REQUIRE(h.peek() == o.v, "shown key %.12g, the smallest is %.12g", h.peek(), o.v);
            else h.set(o.a, o.v);
        }
        REQUIRE(h.size() == n && h.empty() == (n == 0), "size %u, %u entries stored", h.size(), n);
        if (write(1, "ready", 5) != 5) _exit(9);
        unsigned a = 0; double v = 0;
        if (end == 0) h.push(0, 1.0); else if (end == 1) h.pop(a, v); else v = h.peek();
        if (write(1, "done", 4) != 4 || v == 1e9) _exit(9);
    }, 10);
    REQUIRE(r.out == "ready" || r.out == "readydone", "the queue failed before it was overrun (%s %d): %.300s", r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
    verdict(r, false, end == 0 ? "inserting into a full queue" : end == 1 ? "removing from an empty queue" : "peeking at an empty queue");
    s.label(end == 0 ? "insertion when full" : end == 1 ? "removal when empty" : "peek when empty"); if (cap == 0) s.label("capacity zero");
    s.nontrivial(ops.size() >= 3);
}

// Operations that need an interface, on fields that have none or just have one.
static void interface(Src& s)
{
    int w = (int) s.range(1, 14), h = (int) s.range(1, 14); ref::Grid g(w, h); unsigned op = (unsigned) s.draw(5);
    double m = s.pick(std::vector<double>{1, 1e-3, 1e-9, 1e9}); bool pos = op == 0 || op == 2 ? s.chance(1, 3) : false;
    Vec f(g.n()); for (double& v : f) v = (pos ? 1 : -1) * m * (0.5 + s.uniform(0, 1));
    if ((op < 2 || op == 4) && s.chance(1, 2)) { int i = (int) s.draw(g.n()); f[i] = s.chance(1, 2) ? 0.0 : -f[i]; }
    bool has = hasInterface(g, f);
    static const char* names[] = {"reinitialise", "update that reinitialises", "march", "mask", "velocity extension"};
    if (op == 1) { // the update itself removes the interface
        has = true;
    }
    double r = s.chance(1, 2) ? w + h + 2.0 : 0.3;
    if (op == 3) has = r < 1;
    s.desc("%s on a %dx%d field %s an interface", names[op], w, h, has ? "with" : "without");
    int valid = 1;
    ChildResult c = run_child([&]() {
        std::vector<Hole> none; LevelSet ls(w, h, none);
        if (op == 0) { ls.signedDistance = f; ls.reinitialise(); }
        else if (op == 2) { slsm::FastMarchingMethod fm(ls.mesh, false); fm.march(f); }
        else if (op == 4) { Vec v(g.n(), 0.25); slsm::FastMarchingMethod fm(ls.mesh, false); fm.march(f, v); for (double q : v) REQUIRE(fin(q), "velocity %g", q); }
        else if (op == 3) { std::vector<Hole> v = {Hole(0.5 * w + 0.013, 0.5 * h + 0.017, r)}; ls.mask(v); }
        else {
            // all velocities inwards by more than the structure is thick; three steps bring a mine to the interface
            LevelSet big(w + 14, h + 14, none, 0.5, 3); Boundary b; b.discretise(big);
            for (auto& p : big.velocity) p = 40; for (auto& p : big.gradient) p = 1;
            if (write(1, "ready", 5) != 5) _exit(9);
            big.update(1.0);  // band nodes become negative, the interior stays positive: still an interface
            for (double v : big.signedDistance) REQUIRE(fin(v), "distance %g", v);
        }
        for (double v : ls.signedDistance) REQUIRE(fin(v), "distance %g", v);
        if (op == 2) for (double v : f) REQUIRE(fin(v), "distance %g", v);
    }, 10);
    valid = has; verdict(c, valid, names[op]);
    s.label(names[op]); s.label(has ? "interface" : "no interface"); s.nontrivial(!has || (op < 3));
}

static void optimiser(Src& s)
{
    opt::Problem p = opt::gen(s, false); bool vd, td; double d = around(s, vd, td);
    bool vp = !s.chance(1, 5), vc = true; std::vector<BoundaryPoint> pts = p.pts; if (!vp) pts.clear(); Vec dist = p.dist, lam = p.lambda0;
    if (s.chance(1, 4)) { int k = (int) s.range(-2, 3); if (k == 0) k = 1; int n = std::max(0, (int) dist.size() + k); dist.resize(n, 0.1); vc = n + 1 == (int) lam.size(); }
    double dt = 0; std::vector<bool> eq = p.defaultEq || !vc ? std::vector<bool>() : p.eq;
    s.desc("optimiser of %zu points, %zu multipliers, %zu constraint distances, displacement %.17g", pts.size(), lam.size(), dist.size(), d);
    ChildResult r = run_child([&]() { slsm::Optimise o(pts, dist, lam, dt, d, p.isMax, eq); }, 10);
    verdict(r, vd && vp && vc, "constructing an optimiser");
    s.label("optimiser"); s.label(vd && vp && vc ? "valid" : !vd ? "bad displacement" : !vp ? "no boundary points" : "wrong number of constraints");
    s.nontrivial(!vd + !vp + !vc == 1 || (vd && vp && vc && td));
}

void property(Src& s)
{
    switch (s.weighted({6, 3, 3, 2})) { case 0: constructors(s); break; case 1: queue(s); break; case 2: interface(s); break; default: optimiser(s); }
}
