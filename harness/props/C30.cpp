#include "optim.h"
const char* PROP_ID = "C30";
const char* PROP_RULE = "at least eight cycles of the documented optimisation loop (or one whose predicted change was compared over at least ten boundary points)";
const unsigned long QUICK_CASES = 3000, THOROUGH_CASES = 40000;

namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }

typedef std::function<double(double, double)> Func;

// The documented loop: sensitivities, optimise, velocities, gradients, update, discretise.
struct Loop {
    LevelSet& ls; ref::Grid g; Boundary b; Vec lambda; double time = 0, moved = 0, area = 0; int cycles = 0, since = 0; bool normals;
    Loop(LevelSet& l, int m, bool n) : ls(l), g(l.mesh.width, l.mesh.height), lambda(m + 1), normals(n) { look(); }
    void look() { b.discretise(ls); area = ls.computeAreaFractions(b); if (normals) b.computeNormalVectors(ls); }
    // false once there is nothing to go on with
    bool step(const Vec& dist, double* predicted = nullptr, bool isMax = false, const std::vector<bool>& eq = std::vector<bool>())
    {
        if (b.points.size() < 4) return false;
        double dt = -1; nlopt::stub_solver = opt::exactSolver; slsm::Optimise o(b.points, dist, lambda, dt, ls.moveLimit, isMax, eq); double f = o.solve(); if (predicted) *predicted = f;
        REQUIRE(fin(f) && dt >= 0, "cycle %d: predicted change %g, time step %g", cycles, f, dt);
        if (!(dt > 1e-9)) return false;
        double v = 0; for (auto& p : b.points) { REQUIRE(fin(p.velocity), "cycle %d: velocity %g", cycles, p.velocity); v = std::max(v, std::fabs(p.velocity)); }
        ls.computeVelocities(b.points); ls.computeGradients(); bool r = ls.update(dt);
        if (r) since = 0; else if (since == 20) { ls.reinitialise(); since = 0; }
        since++; time += dt; moved += v * dt; cycles++;
        if (!hasInterface(g, ls.signedDistance)) return false;
        look(); return true;
    }
};

static double perimeterOf(Boundary& b, const BoundaryPoint& p) { return b.computePerimeter(p); }

// Perimeter sensitivities as the demonstrations compute them.
static void perimeterSensitivities(Boundary& b, int k, double sign)
{
    Boundary copy(b); slsm::SensitivityCallback cb = [&](const BoundaryPoint& p) { return perimeterOf(copy, p); }; slsm::Sensitivity sens;
    for (auto& p : b.points) p.sensitivities[k] = sign * sens.computeSensitivity(p, cb);
}

struct Disc { double cx, cy, r; bool hole; };
static LS disc(Src& s, int w, int h, double lor, double margin, double ml, unsigned band, Disc& d)
{
    d.hole = s.chance(1, 2); d.r = s.uniform(lor, 0.5 * std::min(w, h) - margin); d.cx = s.uniform(d.r + margin, w - d.r - margin); d.cy = s.uniform(d.r + margin, h - d.r - margin);
    LS ls(new LevelSet(w, h, d.hole ? std::vector<Hole>{Hole(d.cx, d.cy, d.r)} : std::vector<Hole>(), ml, band, d.hole));
    ref::Grid g(w, h);
    if (!d.hole) for (int i = 0; i < g.n(); i++) { double v = d.r - std::hypot(g.X(i) - d.cx, g.Y(i) - d.cy); if (std::fabs(v) < 1e-6) v = 0; ls->signedDistance[i] = v; }
    ls->reinitialise(); return ls;
}

// Mean and extreme distance of the boundary from a circle.
struct Fit { double mean, worst; int n; };
static Fit fit(const Boundary& b, double cx, double cy, double r, int w, int h)
{
    Fit f = {0, 0, 0}; double len = 0;
    for (auto& p : b.points) { if (p.coord.x < 1e-6 || p.coord.y < 1e-6 || p.coord.x > w - 1e-6 || p.coord.y > h - 1e-6) continue; double d = std::hypot(p.coord.x - cx, p.coord.y - cy) - r; f.mean += d * p.length; len += p.length; f.worst = std::max(f.worst, std::fabs(d)); f.n++; }
    if (len > 0) f.mean /= len; return f;
}

// A disc or hole under a uniform sensitivity (its area) or its curvature (its perimeter).
static void rate(Src& s, bool perimeter)
{
    int w = (int) s.range(20, 34), h = (int) s.range(20, 34); double ml = s.chance(1, 2) ? 0.5 : s.uniform(0.1, 0.6); unsigned band = (unsigned) s.range(4, 8); Disc d; LS ls = disc(s, w, h, 5, 3.5, ml, band, d);
    double c = perimeter ? 1 : s.uniform(0.2, 5) * (s.chance(1, 2) ? -1 : 1); bool isMax = s.chance(1, 3); int n = (int) s.range(5, 30);
    if (perimeter) isMax = false;
    s.desc("%dx%d %s at (%.6g,%.6g) radius %.6g, %s, move limit %.4g, band %u, %d cycles", w, h, d.hole ? "hole" : "disc", d.cx, d.cy, d.r, perimeter ? "perimeter minimised" : isMax ? "uniform sensitivity maximised" : "uniform sensitivity minimised", ml, band, n);
    s.desc("sensitivity %.6g", c);
    Loop l(*ls, 0, perimeter); double v = (isMax ? 1 : -1) * c * (d.hole ? 1 : -1); // rate of the radius
    double P0 = l.b.length;
    for (int k = 0; k < n; k++) {
        for (auto& p : l.b.points) p.sensitivities[0] = c;
        if (perimeter) perimeterSensitivities(l.b, 0, 1);
        double pred; Boundary old(l.b); if (!l.step(Vec(), &pred, isMax)) break;
        double r = perimeter ? std::sqrt(std::max(0.0, d.r * d.r - 2 * l.time)) : d.r + v * l.time;
        if (r < 4 || d.cx - r < 2.5 || d.cy - r < 2.5 || d.cx + r > w - 2.5 || d.cy + r > h - 2.5) { l.cycles--; break; }
        Fit f = fit(l.b, d.cx, d.cy, r, w, h); double moved = std::fabs(r - d.r), ar = d.hole ? w * h - l.area : l.area, rm = std::sqrt(ar / M_PI);
        s.note("cycle %d: time %.6g, radius should be %.6g, by area %.6g, boundary off by %.6g on average, at most %.6g", l.cycles, l.time, r, rm, f.mean, f.worst);
        std::string nm = perimeter ? "perimeter" : "area"; s.maximise((nm + ": radius by area").c_str(), std::fabs(rm - r)); s.maximise((nm + ": radius per distance moved").c_str(), std::fabs(rm - r) / (1 + moved)); s.maximise((nm + ": worst").c_str(), f.worst); 
        REQUIRE(std::fabs(rm - r) <= (perimeter ? 0.16 : 0.06) * (1 + moved), "cycle %d: after a time of %.9g the radius should be %.9g, by area it is %.9g", l.cycles, l.time, r, rm);
        REQUIRE(f.worst <= (perimeter ? 1.2 : 0.6), "cycle %d: after a time of %.9g the radius should be %.9g, the boundary is off by up to %.6g", l.cycles, l.time, r, f.worst);
    }
    s.label(perimeter ? "perimeter minimised" : "uniform sensitivity"); s.nontrivial(l.cycles >= 8);
}

// Minimise the integral of a function over the structure, possibly with the area bounded: the optimum is a disc.
static void functional(Src& s)
{
    int w = (int) s.range(14, 26), h = (int) s.range(14, 26); double ml = s.chance(1, 2) ? 0.5 : s.uniform(0.25, 0.7); double R = s.uniform(3.5, 0.5 * std::min(w, h) - 2.5), cx = s.uniform(R + 2, w - R - 2), cy = s.uniform(R + 2, h - R - 2);
    bool voidInside = s.chance(1, 3); double sg = voidInside ? -1 : 1; // structure outside the circle instead
    bool bounded = s.chance(1, 2); double A = bounded ? M_PI * R * R : 0, R2 = bounded ? R * s.uniform(1.05, 1.6) : R, amp = std::pow(10.0, s.uniform(-2, 2)); // with the area bounded, the function alone would want a larger disc
    if (bounded && voidInside) A = (double) w * h - M_PI * R * R, R2 = R * s.uniform(0.5, 0.95);
    bool isMax = s.chance(1, 3); unsigned start = s.weighted({2, 2, 1});
    Func f = [&](double x, double y) { double d = std::hypot(x - cx, y - cy) - R2; return (isMax ? -1 : 1) * amp * sg * d / (1 + std::fabs(d) / 3); };
    std::vector<Hole> hs; if (start == 0) { hs = genHoles(s, w, h, 4); } else if (start == 1) hs.push_back(Hole(cx + s.uniform(-0.5, 0.5) * R, cy + s.uniform(-0.5, 0.5) * R, s.uniform(2, R)));
    if (bounded && !voidInside) hs.clear();    // the bound may first eat up what holes leave
    if (voidInside) { if (start == 2) hs.clear(); if (start != 1) hs.push_back(Hole(cx, cy, 0.4 * R)); }   // holes do not appear by themselves
    if (!voidInside) { // neither does structure: the disc must hold enough of it
        int in = 0, all = 0; for (int x = 0; x <= w; x++) for (int y = 0; y <= h; y++) if (std::hypot(x - cx, y - cy) < R) { all++; double d = 1e9; for (auto& q : hs) d = std::min(d, std::hypot(x - q.coord.x, y - q.coord.y) - q.r); if (d > 1) in++; }
        if (2 * in < all) hs.clear();
    }
    LS ls(new LevelSet(w, h, hs, ml, 6, false)); ls->reinitialise();
    ref::Grid g(w, h); if (!hasInterface(g, ls->signedDistance)) throw Discard();
    s.desc("%dx%d, %s the integral of a function negative %s radius %.6g about (%.6g,%.6g)%s, %zu holes, move limit %.4g", w, h, isMax ? "maximise minus" : "minimise", voidInside ? "outside" : "inside", R2, cx, cy, bounded ? ", area bounded" : "", hs.size(), ml);
    Loop l(*ls, bounded ? 1 : 0, false); int limit = (int) ((bounded ? 30 : 20) / ml) + 60; double best = 1e9; bool ended = false;
    for (int k = 0; k < limit && !(best <= 0.3 && (!bounded || voidInside || std::fabs(l.area - A) <= 0.03 * l.b.length)); k++) {
        for (auto& p : l.b.points) { p.sensitivities[0] = -f(p.coord.x, p.coord.y); p.sensitivities[1] = -1; }
        Vec dist; if (bounded) dist.push_back(A - l.area);
        if (!l.step(dist, nullptr, isMax)) { ended = true; break; }
        Fit q = fit(l.b, cx, cy, R, w, h); s.note("cycle %d: area %.6g, boundary off the best circle by %.6g on average, at most %.6g", l.cycles, l.area, q.mean, q.worst);
        best = std::min(best, q.worst);
    }
    std::string nm = bounded ? "bounded" : "free"; nm += voidInside ? " void" : " disc"; s.maximise((nm + ": boundary off the optimum").c_str(), best); s.label(ended ? "ended early" : nm.c_str());
    s.note("%s %s best %.6g after %d cycles", nm.c_str(), ended ? "ended" : "", best, l.cycles);
    double tol = bounded ? voidInside ? 1e9 : 0.7 : 0.6;    // beside side limits the linearised problem settles early
    REQUIRE(best <= tol, "%s: after %d cycles%s the boundary has come no closer to the optimal circle (radius %.6g) than %.6g", nm.c_str(), l.cycles, ended ? " the structure is gone and" : "", R, best);
    if (bounded) REQUIRE(l.area <= A + 0.05 * l.b.length, "%s: the area is %.9g after %d cycles, the bound is %.9g", nm.c_str(), l.area, l.cycles, A);
    s.nontrivial(l.cycles >= 8);
}

// One cycle of any structure: the change comes out as predicted.
static void prediction(Src& s)
{
    int w = (int) s.range(12, 30), h = (int) s.range(12, 30); double ml = s.uniform(0.02, 0.3); std::vector<Hole> hs; int n = (int) s.range(1, 4);
    for (int t = 0; t < n; t++) { double r = s.uniform(2.5, 8), cx = s.uniform(0, w), cy = s.uniform(0, h); bool ok = cx - r >= 3 && cy - r >= 3 && cx + r <= w - 3 && cy + r <= h - 3; for (auto& q : hs) if (std::hypot(q.coord.x - cx, q.coord.y - cy) < r + q.r + 3) ok = false; if (ok) hs.push_back(Hole(cx, cy, r)); }
    if (hs.empty()) throw Discard();
    LS ls(new LevelSet(w, h, hs, ml, 6, true)); ls->reinitialise(); double a = s.uniform(0.05, 0.25), b = s.uniform(0.05, 0.25), c = s.uniform(0, 6), off = s.uniform(-1, 1), amp = std::pow(10.0, s.uniform(-2, 2)); bool isMax = s.chance(1, 2);
    Func f = [&](double x, double y) { return amp * (sin(a * x + c) * cos(b * y) + off); }; bool bounded = s.chance(1, 2);
    s.desc("%dx%d with %zu holes, move limit %.4g, function %.4g(sin(%.4g x+%.4g)cos(%.4g y)+%.4g)%s", w, h, hs.size(), ml, amp, a, c, b, off, bounded ? ", area constraint" : "");
    Loop l(*ls, bounded ? 1 : 0, true); ref::Grid g(w, h);
    auto integral = [&]() { double v = 0; for (int e = 0; e < w * h; e++) v += ls->mesh.elements[e].area * f(e % w + 0.5, e / w + 0.5); return v; };
    int cyc = (int) s.range(1, 3), pts = 0;
    for (int k = 0; k < cyc; k++) {
        double size = 0; for (auto& p : l.b.points) { p.sensitivities[0] = -f(p.coord.x, p.coord.y); p.sensitivities[1] = -1; size += std::fabs(p.sensitivities[0]) * p.length; if (!p.isFixed) pts++; }
        double before = integral(), area0 = l.area, pred; Vec dist; if (bounded) dist.push_back(s.uniform(-0.5, 0.5) * ml * l.b.length);
        if (!l.step(dist, &pred, isMax)) return;
        double change = integral() - before, len = l.b.length;
        s.note("cycle %d: predicted %.6g, actual %.6g; area %.6g to %.6g, distance %.6g", k, pred, change, area0, l.area, bounded ? dist[0] : 0);
        s.maximise("prediction: error", std::fabs(change - pred) / (size * ml));
        REQUIRE(std::fabs(change - pred) <= 0.2 * size * ml, "cycle %d: the objective changes by %.9g, predicted %.9g (a move of everything by the limit changes it by %.6g)", k, change, pred, size * ml);

        if (bounded) { s.maximise("prediction: area beyond the bound", (l.area - area0 - dist[0]) / (len * ml)); REQUIRE(l.area - area0 - dist[0] <= 0.2 * len * ml, "cycle %d: the area changes by %.9g, allowed %.9g", k, l.area - area0, dist[0]); }
    }
    s.label("prediction"); s.nontrivial(pts >= 10);
}

// Minimise the perimeter at given area: an ellipse becomes a circle.
static void isoperimetric(Src& s)
{
    int w = (int) s.range(18, 28), h = (int) s.range(18, 28); double ml = s.chance(1, 2) ? 0.1 : s.uniform(0.05, 0.2); bool hole = s.chance(1, 2), eq = s.chance(1, 2); unsigned band = (unsigned) s.range(4, 8);
    double ra = s.uniform(5, 0.5 * std::min(w, h) - 3), rb = ra * s.uniform(0.5, 0.85), t = s.uniform(0, M_PI), cx = s.uniform(ra + 2.5, w - ra - 2.5), cy = s.uniform(ra + 2.5, h - ra - 2.5);
    LS ls(new LevelSet(w, h, std::vector<Hole>(), ml, band, true)); ref::Grid g(w, h);
    for (int i = 0; i < g.n(); i++) { double x = g.X(i) - cx, y = g.Y(i) - cy, u = (x * cos(t) + y * sin(t)) / ra, v = (-x * sin(t) + y * cos(t)) / rb; ls->signedDistance[i] = (hole ? 1 : -1) * (std::hypot(u, v) - 1) * rb; }
    ls->reinitialise(); Loop l(*ls, 1, true); double A0 = l.area, P0 = l.b.length, inner = hole ? w * h - A0 : A0, best = 2 * std::sqrt(M_PI * inner); int n = (int) s.range(5, 60);
    s.desc("%dx%d elliptic %s %.6g by %.6g at (%.6g,%.6g), angle %.4g, perimeter minimised at %s area, move limit %.4g, %d cycles", w, h, hole ? "hole" : "disc", ra, rb, cx, cy, t, eq ? "equal" : "bounded", ml, n);
    double last = P0;
    for (int k = 0; k < n; k++) {
        perimeterSensitivities(l.b, 0, 1);
        // the direction in which the perimeter would take the area is the one that has to be bounded
        for (auto& p : l.b.points) p.sensitivities[1] = hole ? -1 : 1;
        if (!l.step(Vec(1, hole ? A0 - l.area : l.area - A0), nullptr, false, eq ? std::vector<bool>(1, true) : std::vector<bool>())) return;
        s.note("cycle %d: time %.6g, length %.6g (started at %.6g, circle %.6g), area %.6g of %.6g", l.cycles, l.time, l.b.length, P0, best, l.area, A0);
        s.maximise("isoperimetric: area drift over length", std::fabs(l.area - A0) / l.b.length); s.maximise("isoperimetric: length growth in a cycle", (l.b.length - last) / l.b.length / ml); s.maximise("isoperimetric: below the circle", (best - l.b.length) / best); last = l.b.length;
        REQUIRE(std::fabs(l.area - A0) <= 0.08 * l.b.length, "cycle %d: the area was to be kept at %.9g and is %.9g", l.cycles, A0, l.area);
        REQUIRE(l.b.length >= best * 0.99, "cycle %d: the length %.9g is below that of a circle, %.9g", l.cycles, l.b.length, best);
        double decay = std::exp(-6 * l.time / (ra * rb)), e0 = P0 - best, e = l.b.length - best; // elliptic perturbation under area-preserving curvature flow
        s.maximise("isoperimetric: excess over theory", std::fabs(e - e0 * decay) / (0.1 + 0.1 * e0));
        REQUIRE(std::fabs(e - e0 * decay) <= 0.15 + 0.15 * e0 + 0.6 * ml, "cycle %d: after a time of %.9g the length in excess of the circle's should have gone from %.6g to %.6g, it is %.6g", l.cycles, l.time, e0, e0 * decay, e);
    }
    s.label("isoperimetric"); s.nontrivial(l.cycles >= 8);
}

// The sensitivity of the shape-matching demonstration.
static double mismatch(const Coord& c, const LevelSet& ls)
{
    double m = 0, weight = 0; unsigned node = ls.mesh.getClosestNode(c);
    for (int i = -1; i < 4; i++) {
        unsigned n = i < 0 ? node : ls.mesh.nodes[node].neighbours[i]; if (n == ls.mesh.nNodes) continue;
        double dx = ls.mesh.nodes[n].coord.x - c.x, dy = ls.mesh.nodes[n].coord.y - c.y, r2 = dx * dx + dy * dy, d = ls.target[n] - ls.signedDistance[n];
        if (r2 < 1e-6) { m = d; weight = 1; break; }
        m += d / r2; weight += 1 / r2;
    }
    m /= weight; return std::fabs(m) < 1 ? m : m < 0 ? -1 : 1;
}

static void matching(Src& s)
{
    int w = (int) s.range(18, 30), h = (int) s.range(18, 30); double ml = s.uniform(0.05, 0.5); unsigned band = (unsigned) s.range(4, 8);
    double R = s.uniform(5, 0.5 * std::min(w, h) - 2.5), cx = s.uniform(R + 2, w - R - 2), cy = s.uniform(R + 2, h - R - 2); std::vector<Coord> poly; int n = (int) s.range(3, 9); double a0 = s.uniform(0, 6.3);
    for (int i = n; i >= 0; i--) { double a = a0 + 2 * M_PI * (i % n) / n, r = R * (n > 4 && n % 2 == 0 && i % 2 ? 0.8 : 1); poly.push_back(Coord(cx + r * cos(a), cy + r * sin(a))); }
    std::vector<Hole> hs = {Hole(cx + s.uniform(-0.3, 0.3) * R, cy + s.uniform(-0.3, 0.3) * R, s.uniform(2, 0.8 * R))};
    LS ls(new LevelSet(w, h, hs, poly, ml, band, true)); ls->reinitialise(); Boundary b; b.discretise(*ls, true); ls->computeAreaFractions(b); Vec want; for (auto& e : ls->mesh.elements) want.push_back(e.area); double P = b.length;
    auto miss = [&]() { double v = 0; for (size_t i = 0; i < want.size(); i++) v += std::fabs(want[i] - ls->mesh.elements[i].area); return v; };
    s.desc("%dx%d match a %d-gon of radius %.6g at (%.6g,%.6g), angle %.4g, from a hole (%.6g,%.6g) radius %.6g, move limit %.4g", w, h, n, R, cx, cy, a0, hs[0].coord.x, hs[0].coord.y, hs[0].r, ml);
    Loop l(*ls, 0, false); double m0 = miss(), m = m0; int limit = (int) (30 + 2.5 * R / ml); if (limit > 160) limit = 160;
    for (int k = 0; k < limit; k++) { for (auto& p : l.b.points) p.sensitivities[0] = mismatch(p.coord, *ls); if (!l.step(Vec())) break; m = miss(); }
    s.maximise("matching: mismatch over length", m / P);
    REQUIRE(m <= 0.35 * P, "the mismatch went from %.6g to %.6g in %d cycles; the target has a perimeter of %.6g", m0, m, l.cycles, P);
    s.label("shape matching"); s.nontrivial(l.cycles >= 8);
}

void property(Src& s)
{
    switch (s.weighted({3, 3, 4, 4, 3, 3})) {
    case 0: rate(s, false); break;
    case 1: rate(s, true); break;
    case 2: functional(s); break;
    case 3: prediction(s); break;
    case 4: isoperimetric(s); break;
    default: matching(s);
    }
}
