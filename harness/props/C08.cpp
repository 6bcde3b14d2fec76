#include "gen.h"
const char* PROP_ID = "C08";
const char* PROP_RULE = "positive temperature and a boundary of at least four points of different lengths or velocities; every kick compared with the generator's own draws";
const unsigned long QUICK_CASES = 27000, THOROUGH_CASES = 120000;

void property(Src& s)
{
    GenOpt o; o.lo = 4; o.hi = 16; o.allowRaw = true;
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    if (s.chance(1, 4)) { Mask m = genMask(s, st.d.w, st.d.h); applyMask(s, st, m); }
    for (double v : ls.signedDistance) if (v != 0 && std::fabs(v) < 2e-6) throw Discard();
    Boundary b; b.discretise(ls);
    if (b.points.size() < 2) throw Discard();
    for (auto& p : b.points) if (!(p.length > 1e-9)) throw Discard();
    genVelocities(s, b);
    // every point is kicked, also those flagged as fixed or at the domain edge
    if (s.chance(1, 4)) { for (auto& p : b.points) { if (s.chance(1, 3)) p.isFixed = !p.isFixed; if (s.chance(1, 3)) p.isDomain = !p.isDomain; if (s.chance(1, 4)) p.negativeLimit = -ls.moveLimit * s.uniform(0, 1); } s.label("points with other flags"); }
    double ml = ls.moveLimit, T, dt = s.chance(1, 3) ? s.real(0.1, 10) : std::pow(10.0, s.uniform(-4, 2));
    unsigned k = s.weighted({1, 3, 3, 2});
    double Tc = ml * ml / (8 * dt);         // temperature at which the displacement reaches the limit
    if (k == 0) T = 0;
    else if (k == 1) T = Tc * s.uniform(0.001, 0.999);
    else if (k == 2) T = Tc * std::pow(10.0, s.uniform(0.001, 4));
    else T = s.real(1e-4, 1);
    if (std::fabs(T / Tc - 1) < 1e-9) throw Discard();
    s.desc("T %.6g dt %.6g threshold %.6g", T, dt, Tc);
    unsigned seed = (unsigned) s.draw(1u << 30);
    Vec v0; for (auto& p : b.points) v0.push_back(p.velocity);
    std::vector<BoundaryPoint> pts = b.points;
    Snapshot before(ls);
    MersenneTwister rng; rng.setSeed(seed);
    double step = dt, scale = ls.computeVelocities(pts, step, T, rng);
    requireSame(before, Snapshot(ls), K_PHI | K_GRAD | K_BAND | K_TARGET, "stochastic velocity extension");
    bool over = T > Tc;
    if (over) {
        s.label("time step reduced");
        REQUIRE(close(std::sqrt(2 * T * step), 0.5 * ml, 1e-9), "thermal displacement %.9g after scaling, half the move limit is %.9g", std::sqrt(2 * T * step), 0.5 * ml);
        REQUIRE(close(scale * step, dt, 1e-12), "scale factor %.9g does not relate the old time step %.9g to the new one %.9g", scale, dt, step);
        REQUIRE(scale > 1, "scale factor %.9g", scale);
    }
    else {
        s.label("time step kept");
        REQUIRE(step == dt && scale == 1.0, "time step %.12g became %.12g (factor %.9g) although the thermal displacement %.6g is within half the move limit %.6g", dt, step, scale, std::sqrt(2 * T * dt), 0.5 * ml);
    }
    // everything but the velocity of the points is untouched
    for (size_t i = 0; i < pts.size(); i++) {
        const BoundaryPoint &p = pts[i], &q = b.points[i];
        REQUIRE(p.coord.x == q.coord.x && p.coord.y == q.coord.y && p.length == q.length && p.negativeLimit == q.negativeLimit && p.positiveLimit == q.positiveLimit && p.nNeighbours == q.nNeighbours,
                "point %zu changed by more than its velocity", i);
    }
    // the nodes hold the extension of the perturbed velocities
    Vec node = ls.velocity;
    { std::vector<BoundaryPoint> c = pts; ls.computeVelocities(c); for (int i = 0; i < g.n(); i++) REQUIRE(close(node[i], ls.velocity[i], 1e-12), "node (%d,%d): %.12g, extension of the perturbed velocities gives %.12g", g.X(i), g.Y(i), node[i], ls.velocity[i]); }
    if (T == 0) {
        s.label("zero temperature");
        for (size_t i = 0; i < pts.size(); i++) REQUIRE(pts[i].velocity == v0[i], "velocity of point %zu changed at zero temperature", i);
        std::vector<BoundaryPoint> c = b.points; ls.computeVelocities(c);
        REQUIRE(same(node, ls.velocity), "zero temperature differs from the deterministic extension");
    }
    else {
        double sd = std::sqrt(2 * T / step), big = 0;
        Vec z, e;
        for (size_t i = 0; i < pts.size(); i++) { z.push_back((pts[i].velocity - v0[i]) * std::sqrt(pts[i].length) / sd); big = std::max(big, std::fabs(v0[i]) * std::sqrt(pts[i].length) / sd); }
        // each point uses one of the generator's standard normal draws, in any order, by either normal() form
        bool match = false; size_t bad = 0; double badE = 0; Vec zs = z; std::sort(zs.begin(), zs.end());
        for (int form = 0; form < 2 && !match; form++) {
            MersenneTwister r2; r2.setSeed(seed); e.clear(); for (size_t i = 0; i < pts.size(); i++) e.push_back(form ? r2.normal() : r2.normal(0, 1));
            std::sort(e.begin(), e.end()); match = true;
            for (size_t i = 0; i < zs.size() && match; i++) if (!(std::fabs(zs[i] - e[i]) < 1e-9 * (1 + big))) { match = false; if (!form) { bad = i; badE = e[i]; } }
        }
        REQUIRE(match, "normalised kicks are not the generator's standard normal draws: %.9g against %.9g (sorted position %zu of %zu)", zs[bad], badE, bad, zs.size());
        bool varied = false; for (size_t i = 1; i < pts.size(); i++) if (std::fabs(pts[i].length - pts[0].length) > 1e-3 || v0[i] != v0[0]) varied = true;
        s.nontrivial(pts.size() >= 4 && varied);
    }
    // same seed, same result
    {
        std::vector<BoundaryPoint> c = b.points; MersenneTwister r; r.setSeed(seed); double d2 = dt;
        double sc = ls.computeVelocities(c, d2, T, r);
        REQUIRE(sc == scale && d2 == step && same(ls.velocity, node), "the same seed gave a different result");
    }
    // distribution over many calls
    if (T > 0 && s.chance(1, 40)) {
        double sd = std::sqrt(2 * T / step), s1 = 0, s2 = 0, s3 = 0, s4 = 0, lag = 0, cross = 0; long n = 0, nc = 0; Vec prev; 
        MersenneTwister r; r.setSeed(seed ^ 0x55u);
        while (n < 4000) {
            std::vector<BoundaryPoint> c = b.points; double d2 = dt; ls.computeVelocities(c, d2, T, r);
            Vec z; for (size_t i = 0; i < c.size(); i++) z.push_back((c[i].velocity - v0[i]) * std::sqrt(c[i].length) / sd);
            for (size_t i = 0; i < z.size(); i++) { s1 += z[i]; s2 += z[i] * z[i]; s3 += z[i] * z[i] * z[i]; s4 += z[i] * z[i] * z[i] * z[i]; n++; if (i) lag += z[i] * z[i - 1]; if (!prev.empty()) { cross += z[i] * prev[i]; nc++; } }
            prev = z;
        }
        double N = n, m = s1 / N, v = s2 / N, k3 = s3 / N, k4 = s4 / N;
        REQUIRE(std::fabs(m) < 7 / std::sqrt(N), "mean of %ld normalised kicks is %.4g", n, m);
        REQUIRE(std::fabs(v - 1) < 7 * std::sqrt(2 / N), "variance of %ld normalised kicks is %.4g", n, v);
        REQUIRE(std::fabs(k3) < 7 * std::sqrt(15 / N), "third moment of %ld normalised kicks is %.4g", n, k3);
        REQUIRE(std::fabs(k4 - 3) < 9 * std::sqrt(96 / N), "fourth moment of %ld normalised kicks is %.4g", n, k4);
        REQUIRE(std::fabs(lag / N) < 7 / std::sqrt(N), "kicks of consecutive points are correlated (%.4g)", lag / N);
        REQUIRE(std::fabs(cross) < 7 * std::sqrt((double) nc), "kicks of consecutive calls are correlated (%.4g)", cross / nc);
        s.label("moments over 4000 kicks");
    }
}
