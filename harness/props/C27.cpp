#include "gen.h"
const char* PROP_ID = "C27";
const char* PROP_RULE = "at least four steps during which the interface moved by at least one unit in total, or at least six steps of arbitrary velocities over at least ten boundary points";
const unsigned long QUICK_CASES = 11250, THOROUGH_CASES = 20000;

static bool finite(const LevelSet& ls)
{
    for (double v : ls.signedDistance) if (!fin(v)) return false;
    for (double v : ls.velocity) if (!fin(v)) return false;
    for (double v : ls.gradient) if (!fin(v)) return false;
    return true;
}

static void consistent(const LevelSet& ls, const Boundary& b, const ref::Grid& g, double area, int step)
{
    REQUIRE(finite(ls), "step %d: a distance, velocity or gradient is not finite", step);
    REQUIRE(fin(area) && area >= -1e-9 && area <= (double) g.w * g.h + 1e-9, "step %d: area %.9g of a %dx%d domain", step, area, g.w, g.h);
    double l = 0, pl = 0; for (auto& q : b.segments) { REQUIRE(fin(q.length), "step %d: segment length %g", step, q.length); l += q.length; }
    for (auto& p : b.points) { REQUIRE(fin(p.coord.x) && fin(p.coord.y) && fin(p.length) && fin(p.normal.x) && fin(p.normal.y), "step %d: a boundary point is not finite", step); pl += p.length; REQUIRE(p.coord.x > -1e-9 && p.coord.y > -1e-9 && p.coord.x < g.w + 1e-9 && p.coord.y < g.h + 1e-9, "step %d: boundary point (%.9g,%.9g) has left the domain", step, p.coord.x, p.coord.y); }
    REQUIRE(std::fabs(l - b.length) <= 1e-9 * (1 + l) && std::fabs(pl - l) <= 1e-9 * (1 + l), "step %d: segments add up to %.12g, points to %.12g, length is %.12g", step, l, pl, b.length);
    unsigned n = 0; for (int i = 0; i < g.n(); i++) { if (ls.mesh.nodes[i].isActive) n++; if (g.edge(i)) REQUIRE(ls.signedDistance[i] <= 0 || !ls.mesh.nodes[i].isActive, "step %d: node (%d,%d) on the domain edge is at %.9g", step, g.X(i), g.Y(i), ls.signedDistance[i]); }
    REQUIRE(n == ls.nNarrowBand, "step %d: %u nodes are active, the band has %u", step, n, ls.nNarrowBand);
}

// A circle or a straight edge moving at one speed.
static void shape(Src& s)
{
    int kind = (int) s.weighted({4, 3, 3}); // circular hole, disc, straight edge
    int w = (int) s.range(16, 34), h = (int) s.range(16, 34); ref::Grid g(w, h); static const double mls[] = {0.5, 0.25, 0.75, 0.9, 0.1}; double ml = mls[s.weighted({4, 1, 1, 1, 1})];
    static const unsigned bands[] = {6, 3, 4, 5, 10}; unsigned band = bands[s.weighted({4, 2, 2, 1, 1})];
    bool fixed = kind == 0 && s.chance(1, 4);
    double cx, cy, r = 0, t = 0; int every = (int) s.weighted({2, 1, 1, 1}); // explicit reinitialisation every so many steps
    double maxr = 0.5 * std::min(w, h) - 3.5;
    if (kind < 2) { r = s.uniform(3, maxr); cx = s.uniform(r + 3, w - r - 3); cy = s.uniform(r + 3, h - r - 3); }
    else { cx = s.uniform(0.4 * w, 0.6 * w); cy = s.uniform(0.4 * h, 0.6 * h); t = s.chance(1, 2) ? s.range(0, 7) * M_PI / 4 : s.uniform(0, 2 * M_PI); }
    std::unique_ptr<LevelSet> ls(new LevelSet(w, h, kind == 0 ? std::vector<Hole>{Hole(cx, cy, r)} : std::vector<Hole>(), ml, band, fixed));
    auto exact = [&](double x, double y, double m) { // distance to the shape after it has moved by m into the structure
        return kind == 0 ? std::hypot(x - cx, y - cy) - r - m : kind == 1 ? r - m - std::hypot(x - cx, y - cy) : (x - cx) * cos(t) + (y - cy) * sin(t) - m; };
    if (kind) for (int i = 0; i < g.n(); i++) { double v = exact(g.X(i), g.Y(i), 0); if (std::fabs(v) < 1e-6) v = 0; ls->signedDistance[i] = std::min(ls->signedDistance[i], v); }
    if (kind || s.chance(1, 2)) ls->reinitialise();
    double v = s.chance(1, 2) ? 1 : -1; if (s.chance(1, 3)) v *= s.uniform(0.2, 5);
    double stepLen = std::min(0.5, ml * (s.chance(1, 2) ? 1 : s.uniform(0.2, 1))), dt = stepLen / std::fabs(v), moved = 0; int n = (int) s.range(1, 30);
    s.desc("%dx%d %s at (%.9g,%.9g) r %.9g angle %.9g, velocity %.6g, step %.6g, band %u%s, %d steps", w, h, kind == 0 ? "circular hole" : kind == 1 ? "disc" : "straight edge", cx, cy, r, t, v, dt, band, fixed ? " fixed" : "", n);
    Boundary b; double worst = 0, areaErr = 0; int done = 0; unsigned reinits = 0;  // counts every reinitialisation
    for (int k = 0; k <= n; k++) {
        b.discretise(*ls); b.computeNormalVectors(*ls); double area = ls->computeAreaFractions(b); consistent(*ls, b, g, area, k);
        double lo = 1e9, hi = -1e9, len = 0, sum = 0; int m = 0; double reach = std::fabs(moved);
        for (auto& p : b.points) {
            double e = std::min(std::min(p.coord.x, w - p.coord.x), std::min(p.coord.y, h - p.coord.y)), d = exact(p.coord.x, p.coord.y, moved);
            p.velocity = 0; bool mine = kind < 2 ? e > 1.2 : e > 1e-3 && std::fabs(d) < 2;
            if (!mine) continue;
            p.velocity = v; len += p.length;
            if (kind == 2 && e < 4 + 1.2 * reach) continue; // ends of a straight edge feel the domain edge
            lo = std::min(lo, d); hi = std::max(hi, d); sum += d; m++;
        }
        if (kind < 2) REQUIRE(m > 4, "step %d: the boundary of the shape has disappeared", k);
        if (kind == 2 && m < 3) { s.label("too little of the edge is far from the domain edge"); break; }
        worst = std::max(worst, std::max(std::fabs(lo), std::fabs(hi))); 
        if (kind < 2) {
            double rr = kind == 0 ? r + moved : r - moved, want = kind == 0 ? (double) w * h - M_PI * rr * rr : M_PI * rr * rr;
            areaErr = std::max(areaErr, std::fabs(area - want) / (2 * M_PI * rr));
        }
        s.note("step %d: moved %.6g, distance of the boundary from the exact one %.6g .. %.6g, area %.9g", k, moved, lo, hi, area);
        bool square = kind == 2 && std::fabs(std::sin(2 * t)) < 1e-9, diag = kind == 2 && std::fabs(std::cos(2 * t)) < 1e-9;
        std::string nm = kind == 0 ? "hole" : kind == 1 ? "disc" : square ? "aligned edge" : diag ? "diagonal edge" : "edge";
        nm += reinits || every ? " r" : "";
        double big = std::max(std::fabs(lo), std::fabs(hi)), mean = m ? std::fabs(sum / m) : 0;
        s.maximise((nm + ": position").c_str(), big); s.maximise((nm + ": pos/moved").c_str(), big / (1 + reach)); s.maximise((nm + ": mean").c_str(), mean); if (reach > 3) s.maximise((nm + ": mean/moved").c_str(), mean / reach); s.maximise((nm + ": area").c_str(), areaErr);
        double tolPos = kind < 2 ? 1.0 + 0.03 * reinits : square ? 0.01 + 0.012 * reach : 0.2 + 0.05 * reach, tolMean = kind < 2 ? 0.15 + 0.06 * reach + 0.05 * reinits : square ? 0.01 + 0.006 * reach : diag ? 0.03 + 0.01 * reach : 0.1 + 0.04 * reach;
        REQUIRE(big <= tolPos, "step %d: the interface should have moved by %.9g, but is off by up to %.6g", k, moved, big);
        REQUIRE(mean <= tolMean, "step %d: the interface should have moved by %.9g, but has moved by %.6g %s on average", k, moved, mean, sum * v > 0 ? "more" : "less");
        if (kind < 2) REQUIRE(areaErr <= tolMean, "step %d: after moving by %.9g the area is %.9g", k, moved, area);
        if (k == n) break;
        double nr = kind == 0 ? r + moved + v * dt : kind == 1 ? r - moved - v * dt : 99;
        if (kind < 2 && (nr < 2.5 || nr > std::min(std::min(cx, w - cx), std::min(cy, h - cy)) - 2)) break;
        ls->computeVelocities(b.points); ls->computeGradients(); if (ls->update(dt)) reinits++;
        moved += v * dt; done++;
        if (every && (k + 1) % (2 * every) == 0) { ls->reinitialise(); reinits++; }
    }
    if (reinits) s.label("reinitialised by the update");
    s.label(kind == 0 ? "circular hole" : kind == 1 ? "disc" : "straight edge");
    s.nontrivial(done >= 4 && std::fabs(moved) >= 1);
}

// Distance from a point to the segments of a boundary.
static double toBoundary(const Boundary& b, double x, double y)
{
    double m = 1e300; for (auto& q : b.segments) m = std::min(m, ref::segDist({b.points[q.start].coord.x, b.points[q.start].coord.y}, {b.points[q.end].coord.x, b.points[q.end].coord.y}, {x, y}));
    return m;
}

// Any structure under smooth velocities.
static void anything(Src& s)
{
    GenOpt o; o.lo = 8; o.hi = 26; State st = genState(s, o); LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    if (s.chance(1, 4)) { Mask m = genMask(s, st.d.w, st.d.h); applyMask(s, st, m); }
    unsigned kind = s.weighted({4, 2, 1}); double amp = s.uniform(0.1, 2), kx = s.uniform(0.05, 0.4), ky = s.uniform(0.05, 0.4), ph = s.uniform(0, 6); if (kind == 2) amp = 0;
    double len = st.ml * (s.chance(1, 2) ? 1 : s.uniform(0.1, 1)); int n = (int) s.range(1, 25), every = (int) s.weighted({2, 1, 1}); bool used = false; int done = 0;
    s.desc("%s velocities, displacement up to %.6g per step, %d steps", kind == 0 ? "smooth" : kind == 1 ? "arbitrary" : "zero", len, n);
    Boundary b;
    for (int k = 0; k < n; k++) {
        if (!hasInterface(g, ls.signedDistance)) break;
        b.discretise(ls); b.computeNormalVectors(ls); double area = ls.computeAreaFractions(b); consistent(ls, b, g, area, k);
        if (b.points.size() < 4) break;
        double vmax = 0;
        for (auto& p : b.points) {
            p.velocity = amp * (kind == 1 ? s.uniform(-1, 1) : sin(kx * p.coord.x + ph + 0.1 * k) * cos(ky * p.coord.y));
            vmax = std::max(vmax, std::fabs(p.velocity));
        }
        double dt = vmax > 0 ? len / vmax : 1;
        for (auto& p : b.points) { p.velocity = std::max(p.velocity, p.negativeLimit / dt); if (p.isFixed) p.velocity = 0; }
        Vec before = ls.signedDistance; Boundary old = b;
        ls.computeVelocities(b.points); ls.computeGradients(); int due; Vec f = advected(g, ls, dt, due); if (due < 0 || !hasInterface(g, f)) break;
        bool r = ls.update(dt); done++;
        REQUIRE(finite(ls), "step %d: a value is not finite after the update", k);
        if (kind == 2 && !r) for (int i = 0; i < g.n(); i++) REQUIRE(ls.signedDistance[i] == (g.edge(i) && ls.mesh.nodes[i].isActive ? std::min(0.0, before[i]) : before[i]), "step %d: an update with zero velocities changed node (%d,%d) from %.12g to %.12g", k, g.X(i), g.Y(i), before[i], ls.signedDistance[i]);
        if (kind != 1 && hasInterface(g, ls.signedDistance)) {
            b.discretise(ls); double a2 = ls.computeAreaFractions(b), worst = 0;
            for (auto& p : b.points) worst = std::max(worst, toBoundary(old, p.coord.x, p.coord.y));
            if (kind == 2 && !r) { REQUIRE(a2 == area && worst < 1e-9, "step %d: zero velocities moved the boundary (area %.12g to %.12g)", k, area, a2); }
            used = true;
        }
        if (every && k % (3 * every) == 2 && hasInterface(g, ls.signedDistance)) ls.reinitialise();
    }
    s.label(kind == 0 ? "smooth velocities" : kind == 1 ? "arbitrary velocities" : "zero velocities"); s.nontrivial(used && done >= 6 && b.points.size() >= 10);
}

// Well separated holes and smooth velocities: what the area and the boundary do in every step.
static void resolved(Src& s)
{
    int w = (int) s.range(14, 34), h = (int) s.range(14, 34); ref::Grid g(w, h); static const double mls[] = {0.5, 0.25, 0.75, 0.9, 0.1}; double ml = mls[s.weighted({4, 1, 1, 1, 1})]; unsigned band = (unsigned) s.range(4, 9);
    std::vector<Hole> hs; int n = (int) s.range(1, 4);
    for (int t = 0; t < n; t++) { double r = s.uniform(3, 0.5 * std::min(w, h) - 3.6), cx = s.uniform(r + 3.5, w - r - 3.5), cy = s.uniform(r + 3.5, h - r - 3.5); bool ok = true; for (auto& q : hs) if (std::hypot(q.coord.x - cx, q.coord.y - cy) < r + q.r + 4) ok = false; if (ok) hs.push_back(Hole(cx, cy, r)); }
    bool inverted = s.chance(1, 3); LS ls(new LevelSet(w, h, hs, ml, band, !inverted));
    if (inverted) for (int i = 0; i < g.n(); i++) { double d = 1e9; for (auto& q : hs) d = std::min(d, std::hypot(g.X(i) - q.coord.x, g.Y(i) - q.coord.y) - q.r); ls->signedDistance[i] = -d; }
    ls->reinitialise();
    double kx = s.uniform(0.05, 0.35), ky = s.uniform(0.05, 0.35), p0 = s.uniform(0, 6), off = s.uniform(-0.6, 0.6), amp = std::pow(10.0, s.uniform(-2, 2)), len = std::min(0.5, ml * (s.chance(1, 2) ? 1 : s.uniform(0.2, 1))); int steps = (int) s.range(1, 5);
    s.desc("%dx%d %zu %s, velocity %.6g (sin(%.4g x + %.4g) cos(%.4g y) + %.4g), displacement %.6g per step, move limit %.4g, band %u, %d steps", w, h, hs.size(), inverted ? "discs" : "holes", amp, kx, p0, ky, off, len, ml, band, steps);
    Boundary b; double total = 0, path = 0; size_t pts = 0;
    for (int k = 0; k < steps; k++) {
        b.discretise(*ls); double area = ls->computeAreaFractions(b), vmax = 0, want = 0; consistent(*ls, b, g, area, k); pts = b.points.size(); double length = 0;
        for (auto& p : b.points) { p.velocity = amp * (sin(kx * p.coord.x + p0) * cos(ky * p.coord.y) + off); if (p.coord.x < 1 || p.coord.y < 1 || p.coord.x > w - 1 || p.coord.y > h - 1) p.velocity = 0; else length += p.length; vmax = std::max(vmax, std::fabs(p.velocity)); }
        double dt = len / vmax; for (auto& p : b.points) want -= dt * p.velocity * p.length;
        b.computeNormalVectors(*ls); Boundary old(b); ls->computeVelocities(b.points); ls->computeGradients(); bool r = ls->update(dt);
        if (!hasInterface(g, ls->signedDistance)) throw Discard();
        Boundary nb; nb.discretise(*ls); double a2 = ls->computeAreaFractions(nb), e = a2 - area - want, back = 0; total += e; path += len * length;
        for (auto& q : nb.points) back = std::max(back, toBoundary(old, q.coord.x, q.coord.y));
        double off2 = 0, mean = 0, wt = 0; // the points of the old boundary, moved along their normals, lie on the new one
        for (auto& p : old.points) if (p.velocity != 0) { double d = toBoundary(nb, p.coord.x + dt * p.velocity * p.normal.x, p.coord.y + dt * p.velocity * p.normal.y); off2 = std::max(off2, d); mean += p.length * d; wt += p.length; }
        if (wt > 0) mean /= wt;
        REQUIRE(std::fabs(e) <= 0.35 * len * length + 1e-6, "step %d: the area has changed by %.6g; the velocities on the boundary (length %.6g) amount to %.6g", k, a2 - area, length, want);
        REQUIRE(back <= 1.35 * len + 2, "step %d: the new boundary is up to %.6g away from the old one, which was to move by at most %.6g", k, back, len);
        REQUIRE(off2 <= 0.45 * len + 2.2, "step %d: a point of the old boundary, moved along its normal, is %.6g away from the new one (largest displacement %.6g)", k, off2, len);
        REQUIRE(wt < 8 || mean <= 1.7 * len, "step %d: the points of the old boundary, moved along their normals, are %.6g away from the new one on average (largest displacement %.6g)", k, mean, len);
        s.maximise(r ? "resolved: off r" : "resolved: off", off2 / len); s.maximise("resolved: mean off", mean / len);
        s.maximise(r ? "resolved: area r" : "resolved: area", std::fabs(e) / (len * length)); s.maximise(r ? "resolved: moved r" : "resolved: moved", back / len); s.maximise("resolved: moved abs", back - 1.35 * len); s.maximise("resolved: off abs", off2 - 0.45 * len); s.maximise("resolved: total area", std::fabs(total) / path);
    }
    REQUIRE(std::fabs(total) <= 0.2 * path + 1e-6, "after %d steps the area is off by %.6g, for boundary lengths times displacements of %.6g", steps, total, path);
    s.label("smooth velocities, well separated boundaries"); s.nontrivial(steps >= 3 && pts >= 10);
}

void property(Src& s)
{
    switch (s.weighted({4, 6, 8})) { case 0: anything(s); break; case 1: shape(s); break; default: resolved(s); }
}
