#include "gen.h"
const char* PROP_ID = "C07";
const char* PROP_RULE = "boundary with at least four points carrying velocities that are not all zero, at least five nodes reached by the extension and at least three of them compared exactly";
const unsigned long QUICK_CASES = 32000, THOROUGH_CASES = 200000;

struct Start { Vec v; std::vector<double> w; std::vector<char> delicate, touched; };

// node values before the extension: inverse-square-distance average over the boundary points a node touches
static Start start(const LevelSet& ls, const ref::Grid& g, const std::vector<BoundaryPoint>& pts, const Vec& vel)
{
    Start r; r.v.assign(g.n(), 0); r.w.assign(g.n(), 0); r.delicate.assign(g.n(), 0); r.touched.assign(g.n(), 0);
    std::vector<int> set(g.n(), 0); Vec exact(g.n(), 0);
    for (size_t i = 0; i < pts.size(); i++) {
        int c = (int) ls.mesh.getClosestNode(pts[i].coord);
        for (int d = -1; d < 4; d++) {
            int k = d < 0 ? c : g.nb(c, d); if (k < 0) continue;
            double dx = pts[i].coord.x - g.X(k), dy = pts[i].coord.y - g.Y(k), q = dx * dx + dy * dy;
            if (d >= 0 && std::fabs(q - 1) < 1e-9 && std::fabs(dx) > 1e-6 && std::fabs(dy) > 1e-6) r.delicate[k] = 1;
            if (d >= 0 && q > 1 + 1e-12) continue;
            if (std::fabs(q - 1) < 1e-9 && q != 1) r.delicate[k] = 1;
            if (std::fabs(q - 1e-6) < 1e-9) r.delicate[k] = 1;
            r.touched[k] = 1;
            if (q < 1e-6) { if (set[k] && vel[i] != exact[k]) r.delicate[k] = 1; set[k] = 1; exact[k] = vel[i]; }
            else { r.v[k] += vel[i] / q; r.w[k] += 1 / q; }
        }
    }
    for (int i = 0; i < g.n(); i++) { if (set[i]) r.v[i] = exact[i]; else if (r.w[i] > 0) r.v[i] /= r.w[i]; }
    return r;
}

void property(Src& s)
{
    GenOpt o; o.lo = s.chance(1, 8) ? 2 : 4; o.hi = 24; o.allowRaw = true;
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    if (s.chance(1, 3)) { Mask m = genMask(s, st.d.w, st.d.h); applyMask(s, st, m); if (s.chance(1, 3)) { Mask m2 = genMask(s, st.d.w, st.d.h); applyMask(s, st, m2); } }
    for (double v : ls.signedDistance) if (v != 0 && std::fabs(v) < 2e-6) throw Discard();   // within the tolerance band of the discretisation
    Boundary b; b.discretise(ls);
    if (b.points.size() < 2) throw Discard();
    genVelocities(s, b);
    Vec vel; double lo = 0, hi = 0; bool nz = false;
    for (auto& p : b.points) { vel.push_back(p.velocity); lo = std::min(lo, p.velocity); hi = std::max(hi, p.velocity); if (p.velocity) nz = true; }
    double scale = std::max(std::max(-lo, hi), 1e-3);
    Snapshot before(ls);
    // rubbish from earlier steps must not matter
    if (s.chance(1, 2)) for (double& v : ls.velocity) v = s.uniform(-50, 50);
    std::vector<BoundaryPoint> pts = b.points;
    ls.computeVelocities(pts);
    requireSame(before, Snapshot(ls), K_PHI | K_GRAD | K_BAND | K_TARGET, "extending velocities");
    for (size_t i = 0; i < pts.size(); i++) REQUIRE(pts[i].velocity == vel[i] && pts[i].coord.x == b.points[i].coord.x && pts[i].coord.y == b.points[i].coord.y, "boundary point %zu was changed by the extension", i);
    Vec out = ls.velocity;
    std::vector<char> active(g.n()); for (int i = 0; i < g.n(); i++) active[i] = ls.mesh.nodes[i].isActive;
    Start t = start(ls, g, pts, vel);
    bool anyDelicate = false; for (char c : t.delicate) if (c) anyDelicate = true;
    if (anyDelicate) s.label("a weight on its threshold");
    describe(s, g, ls.signedDistance, "signed distance"); describe(s, g, out, "velocity");
    ref::StableMarch r = ref::stableMarch(g, ls.signedDistance, &t.v, &active, 1e-9, scale);
    int ext = 0, cmp = 0, nb = 0;
    for (unsigned q = 0; q < ls.nNarrowBand; q++) {
        int i = (int) ls.narrowBand[q];
        REQUIRE(fin(out[i]), "node (%d,%d): velocity %g", g.X(i), g.Y(i), out[i]);
        REQUIRE(out[i] >= lo - 1e-9 * scale && out[i] <= hi + 1e-9 * scale, "node (%d,%d): velocity %.9g outside the range [%.6g,%.6g] of the boundary velocities", g.X(i), g.Y(i), out[i], lo, hi);
        if (r.m.border[i] || !r.m.reached[i]) {
            nb++;
            if (!t.delicate[i]) REQUIRE(std::fabs(out[i] - t.v[i]) < 1e-9 * scale, "node (%d,%d) next to the boundary: velocity %.12g, inverse-square average %.12g", g.X(i), g.Y(i), out[i], t.v[i]);
        }
        else {
            ext++;
            if (anyDelicate) continue;
            if (r.stable[i]) cmp++;
            if (r.stable[i] && std::fabs(out[i] - r.m.vel[i]) > 1e-7 * scale && r.confirm(i))
                fail("node (%d,%d): extended velocity %.10g, reference %.10g (signed distance %.6g)", g.X(i), g.Y(i), out[i], r.m.vel[i], ls.signedDistance[i]);
        }
    }
    s.nontrivial(b.points.size() >= 4 && nz && ext >= 5 && cmp >= 3);
    // a uniform velocity stays uniform wherever the interface carries boundary points
    bool carried = true; for (int i = 0; i < g.n(); i++) if (r.m.border[i] && !t.touched[i]) carried = false;
    if (s.chance(1, 2)) {
        double c = s.uniform(-2, 2);
        for (auto& p : pts) p.velocity = c;
        ls.computeVelocities(pts);
        for (unsigned q = 0; q < ls.nNarrowBand; q++) {
            int i = (int) ls.narrowBand[q]; double v = ls.velocity[i];
            if (carried && (r.m.reached[i] || t.touched[i])) REQUIRE(std::fabs(v - c) < 1e-9 * (std::fabs(c) + 1e-3), "uniform velocity %.9g became %.9g at (%d,%d)", c, v, g.X(i), g.Y(i));
            else REQUIRE(v >= std::min(0.0, c) - 1e-9 && v <= std::max(0.0, c) + 1e-9, "uniform velocity %.9g became %.9g at (%d,%d)", c, v, g.X(i), g.Y(i));
        }
        s.label(carried ? "uniform velocity reproduced" : "uniform velocity, part of the interface without points");
    }
    // linearity
    if (s.chance(1, 2)) {
        Vec u; double a = s.uniform(-2, 2), c = s.uniform(-2, 2);
        for (auto& p : pts) { p.velocity = s.uniform(-1, 1); u.push_back(p.velocity); }
        ls.computeVelocities(pts); Vec r1 = ls.velocity;
        for (size_t i = 0; i < pts.size(); i++) pts[i].velocity = a * vel[i] + c * u[i];
        ls.computeVelocities(pts);
        for (unsigned q = 0; q < ls.nNarrowBand; q++) {
            int i = (int) ls.narrowBand[q]; double e = a * out[i] + c * r1[i];
            REQUIRE(std::fabs(ls.velocity[i] - e) < 1e-8 * (scale + 2), "extension is not linear at (%d,%d): %.10g, combination %.10g", g.X(i), g.Y(i), ls.velocity[i], e);
        }
        s.label("linearity");
    }
}
