#include "gen.h"
const char* PROP_ID = "C17";
const char* PROP_RULE = "at least six boundary points away from the domain edge whose normals were compared with the reference (or with the exact normals)";
const unsigned long QUICK_CASES = 55000, THOROUGH_CASES = 250000;

static ref::P gradAt(const ref::Grid& g, const Vec& f, int i)
{
    ref::P r; int x = g.X(i), y = g.Y(i);
    int a = std::max(0, x - 1), b = std::min(g.w, x + 1), c = std::max(0, y - 1), d = std::min(g.h, y + 1);
    r.x = (f[g.id(b, y)] - f[g.id(a, y)]) / (b - a); r.y = (f[g.id(x, d)] - f[g.id(x, c)]) / (d - c);
    return r;
}

static void exactCheck(Src& s)
{
    int w = (int) s.range(10, 30), h = (int) s.range(10, 30); ref::Grid g(w, h); bool circle = s.chance(1, 2);
    double worst = 0; int n = 0;
    if (circle) {
        double r = s.real(2.5, 0.4 * std::min(w, h)), cx = s.real(r + 1, w - r - 1), cy = s.real(r + 1, h - r - 1);
        if (cx - r < 1 || cy - r < 1 || cx + r > w - 1 || cy + r > h - 1) throw Discard();
        LevelSet ls(w, h, std::vector<Hole>{Hole(cx, cy, r)}); bool re = s.chance(1, 2); if (re) ls.reinitialise();
        s.desc("%dx%d circle (%g,%g) r %g", w, h, cx, cy, r);
        Boundary b; b.discretise(ls); b.computeNormalVectors(ls);
        for (auto& p : b.points) {
            double d = std::hypot(p.coord.x - cx, p.coord.y - cy); if (std::fabs(d - r) > 0.5) continue;
            if (std::min(std::min(p.coord.x, w - p.coord.x), std::min(p.coord.y, h - p.coord.y)) < 2.5) continue; // the domain edge bends the field
            double dot = p.normal.x * (p.coord.x - cx) / d + p.normal.y * (p.coord.y - cy) / d;
            worst = std::max(worst, 1 - dot); n++;
        }
        s.maximise(re ? "circle, reinitialised: 1 - cos(angle)" : "circle: 1 - cos(angle)", worst);
        REQUIRE(worst < (re ? 0.2 : 0.06), "circle: normal deviates from the inward direction (1 - cos = %.6g)", worst);
    }
    else {
        double t = s.chance(1, 3) ? s.range(0, 7) * M_PI / 4 : s.uniform(0, 2 * M_PI), px = s.real(0.4 * w, 0.6 * w), py = s.real(0.4 * h, 0.6 * h);
        LevelSet ls(w, h, std::vector<Hole>()); 
        for (int i = 0; i < g.n(); i++) ls.signedDistance[i] = (g.X(i) - px) * cos(t) + (g.Y(i) - py) * sin(t);
        for (double& v : ls.signedDistance) if (std::fabs(v) < 1e-9) v = 0;
        for (double v : ls.signedDistance) if (v != 0 && std::fabs(v) < 1e-5) throw Discard();
        Vec f = ls.signedDistance; if (!hasInterface(g, f)) throw Discard();
        ls.reinitialise(); ls.signedDistance = f;     // the band of this line, the exact field
        s.desc("%dx%d line angle %g", w, h, t);
        Boundary b; b.discretise(ls); b.computeNormalVectors(ls);
        for (auto& p : b.points) if (!p.isDomain) { REQUIRE(std::hypot(p.normal.x - cos(t), p.normal.y - sin(t)) < 1e-7, "straight interface: normal (%.9g,%.9g), exact (%.9g,%.9g)", p.normal.x, p.normal.y, cos(t), sin(t)); n++; }
    }
    s.label(circle ? "circle" : "straight line"); s.nontrivial(n >= 6);
}

void property(Src& s)
{
    if (s.chance(1, 5)) { exactCheck(s); return; }
    BState bs = genBState(s, 22, true, false);
    LevelSet& ls = *bs.st.ls; ref::Grid g(bs.st.d.w, bs.st.d.h);
    std::vector<ref::Cell> rc = cells(s, bs);
    describe(s, g, bs.field(), "field");
    Boundary b; b.discretise(ls);
    Boundary b0 = b; Snapshot before(ls);
    // left-over normals must not matter
    if (s.chance(1, 2)) for (auto& p : b.points) { p.normal.x = 5; p.normal.y = -7; }
    b.computeNormalVectors(ls);
    requireSame(before, Snapshot(ls), K_ALL, "computing normals");
    REQUIRE(b.points.size() == b0.points.size() && b.segments.size() == b0.segments.size() && b.length == b0.length && b.nPoints == b0.nPoints && b.nSegments == b0.nSegments, "computing normals changed the boundary");
    int compared = 0; bool flat = false;
    for (size_t i = 0; i < b.points.size(); i++) {
        const BoundaryPoint &p = b.points[i], &q = b0.points[i];
        REQUIRE(p.coord.x == q.coord.x && p.coord.y == q.coord.y && p.length == q.length && p.velocity == q.velocity && p.negativeLimit == q.negativeLimit && p.positiveLimit == q.positiveLimit && p.isDomain == q.isDomain && p.isFixed == q.isFixed && p.nSegments == q.nSegments,
                "computing normals changed more than the normal of point %zu", i);
        REQUIRE(fin(p.normal.x) && fin(p.normal.y), "point %zu at (%.6g,%.6g): normal (%g,%g)", i, p.coord.x, p.coord.y, p.normal.x, p.normal.y);
        bool edge = p.coord.x < 1e-6 || p.coord.y < 1e-6 || p.coord.x > g.w - 1e-6 || p.coord.y > g.h - 1e-6;
        if (edge) continue;
        // nodes this point belongs to: the node it lies on, or the two ends of its mesh edge
        int x = (int) std::floor(p.coord.x + 1e-9), y = (int) std::floor(p.coord.y + 1e-9); bool fx = p.coord.x - x > 1e-8, fy = p.coord.y - y > 1e-8;
        std::vector<int> nodes; nodes.push_back(g.id(x, y)); if (fx) nodes.push_back(g.id(x + 1, y)); else if (fy) nodes.push_back(g.id(x, y + 1));
        ref::P sum = {0, 0}; bool set = false, delicate = false; double gmin = 1e300;
        for (int k : nodes) {
            if (!ls.mesh.nodes[k].isActive) continue;
            ref::P gr = gradAt(g, ls.signedDistance, k); double m = std::hypot(gr.x, gr.y); gmin = std::min(gmin, m);
            if (m < 1e-7) { delicate = true; continue; }
            double dx = g.X(k) - p.coord.x, dy = g.Y(k) - p.coord.y, r2 = dx * dx + dy * dy;
            if (std::fabs(r2 - 1e-6) < 1e-9) delicate = true;
            if (r2 < 1e-6) { sum = {gr.x / m, gr.y / m}; set = true; }
            else if (!set) { sum.x += gr.x / m / r2; sum.y += gr.y / m / r2; }
        }
        double m = std::hypot(sum.x, sum.y), weight = 0; (void) weight;
        if (delicate || m == 0) { flat = true; continue; }
        // opposite gradients at the two ends cancel; the direction is then arbitrary
        { double tot = 0; for (int k : nodes) if (ls.mesh.nodes[k].isActive) { double dx = g.X(k) - p.coord.x, dy = g.Y(k) - p.coord.y; tot += 1 / std::max(1e-6, dx * dx + dy * dy); } if (!set && m < 1e-6 * tot) continue; }
        REQUIRE(std::fabs(std::hypot(p.normal.x, p.normal.y) - 1) < 1e-9, "point %zu at (%.6g,%.6g): normal has length %.12g", i, p.coord.x, p.coord.y, std::hypot(p.normal.x, p.normal.y));
        REQUIRE(std::hypot(p.normal.x - sum.x / m, p.normal.y - sum.y / m) < 1e-6, "point %zu at (%.6g,%.6g): normal (%.9g,%.9g), reference (%.9g,%.9g)", i, p.coord.x, p.coord.y, p.normal.x, p.normal.y, sum.x / m, sum.y / m);
        compared++;
    }
    if (flat) s.label("vanishing gradient next to a point");
    s.nontrivial(compared >= 6);
    Boundary c = b; c.computeNormalVectors(ls);
    for (size_t i = 0; i < b.points.size(); i++) REQUIRE(hashd(b.points[i].normal.x) == hashd(c.points[i].normal.x) && hashd(b.points[i].normal.y) == hashd(c.points[i].normal.y), "computing the normals again changes that of point %zu", i);
}
