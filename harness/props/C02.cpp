#include "gen.h"
const char* PROP_ID = "C02";
const char* PROP_RULE = "at least one queried point on or within 1e-5 of a cell edge or midline, and at least one generic point";
const unsigned long QUICK_CASES = 120000, THOROUGH_CASES = 600000;

static double coordinate(Src& s, int n, bool& special)
{
    unsigned k = s.weighted({2, 3, 2, 2, 1});
    double v;
    if (k == 0) v = s.range(0, n);
    else if (k == 1) v = s.uniform(0, n);
    else if (k == 2) v = s.range(0, n - 1) + 0.5;                      // midline: quadrant choice
    else if (k == 3) {                                                 // near an edge or midline
        static const double eps[] = {1e-12, 1e-9, 1e-7, 5e-7, 9e-7, 1.1e-6, 2e-6, 1e-5};
        v = 0.5 * s.range(0, 2 * n) + (s.chance(1, 2) ? 1 : -1) * eps[s.draw(8)];
    }
    else v = s.chance(1, 2) ? n : 0;
    if (v < 0) v = 0;
    if (v > n) v = n;
    double f = v * 2 - std::floor(v * 2 + 0.5);
    if (std::fabs(f) < 2e-5) special = true;
    return v;
}

void property(Src& s)
{
    int w = (int) s.range(1, 40), h = (int) s.range(1, 40);
    if (s.chance(1, 8)) { w = (int) s.range(1, 700); h = (int) s.range(1, 3); if (s.chance(1, 2)) std::swap(w, h); }
    Mesh m(w, h);
    s.desc("mesh %dx%d", w, h);
    bool special = false, generic = false;
    int np = (int) s.range(1, 30);
    for (int i = 0; i < np; i++) {
        bool sx = false, sy = false;
        double x = coordinate(s, w, sx), y = coordinate(s, h, sy);
        if (sx || sy) special = true; else generic = true;
        s.desc("(%.9g,%.9g)", x, y);
        Coord c(x, y);
        unsigned e = m.getElement(c), e2 = m.getElement(x, y);
        REQUIRE(e == e2, "%dx%d: element of (%.12g,%.12g) differs between overloads: %u and %u", w, h, x, y, e, e2);
        REQUIRE(e < m.nElements, "%dx%d: element %u of (%.12g,%.12g) does not exist", w, h, e, x, y);
        double ex = e % w, ey = e / w, tol = 1.000001e-6;
        REQUIRE(x >= ex - tol && x <= ex + 1 + tol && y >= ey - tol && y <= ey + 1 + tol,
                "%dx%d: (%.12g,%.12g) is reported in cell (%g,%g)", w, h, x, y, ex, ey);
        unsigned n = m.getClosestNode(c), n2 = m.getClosestNode(x, y);
        REQUIRE(n == n2, "%dx%d: closest node of (%.12g,%.12g) differs between overloads: %u and %u", w, h, x, y, n, n2);
        REQUIRE(n < m.nNodes, "%dx%d: closest node %u of (%.12g,%.12g) does not exist", w, h, n, x, y);
        ref::Grid g(w, h);
        double d = std::hypot(g.X(n) - x, g.Y(n) - y);
        double bx = std::fabs(x - std::floor(x + 0.5)), by = std::fabs(y - std::floor(y + 0.5)), best = std::hypot(bx, by);
        REQUIRE(d <= best + 3e-6, "%dx%d: closest node to (%.12g,%.12g) reported as (%d,%d) at %.9g; the nearest is at %.9g", w, h, x, y, g.X(n), g.Y(n), d, best);
    }
    s.nontrivial(special && generic);
    if (special) s.label("edge, node or midline point");
}
