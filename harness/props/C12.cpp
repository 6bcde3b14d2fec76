#include "gen.h"
const char* PROP_ID = "C12";
const char* PROP_RULE = "structure with nodes on both sides, at least four nodes closer to the requested geometry than to the domain edge";
const unsigned long QUICK_CASES = 36000, THOROUGH_CASES = 300000;

static Vec holesRef(const ref::Grid& g, const std::vector<Hole>& hs)
{
    Vec f(g.n());
    for (int i = 0; i < g.n(); i++) {
        f[i] = ref::domainDist(g, g.X(i), g.Y(i));
        for (auto& q : hs) f[i] = std::min(f[i], std::hypot(g.X(i) - q.coord.x, g.Y(i) - q.coord.y) - q.r);
    }
    return f;
}

// distance to the domain edge and the polygon; ambiguous[i]: too close to an edge of the polygon for its side to be decided
static Vec polyRef(const ref::Grid& g, const std::vector<Coord>& c, std::vector<char>& ambiguous)
{
    std::vector<ref::P> p = toP(c); Vec f(g.n()); ambiguous.assign(g.n(), 0);
    for (int i = 0; i < g.n(); i++) {
        ref::P q = {(double) g.X(i), (double) g.Y(i)};
        double d = 1e300; for (size_t k = 0; k + 1 < p.size(); k++) d = std::min(d, ref::segDist(p[k], p[k + 1], q));
        f[i] = std::min(d, ref::domainDist(g, q.x, q.y));
        if (d < 1e-9) ambiguous[i] = 1;
        else if (ref::winding(p, q) != 0) f[i] = -f[i];
    }
    return f;
}

static void compare(Src& s, const ref::Grid& g, const Vec& got, const Vec& want, const std::vector<char>* amb, const char* what)
{
    describe(s, g, got, what); describe(s, g, want, "expected");
    for (int i = 0; i < g.n(); i++) {
        bool ok = amb && (*amb)[i] ? std::fabs(std::fabs(got[i]) - std::fabs(want[i])) < 1e-8 : std::fabs(got[i] - want[i]) < 1e-8;
        REQUIRE(ok, "%s: signed distance at (%d,%d) is %.12g, expected %.12g", what, g.X(i), g.Y(i), got[i], want[i]);
    }
}

void property(Src& s)
{
    unsigned kind = s.weighted({6, 6, 1, 3});
    float ml = 0.5f; unsigned band = (unsigned) s.range(3, 9); bool fixed = s.chance(1, 3);
    double mlv = s.real(0.05, 0.95); (void) ml;
    if (kind == 2) {    // default structure
        int w = (int) s.range(75, 120), h = (int) s.range(75, 120); ref::Grid g(w, h);
        LevelSet ls(w, h, mlv, band, fixed);
        int nx = (int) std::floor(w / 30.0 + 0.5), ny = (int) std::floor(h / 30.0 + 0.5);
        double dx = w / (2.0 * nx), dy = h / (2.0 * ny); std::vector<Hole> hs;
        for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) hs.push_back(Hole((2 * x + 1) * dx, (2 * y + 1) * dy, 5));
        for (int y = 1; y < ny; y++) for (int x = 1; x < nx; x++) hs.push_back(Hole(2 * x * dx, 2 * y * dy, 5));
        s.desc("default structure %dx%d", w, h); s.label("default structure");
        compare(s, g, ls.signedDistance, holesRef(g, hs), nullptr, "default structure");
        REQUIRE(ls.moveLimit == mlv, "move limit %g, requested %g", ls.moveLimit, mlv);
        s.nontrivial(); return;
    }
    Dims d = genDims(s, s.chance(1, 6) ? 1 : 4, 30); ref::Grid g(d.w, d.h);
    if (kind == 3 && (d.w < 3 || d.h < 3)) throw Discard();
    auto count = [&](const Vec& f, const Vec& dom) { int near = 0; bool in = false, out = false; for (int i = 0; i < g.n(); i++) { if (f[i] < dom[i] - 1e-9) near++; (f[i] < 0 ? out : in) = true; } s.nontrivial(near >= 4 && in && out); };
    Vec dom(g.n()); for (int i = 0; i < g.n(); i++) dom[i] = ref::domainDist(g, g.X(i), g.Y(i));
    if (kind == 0) {
        std::vector<Hole> hs = genHoles(s, d.w, d.h, 8, 0);
        std::ostringstream os; for (auto& q : hs) os << "(" << q.coord.x << "," << q.coord.y << ",r" << q.r << ")";
        s.desc("%dx%d holes %s", d.w, d.h, os.str().c_str()); s.label("holes");
        LevelSet ls(d.w, d.h, hs, mlv, band, fixed);
        compare(s, g, ls.signedDistance, holesRef(g, hs), nullptr, "holes");
        REQUIRE(ls.moveLimit == mlv, "move limit %g, requested %g", ls.moveLimit, mlv);
        REQUIRE(ls.mesh.width == (unsigned) d.w && ls.mesh.height == (unsigned) d.h, "mesh is %ux%u, requested %dx%d", ls.mesh.width, ls.mesh.height, d.w, d.h);
        count(ls.signedDistance, dom);
    }
    else if (kind == 1) {
        if (d.w < 3 || d.h < 3) throw Discard();
        bool cw; std::vector<Coord> p = genPolygon(s, d.w, d.h, cw);
        std::ostringstream os; for (auto& q : p) os << "(" << q.x << "," << q.y << ")";
        s.desc("%dx%d polygon %s", d.w, d.h, os.str().c_str()); s.label(cw ? "polygon clockwise" : "polygon anticlockwise");
        LevelSet ls(d.w, d.h, p, mlv, band, fixed);
        std::vector<char> amb; Vec want = polyRef(g, p, amb);
        compare(s, g, ls.signedDistance, want, &amb, "polygon");
        REQUIRE(ls.moveLimit == mlv, "move limit %g, requested %g", ls.moveLimit, mlv);
        std::vector<Coord> q(p.rbegin(), p.rend());
        LevelSet l2(d.w, d.h, q, mlv, band, fixed);
        compare(s, g, l2.signedDistance, want, &amb, "polygon reversed");
        count(ls.signedDistance, dom);
    }
    else {
        // target variants against the plain constructors
        unsigned t = s.draw(3); LS a, init, tgt; bool cw;
        std::vector<Hole> h1 = genHoles(s, d.w, d.h), h2 = genHoles(s, d.w, d.h);
        std::vector<Coord> p1 = genPolygon(s, d.w, d.h, cw), p2 = genPolygon(s, d.w, d.h, cw);
        if (t == 2) init.reset(new LevelSet(d.w, d.h, p1, mlv, band, fixed)); else init.reset(new LevelSet(d.w, d.h, h1, mlv, band, fixed));
        if (t == 0) tgt.reset(new LevelSet(d.w, d.h, h2, mlv, band, fixed)); else tgt.reset(new LevelSet(d.w, d.h, p2, mlv, band, fixed));
        if (!hasInterface(g, tgt->signedDistance)) throw Discard();
        tgt->reinitialise();
        if (t == 0) a.reset(new LevelSet(d.w, d.h, h1, h2, mlv, band, fixed));
        else if (t == 1) a.reset(new LevelSet(d.w, d.h, h1, p2, mlv, band, fixed));
        else a.reset(new LevelSet(d.w, d.h, p1, p2, mlv, band, fixed));
        static const char* n[] = {"target: holes from holes", "target: polygon from holes", "target: polygon from polygon"};
        s.label(n[t]); s.desc("%dx%d %s", d.w, d.h, n[t]);
        REQUIRE(a->target.size() == (size_t) g.n(), "target holds %zu values", a->target.size());
        for (int i = 0; i < g.n(); i++) {
            REQUIRE(close(a->target[i], tgt->signedDistance[i], 1e-12), "%s: target at (%d,%d) is %.12g, reinitialised target geometry gives %.12g", n[t], g.X(i), g.Y(i), a->target[i], tgt->signedDistance[i]);
            REQUIRE(a->signedDistance[i] == init->signedDistance[i], "%s: initial structure at (%d,%d) is %.12g, without a target %.12g", n[t], g.X(i), g.Y(i), a->signedDistance[i], init->signedDistance[i]);
        }
        REQUIRE(a->moveLimit == mlv, "move limit %g, requested %g", a->moveLimit, mlv);
        Snapshot x(*a), y(*init); requireSame(x, y, K_PHI | K_BAND, "having a target");
        count(a->signedDistance, dom);
    }
}
