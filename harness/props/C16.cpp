#include "gen.h"
const char* PROP_ID = "C16";
const char* PROP_RULE = "at least four cells cut by the boundary (or a structure with a known analytic area)";
const unsigned long QUICK_CASES = 48000, THOROUGH_CASES = 300000;

static void analytic(Src& s)
{
    int w = (int) s.range(10, 36), h = (int) s.range(10, 36); ref::Grid g(w, h);
    unsigned k = s.weighted({3, 2}); double exact, tol, perim = 0; const char* what; LS ls;
    if (k == 0) {
        std::vector<Hole> hs; int n = (int) s.range(1, 5); exact = w * h; std::string d;
        for (int t = 0; t < n; t++) {
            double cx = s.real(3, w - 3), cy = s.real(3, h - 3), r = s.real(1.5, 7);
            bool ok = cx - r >= 1 && cy - r >= 1 && cx + r <= w - 1 && cy + r <= h - 1;
            for (auto& q : hs) if (std::hypot(q.coord.x - cx, q.coord.y - cy) < r + q.r + 2) ok = false;
            if (ok) { hs.push_back(Hole(cx, cy, r)); exact -= M_PI * r * r; perim += 1; char b[80]; snprintf(b, 80, "(%g,%g,r%g)", cx, cy, r); d += b; }
        }
        if (hs.empty()) throw Discard();
        ls.reset(new LevelSet(w, h, hs)); what = "circles"; tol = 1.0 * perim; s.desc("%dx%d circles %s", w, h, d.c_str());
    }
    else {
        double cx = s.real(0.4 * w, 0.6 * w), cy = s.real(0.4 * h, 0.6 * h), r = s.real(3, 0.38 * std::min(w, h)); int n = (int) s.range(3, 9);
        if (cx - r < 1 || cy - r < 1 || cx + r > w - 1 || cy + r > h - 1) throw Discard();
        double a0 = s.uniform(0, 2 * M_PI); std::vector<Coord> p;
        for (int t = 0; t <= n; t++) p.push_back(Coord(cx + r * cos(a0 - 2 * M_PI * (t % n) / n), cy + r * sin(a0 - 2 * M_PI * (t % n) / n)));
        exact = w * h - std::fabs(0.5 * n * r * r * sin(2 * M_PI / n));
        ls.reset(new LevelSet(w, h, p)); what = "polygon"; tol = 0.8 * n; s.desc("%dx%d %d-gon at (%g,%g) radius %g", w, h, n, cx, cy, r);
    }
    bool re = s.chance(1, 2); if (re) ls->reinitialise();
    Boundary b; b.discretise(*ls); double a = ls->computeAreaFractions(b);
    std::string m = std::string(re ? "reinitialised " : "") + what + (k ? ": area error per corner" : ": area error per circle"); s.maximise(m.c_str(), std::fabs(a - exact) / (k ? tol / 0.8 : perim));
    if (re) tol *= k ? 1.25 : 1.6;
    REQUIRE(std::fabs(a - exact) < tol, "%s: area %.9g, analytic %.9g", what, a, exact);
    s.label("analytic area"); s.nontrivial();
}

void property(Src& s)
{
    if (s.chance(1, 5)) { analytic(s); return; }
    BState bs = genBState(s, 22);
    LevelSet& ls = *bs.st.ls; ref::Grid g(bs.st.d.w, bs.st.d.h);
    // make cells with a mean of exactly zero common
    if (s.chance(1, 6) && !bs.target) {
        int n = (int) s.range(1, 4); double a = s.real(0.2, 0.8); bool flip = s.chance(1, 2);
        for (int t = 0; t < n && g.w >= 3 && g.h >= 3; t++) {
            int x = (int) s.range(1, g.w - 2), y = (int) s.range(1, g.h - 2);
            ls.signedDistance[g.id(x, y)] = ls.signedDistance[g.id(x + 1, y + 1)] = flip ? -a : a;
            ls.signedDistance[g.id(x + 1, y)] = ls.signedDistance[g.id(x, y + 1)] = flip ? a : -a;
        }
        for (int i = 0; i < g.n(); i++) for (int d = 1; d < 4; d += 2) { int k = g.nb(i, d); if (k >= 0 && ls.signedDistance[i] * ls.signedDistance[k] < 0 && !may(ls, false, i, k)) throw Discard(); }
        s.label("planted ambiguous cells");
    }
    std::vector<ref::Cell> ref = cells(s, bs);
    describe(s, g, bs.field(), "field");
    Boundary b; b.discretise(ls, bs.target);
    for (auto& e : ls.mesh.elements) e.area = 17;
    ls.area = -3;
    Snapshot before(ls);
    double ret = ls.computeAreaFractions(b);
    requireSame(before, Snapshot(ls), K_ALL, "computing area fractions");
    double sum = 0; int cutc = 0;
    for (int e = 0; e < g.w * g.h; e++) {
        const ref::Cell& c = ref[e]; double a = ls.mesh.elements[e].area;
        REQUIRE(fin(a) && a >= -1e-12 && a <= 1 + 1e-12, "cell %d: area fraction %.12g", e, a);
        double want = c.area;
        if (c.saddle) {
            // which of the two choices did this cell's own segments take?
            bool alt = false;
            for (auto& q : b.segments) if ((int) q.element == e) {
                for (auto& w : c.alt) if ((at(b.points[q.start].coord, w.first) && at(b.points[q.end].coord, w.second)) || (at(b.points[q.end].coord, w.first) && at(b.points[q.start].coord, w.second))) {
                    bool also = false; for (auto& v : c.segs) if ((ref::dist(v.first, w.first) < 1e-9 && ref::dist(v.second, w.second) < 1e-9) || (ref::dist(v.second, w.first) < 1e-9 && ref::dist(v.first, w.second) < 1e-9)) also = true;
                    if (!also) alt = true;
                }
            }
            if (alt) want = c.altArea;
            if (c.tie) s.label("ambiguous cell with zero mean"); else s.label("ambiguous cell");
        }
        if (!c.inside && !c.outside) cutc++;
        REQUIRE(std::fabs(a - want) < 1e-9, "cell %d (corner values %.6g %.6g %.6g %.6g): area fraction %.12g, its segments enclose %.12g", e, bs.field()[ref::corner(g, e, 0)], bs.field()[ref::corner(g, e, 1)],
                bs.field()[ref::corner(g, e, 2)], bs.field()[ref::corner(g, e, 3)], a, want);
        sum += a;
    }
    REQUIRE(std::fabs(ret - sum) < 1e-9 * (1 + sum), "total area %.12g, fractions sum to %.12g", ret, sum);
    REQUIRE(ls.area == ret, "returned area %.12g, stored area %.12g", ret, ls.area);
    s.nontrivial(cutc >= 4);
    // repeatable
    double again = ls.computeAreaFractions(b); REQUIRE(again == ret, "computing the area again gives %.12g after %.12g", again, ret);
}
