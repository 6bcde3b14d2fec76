#include "gen.h"
const char* PROP_ID = "C18";
const char* PROP_RULE = "at least six boundary points, at least one of them limited by the domain edge or a masked node";
const unsigned long QUICK_CASES = 60000, THOROUGH_CASES = 300000;

void property(Src& s)
{
    BState bs = genBState(s, 22);
    LevelSet& ls = *bs.st.ls; ref::Grid g(bs.st.d.w, bs.st.d.h);
    cells(s, bs);
    double ml = ls.moveLimit;
    Boundary b; b.discretise(ls, bs.target);
    int special = 0;
    for (size_t i = 0; i < b.points.size(); i++) {
        const BoundaryPoint& p = b.points[i]; double x = p.coord.x, y = p.coord.y;
        double edge = std::min(std::min(x, g.w - x), std::min(y, g.h - y));
        REQUIRE(std::fabs(p.positiveLimit - ml) < 1e-12, "point %zu at (%.6g,%.6g): upper limit %.9g, move limit %.9g", i, x, y, p.positiveLimit, ml);
        bool dom = edge < 1e-6;
        if (std::fabs(edge - 1e-6) > 1e-9) REQUIRE(p.isDomain == dom, "point %zu at (%.9g,%.9g) is %sflagged as a domain point", i, x, y, p.isDomain ? "" : "not ");
        double lim = std::min(ml, edge);
        // closest node(s); a tie leaves the choice open
        double best = 1e300; for (int k = 0; k < g.n(); k++) if (std::fabs(g.X(k) - x) <= 1 && std::fabs(g.Y(k) - y) <= 1) best = std::min(best, std::hypot(g.X(k) - x, g.Y(k) - y));
        bool anyMasked = false, allMasked = true; for (int k = 0; k < g.n(); k++) if (std::hypot(g.X(k) - x, g.Y(k) - y) < best + 2e-6) { if (ls.mesh.nodes[k].isMasked) anyMasked = true; else allMasked = false; }
        if (anyMasked != allMasked) { s.label("closest node is a tie"); continue; }
        bool onNode = best < 1e-6; if (!onNode && best < 3e-6) continue;
        REQUIRE(p.isFixed == (anyMasked && onNode), "point %zu at (%.9g,%.9g), %.3g from a%s node, is %sflagged as fixed", i, x, y, best, anyMasked ? " masked" : "n unmasked", p.isFixed ? "" : "not ");
        if (anyMasked && !onNode) lim = std::min(lim, best);
        REQUIRE(std::fabs(p.negativeLimit + lim) < 1e-9, "point %zu at (%.6g,%.6g): lower limit %.9g, expected %.9g (move limit %.6g, domain edge %.6g away, closest node%s %.6g away)", i, x, y, p.negativeLimit, -lim, ml, edge, anyMasked ? " masked," : "", best);
        REQUIRE(p.negativeLimit <= 0 && p.positiveLimit >= 0, "point %zu: limits [%.9g,%.9g]", i, p.negativeLimit, p.positiveLimit);
        if (lim < ml - 1e-9 || anyMasked) special++;
        if (dom) s.label("domain point"); 
        if (p.isFixed) s.label("fixed point");
        if (anyMasked && !onNode && best < std::min(ml, edge)) s.label("limited by a masked node");
        if (!dom && edge < ml) s.label("limited by the domain edge");
    }
    s.nontrivial(b.points.size() >= 6 && special >= 1);
}
