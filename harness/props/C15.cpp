#include "gen.h"
const char* PROP_ID = "C15";
const char* PROP_RULE = "boundary of at least six segments";
const unsigned long QUICK_CASES = 48000, THOROUGH_CASES = 300000;

void property(Src& s)
{
    BState bs = genBState(s, 24);
    LevelSet& ls = *bs.st.ls; ref::Grid g(bs.st.d.w, bs.st.d.h);
    cells(s, bs);
    Boundary b;
    if (s.chance(1, 4)) { b.discretise(ls, false); s.label("reused boundary object"); }
    b.discretise(ls, bs.target);
    describe(s, g, bs.field(), "field");
    size_t n = b.points.size();
    std::vector<std::vector<unsigned>> segs(n), nbs(n); Vec len(n, 0); double total = 0, plen = 0;
    for (unsigned k = 0; k < b.segments.size(); k++) {
        const BoundarySegment& q = b.segments[k];
        double l = std::hypot(b.points[q.start].coord.x - b.points[q.end].coord.x, b.points[q.start].coord.y - b.points[q.end].coord.y);
        REQUIRE(std::fabs(q.length - l) < 1e-10, "segment %u has length %.12g, its end points are %.12g apart", k, q.length, l);
        REQUIRE(q.start != q.end, "segment %u starts and ends at point %u", k, q.start);
        segs[q.start].push_back(k); segs[q.end].push_back(k);
        nbs[q.start].push_back(q.end); nbs[q.end].push_back(q.start);
        len[q.start] += 0.5 * l; len[q.end] += 0.5 * l; total += l;
    }
    bool multi = false, open = false;
    for (int i = 0; i < g.n(); i++) if (g.edge(i) && bs.field()[i] > 0) open = true; // the structure continues at the domain edge
    if (open) s.label("cut by the domain edge");
    for (size_t i = 0; i < n; i++) {
        const BoundaryPoint& p = b.points[i];
        REQUIRE(p.nSegments == segs[i].size() && p.segments.size() >= p.nSegments, "point %zu counts %u segments, %zu end there", i, p.nSegments, segs[i].size());
        REQUIRE(p.nNeighbours == nbs[i].size() && p.neighbours.size() >= p.nNeighbours, "point %zu counts %u neighbours, %zu segments end there", i, p.nNeighbours, nbs[i].size());
        std::vector<unsigned> a(p.segments.begin(), p.segments.begin() + p.nSegments), c(p.neighbours.begin(), p.neighbours.begin() + p.nNeighbours);
        std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end()); std::sort(nbs[i].begin(), nbs[i].end());
        REQUIRE(a == segs[i], "point %zu at (%.6g,%.6g) lists other segments than those that end there", i, p.coord.x, p.coord.y);
        REQUIRE(c == nbs[i], "point %zu at (%.6g,%.6g) lists other neighbours than the far ends of its segments", i, p.coord.x, p.coord.y);
        REQUIRE(std::fabs(p.length - len[i]) < 1e-10, "point %zu has length %.12g, half its segments' lengths is %.12g", i, p.length, len[i]);
        plen += p.length;
        if (a.size() > 2) multi = true;
        double per = 0; for (unsigned k : nbs[i]) per += std::hypot(p.coord.x - b.points[k].coord.x, p.coord.y - b.points[k].coord.y);
        double got = b.computePerimeter(p);
        REQUIRE(std::fabs(got - per) < 1e-10, "perimeter at point %zu is %.12g, distance to its neighbours is %.12g", i, got, per);
        // displaced copies of a point are measured against the neighbours too
        BoundaryPoint q = p; q.coord.x += s.uniform(-0.3, 0.3); q.coord.y += 0.17;
        per = 0; for (unsigned k : nbs[i]) per += std::hypot(q.coord.x - b.points[k].coord.x, q.coord.y - b.points[k].coord.y);
        REQUIRE(std::fabs(b.computePerimeter(q) - per) < 1e-10, "perimeter at a displaced point %zu is wrong", i);
        REQUIRE(p.nSegments > 0, "point %zu at (%.6g,%.6g) has no segment", i, p.coord.x, p.coord.y);
        if ((!bs.st.fixed || bs.target) && !open)
            REQUIRE(p.nSegments % 2 == 0, "point %zu at (%.9g,%.9g) is met by %u segments: the boundary is not closed", i, p.coord.x, p.coord.y, p.nSegments);
        else if (!(p.coord.x < 1e-6 || p.coord.y < 1e-6 || p.coord.x > g.w - 1e-6 || p.coord.y > g.h - 1e-6))
            REQUIRE(p.nSegments % 2 == 0, "point %zu at (%.9g,%.9g), off the domain edge, is met by %u segments", i, p.coord.x, p.coord.y, p.nSegments);
    }
    REQUIRE(std::fabs(b.length - total) < 1e-9 * (1 + total), "total length is %.12g, segments sum to %.12g", b.length, total);
    REQUIRE(std::fabs(plen - total) < 1e-9 * (1 + total), "point lengths sum to %.12g, segments to %.12g", plen, total);
    if (multi) s.label("boundary touches itself");
    if (bs.st.fixed) s.label("fixed domain");
    s.nontrivial(b.segments.size() >= 6);
}
