#include "gen.h"
const char* PROP_ID = "C14";
const char* PROP_RULE = "at least six boundary segments, in cells of at least two different corner patterns";
const unsigned long QUICK_CASES = 48000, THOROUGH_CASES = 300000;

typedef std::vector<std::pair<ref::P, ref::P>> Segs;

// multiset equality of undirected segments
static bool equal(const Segs& want, const Boundary& b, const std::vector<unsigned>& got)
{
    if (want.size() != got.size()) return false;
    std::vector<char> used(got.size(), 0);
    for (auto& w : want) {
        bool ok = false;
        for (size_t k = 0; k < got.size() && !ok; k++) if (!used[k]) {
            const Coord &p = b.points[b.segments[got[k]].start].coord, &q = b.points[b.segments[got[k]].end].coord;
            if ((at(p, w.first) && at(q, w.second)) || (at(q, w.first) && at(p, w.second))) { used[k] = 1; ok = true; }
        }
        if (!ok) return false;
    }
    return true;
}

static std::string show(const Segs& v) { std::string r; char b[120]; for (auto& w : v) { snprintf(b, 120, " (%.6g,%.6g)-(%.6g,%.6g)", w.first.x, w.first.y, w.second.x, w.second.y); r += b; } return r.empty() ? " none" : r; }
static std::string show(const Boundary& b, const std::vector<unsigned>& v)
{
    Segs t; for (unsigned k : v) t.push_back({{b.points[b.segments[k].start].coord.x, b.points[b.segments[k].start].coord.y}, {b.points[b.segments[k].end].coord.x, b.points[b.segments[k].end].coord.y}});
    return show(t);
}

static bool identical(const Boundary& a, const Boundary& b)
{
    if (a.points.size() != b.points.size() || a.segments.size() != b.segments.size() || a.nPoints != b.nPoints || a.nSegments != b.nSegments || a.length != b.length) return false;
    for (size_t i = 0; i < a.points.size(); i++) {
        const BoundaryPoint &p = a.points[i], &q = b.points[i];
        if (p.coord.x != q.coord.x || p.coord.y != q.coord.y || p.length != q.length || p.nSegments != q.nSegments || p.nNeighbours != q.nNeighbours ||
            p.negativeLimit != q.negativeLimit || p.positiveLimit != q.positiveLimit || p.isDomain != q.isDomain || p.isFixed != q.isFixed) return false;
        for (unsigned k = 0; k < p.nSegments; k++) if (p.segments[k] != q.segments[k]) return false;
        for (unsigned k = 0; k < p.nNeighbours; k++) if (p.neighbours[k] != q.neighbours[k]) return false;
    }
    for (size_t i = 0; i < a.segments.size(); i++) {
        const BoundarySegment &p = a.segments[i], &q = b.segments[i];
        if (p.start != q.start || p.end != q.end || p.element != q.element || p.length != q.length) return false;
    }
    return true;
}

void property(Src& s)
{
    BState bs = genBState(s, 22);
    LevelSet& ls = *bs.st.ls; ref::Grid g(bs.st.d.w, bs.st.d.h);
    std::vector<ref::Cell> ref = cells(s, bs);
    describe(s, g, bs.field(), "field");
    LevelSet copy = ls;
    Snapshot before(ls);
    Boundary b;
    if (s.chance(1, 3)) { b.discretise(ls, false); if (ls.target.size() && s.chance(1, 2)) b.discretise(ls, true); s.label("reused boundary object"); }
    b.discretise(ls, bs.target);
    requireSame(before, Snapshot(ls), K_ALL, "discretising");
    REQUIRE(b.nPoints == b.points.size() && b.nSegments == b.segments.size(), "counts %u, %u differ from the %zu points and %zu segments stored", b.nPoints, b.nSegments, b.points.size(), b.segments.size());
    std::vector<std::vector<unsigned>> by(g.w * g.h);
    for (unsigned k = 0; k < b.segments.size(); k++) {
        const BoundarySegment& q = b.segments[k];
        REQUIRE(q.start < b.points.size() && q.end < b.points.size() && q.element < (unsigned) (g.w * g.h), "segment %u refers to points %u, %u and cell %u", k, q.start, q.end, q.element);
        by[q.element].push_back(k);
    }
    int patterns = 0; bool seen[8] = {0};
    for (int e = 0; e < g.w * g.h; e++) {
        const ref::Cell& c = ref[e];
        bool ok = equal(c.segs, b, by[e]) || (c.tie && equal(c.alt, b, by[e]));
        REQUIRE(ok, "cell %d (corner values %.6g %.6g %.6g %.6g): segments%s, expected%s", e, bs.field()[ref::corner(g, e, 0)], bs.field()[ref::corner(g, e, 1)],
                bs.field()[ref::corner(g, e, 2)], bs.field()[ref::corner(g, e, 3)], show(b, by[e]).c_str(), show(c.segs).c_str());
        int kind = c.saddle ? (c.tie ? 6 : 1) : c.inside ? (c.segs.empty() ? 7 : 2) : c.segs.size() == 1 ? 3 : c.segs.size() > 1 ? 4 : 7;
        if (kind != 7 && !seen[kind]) { seen[kind] = true; patterns++; }
    }
    if (seen[1]) s.label("ambiguous cell");
    if (seen[6]) s.label("ambiguous cell with zero mean");
    if (seen[2] || seen[4]) s.label("boundary along a mesh edge");
    // the library's record of segments per cell agrees
    for (int e = 0; e < g.w * g.h; e++) {
        const auto& el = ls.mesh.elements[e];
        REQUIRE(el.nBoundarySegments == by[e].size(), "cell %d lists %u segments, %zu name it", e, el.nBoundarySegments, by[e].size());
        std::vector<unsigned> v(el.boundarySegments.begin(), el.boundarySegments.begin() + el.nBoundarySegments); std::sort(v.begin(), v.end());
        REQUIRE(v == by[e], "cell %d lists other segments than those that name it", e);
    }
    // points: exactly the end points, once each
    std::vector<char> used(b.points.size(), 0);
    for (auto& q : b.segments) used[q.start] = used[q.end] = 1;
    for (size_t i = 0; i < b.points.size(); i++) REQUIRE(used[i], "point %zu at (%.9g,%.9g) belongs to no segment", i, b.points[i].coord.x, b.points[i].coord.y);
    std::vector<size_t> order(b.points.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
    std::sort(order.begin(), order.end(), [&](size_t a, size_t c) { const Coord &p = b.points[a].coord, &q = b.points[c].coord; return p.x != q.x ? p.x < q.x : p.y < q.y; });
    for (size_t i = 0; i < order.size(); i++)
        for (size_t j = i + 1; j < order.size() && b.points[order[j]].coord.x - b.points[order[i]].coord.x < 1e-7; j++)
            REQUIRE(std::fabs(b.points[order[j]].coord.y - b.points[order[i]].coord.y) >= 1e-7, "two boundary points at (%.9g,%.9g)", b.points[order[i]].coord.x, b.points[order[i]].coord.y);
    // repeatable, and independent of what was discretised before
    Boundary f; f.discretise(copy, bs.target);
    REQUIRE(identical(b, f), "a fresh discretisation of the same field differs");
    if (ls.target.size() == (size_t) g.n()) { Boundary t; t.discretise(ls, !bs.target); }
    Boundary again; again.discretise(ls, bs.target);
    REQUIRE(identical(b, again), "discretising again gives a different boundary");
    s.nontrivial(b.segments.size() >= 6 && patterns >= 2);
}
