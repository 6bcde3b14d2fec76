#include "gen.h"
#include <set>
const char* PROP_ID = "C01";
const char* PROP_RULE = "mesh with at least two cells and width != height";
const unsigned long QUICK_CASES = 6000, THOROUGH_CASES = 60000;

static void checkMesh(Src& s, const Mesh& m, int w, int h)
{
    ref::Grid g(w, h);
    REQUIRE(m.width == (unsigned) w && m.height == (unsigned) h, "mesh reports %ux%u for %dx%d", m.width, m.height, w, h);
    REQUIRE(m.nNodes == (unsigned) g.n() && m.nodes.size() == m.nNodes, "%dx%d: %u nodes (vector %zu)", w, h, m.nNodes, m.nodes.size());
    REQUIRE(m.nElements == (unsigned) (w * h) && m.elements.size() == m.nElements, "%dx%d: %u elements (vector %zu)", w, h, m.nElements, m.elements.size());
    REQUIRE(m.xyToIndex.size() == (size_t) w + 1, "%dx%d: index map has %zu columns", w, h, m.xyToIndex.size());
    for (int x = 0; x <= w; x++) {
        REQUIRE(m.xyToIndex[x].size() == (size_t) h + 1, "%dx%d: index map column %d has %zu rows", w, h, x, m.xyToIndex[x].size());
        for (int y = 0; y <= h; y++) REQUIRE(m.xyToIndex[x][y] == (unsigned) g.id(x, y), "%dx%d: index map (%d,%d) = %u", w, h, x, y, m.xyToIndex[x][y]);
    }
    for (int i = 0; i < g.n(); i++) {
        const slsm::Node& n = m.nodes[i];
        REQUIRE(n.coord.x == g.X(i) && n.coord.y == g.Y(i), "%dx%d: node %d at (%g,%g)", w, h, i, n.coord.x, n.coord.y);
        REQUIRE(n.isDomain == g.edge(i), "%dx%d: node %d (%d,%d) domain flag %d", w, h, i, g.X(i), g.Y(i), (int) n.isDomain);
        REQUIRE(!n.isMasked && !n.isActive && !n.isMine, "%dx%d: node %d has a status flag set on a fresh mesh", w, h, i);
        REQUIRE(n.nBoundaryPoints == 0, "%dx%d: node %d starts with boundary points", w, h, i);
        REQUIRE(n.neighbours.size() >= 4, "node %d: neighbour list too short", i);
        for (int d = 0; d < 4; d++) {
            int k = g.nb(i, d); unsigned e = k < 0 ? m.nNodes : (unsigned) k;
            REQUIRE(n.neighbours[d] == e, "%dx%d: node (%d,%d) neighbour %d is %u, expected %u", w, h, g.X(i), g.Y(i), d, n.neighbours[d], e);
            if (k >= 0) REQUIRE(m.nodes[k].neighbours[d ^ 1] == (unsigned) i, "%dx%d: neighbour relation of %d and %d not mutual", w, h, i, k);
        }
        // touching elements
        std::multiset<unsigned> want, got;
        for (int dx = -1; dx <= 0; dx++) for (int dy = -1; dy <= 0; dy++) {
            int ex = g.X(i) + dx, ey = g.Y(i) + dy;
            if (ex >= 0 && ey >= 0 && ex < w && ey < h) want.insert(ey * w + ex);
        }
        REQUIRE(n.nElements == want.size(), "%dx%d: node (%d,%d) touches %u elements, expected %zu", w, h, g.X(i), g.Y(i), n.nElements, want.size());
        REQUIRE(n.elements.size() >= n.nElements, "node %d: element list too short", i);
        for (unsigned k = 0; k < n.nElements; k++) got.insert(n.elements[k]);
        REQUIRE(want == got, "%dx%d: node (%d,%d) element list wrong", w, h, g.X(i), g.Y(i));
    }
    for (int e = 0; e < w * h; e++) {
        const slsm::Element& el = m.elements[e];
        REQUIRE(close(el.coord.x, e % w + 0.5) && close(el.coord.y, e / w + 0.5), "%dx%d: element %d centred at (%g,%g)", w, h, e, el.coord.x, el.coord.y);
        REQUIRE(el.nodes.size() == 4, "element %d has %zu corners", e, el.nodes.size());
        for (int k = 0; k < 4; k++)
            REQUIRE(el.nodes[k] == (unsigned) ref::corner(g, e, k), "%dx%d: element %d corner %d is node %u, expected %d", w, h, e, k, el.nodes[k], ref::corner(g, e, k));
    }
    (void) s;
}

void property(Src& s)
{
    int w, h;
    unsigned k = s.weighted({240, 120, 40, 2});
    if (k == 0) { w = (int) s.range(1, 20); h = (int) s.range(1, 20); }
    else if (k == 1) { w = (int) s.range(1, 3); h = (int) s.range(1, 200); if (s.chance(1, 2)) std::swap(w, h); s.label("elongated"); }
    else if (k == 3) {
        // more nodes than fit in 16 bits
        if (s.chance(1, 3)) { w = (int) s.range(1, 3); h = (int) s.range(33000, 70000); if (s.chance(1, 2)) std::swap(w, h); }
        else { w = (int) s.range(255, 400); h = (int) s.range(255, 400); }
        s.label("more than 65536 nodes");
    }
    else { w = (int) s.range(1, 120); h = (int) s.range(1, 120); s.label("large"); }
    if (w == 1 || h == 1) s.label("single row or column");
    if (w == h) s.label("square");
    s.desc("mesh %dx%d", w, h);
    s.nontrivial(w != h && w * h > 1);
    if (s.chance(1, 3)) {
        // the mesh inside a level set, and a copy of a mesh, are the same grid
        if (w >= 2 && h >= 2) {
            LevelSet ls(w, h, std::vector<Hole>());
            Mesh c(ls.mesh);
            for (auto& n : c.nodes) { n.isActive = n.isMine = false; }
            s.label("mesh of a level set");
            checkMesh(s, c, w, h);
            return;
        }
    }
    Mesh m(w, h);
    checkMesh(s, m, w, h);
    Mesh c(m);
    checkMesh(s, c, w, h);
}
