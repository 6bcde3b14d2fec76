#include "gen.h"
const char* PROP_ID = "C06";
const char* PROP_RULE = "default structure: always; symmetry or shift: a transformation other than the identity, at least six boundary points matched and ten nodes compared; complement: at least four cut cells compared";
const unsigned long QUICK_CASES = 12000, THOROUGH_CASES = 200000;

// A symmetry of the square mesh followed by a shift by whole cells.
struct Map {
    ref::Grid a, b; int k, sx, sy;
    Map(ref::Grid a_, ref::Grid b_, int k_, int sx_, int sy_) : a(a_), b(b_), k(k_), sx(sx_), sy(sy_) {}
    ref::P pt(double x, double y) const {
        if (k & 1) x = a.w - x;
        if (k & 2) y = a.h - y;
        if (k & 4) std::swap(x, y);
        return {x + sx, y + sy};
    }
    ref::P vec(double x, double y) const {
        if (k & 1) x = -x;
        if (k & 2) y = -y;
        if (k & 4) std::swap(x, y);
        return {x, y};
    }
    int node(int i) const { ref::P p = pt(a.X(i), a.Y(i)); int x = (int) p.x, y = (int) p.y; return b.in(x, y) ? b.id(x, y) : -1; }
    int element(int e) const {
        ref::P p = pt(e % a.w + 0.5, e / a.w + 0.5); int x = (int) std::floor(p.x), y = (int) std::floor(p.y);
        return x >= 0 && y >= 0 && x < b.w && y < b.h ? y * b.w + x : -1;
    }
    Vec field(const Vec& f) const { Vec r(f.size(), 0); for (int i = 0; i < a.n(); i++) r[node(i)] = f[i]; return r; }
};

static double dy(Src& s, double lo, double hi, bool ints)      // multiples of 1/1024: reflections and shifts are exact
{
    long q = ints ? 1024 : 1024; double v = s.real(lo, hi);
    return ints ? std::floor(v) : std::floor(v * q) / q;
}

// The rest of one step on both sides, compared through the map for the nodes and points selected.
struct Pair {
    Src& s; Map m; LevelSet &A, &B; std::vector<char> near;   // nodes of A to compare
    bool whole; int matched = 0, compared = 0;

    void discard(const char* why) { s.label(why); throw Discard(); }

    // both level sets were reinitialised from exactly matching fields f (for A)
    void distance(const Vec& f, const char* what)
    {
        ref::StableMarch r = ref::stableMarch(m.a, f); bool touchy = false;
        for (int i = 0; i < m.a.n(); i++) {
            if (!near[i]) continue;
            double a = A.signedDistance[i], b = B.signedDistance[m.node(i)];
            if (r.stable[i]) compared++;
            if (std::fabs(a - b) <= 1e-7) continue;
            if (r.stable[i] && r.confirm(i)) fail("%s: signed distance at (%d,%d) is %.10g, at its image %.10g", what, m.a.X(i), m.a.Y(i), a, b);
            touchy = true;
        }
        if (touchy) discard("signed distance sensitive to rounding");
    }

    void band()
    {
        // from here on the two fields agree to rounding; make them agree exactly
        double bw = 0; bool ok = true; (void) bw;
        for (int i = 0; i < m.a.n(); i++) if (near[i]) {
            int j = m.node(i); const auto &p = A.mesh.nodes[i], &q = B.mesh.nodes[j];
            double v = std::fabs(A.signedDistance[i]); bool tie = std::fabs(v - std::round(v)) < 1e-6;
            if (p.isMasked != q.isMasked) fail("node (%d,%d) is %smasked but its image is not alike", m.a.X(i), m.a.Y(i), p.isMasked ? "" : "not ");
            if (whole && p.isDomain != q.isDomain) fail("node (%d,%d) is %son the domain edge but its image is not alike", m.a.X(i), m.a.Y(i), p.isDomain ? "" : "not ");
            if (p.isActive != q.isActive || p.isMine != q.isMine) {
                if (tie) { ok = false; continue; }
                fail("node (%d,%d) with distance %.9g: active %d, mine %d; its image: active %d, mine %d", m.a.X(i), m.a.Y(i), A.signedDistance[i], p.isActive, p.isMine, q.isActive, q.isMine);
            }
            B.signedDistance[j] = A.signedDistance[i];
        }
        if (!ok) discard("node on a band threshold");
        if (whole) REQUIRE(A.nNarrowBand == B.nNarrowBand && A.nMines == B.nMines, "%u band nodes and %u mines, mirrored %u and %u", A.nNarrowBand, A.nMines, B.nNarrowBand, B.nMines);
    }

    std::vector<int> image;    // of every point of A
    Boundary b, c; bool ties = false;

    bool nearPoint(double x, double y) const
    {
        for (int dx = 0; dx < 2; dx++) for (int dy = 0; dy < 2; dy++) {
            int X = (int) std::floor(x) + dx, Y = (int) std::floor(y) + dy;
            if (m.a.in(X, Y) && !near[m.a.id(X, Y)]) return false;
        }
        return true;
    }

    void boundary()
    {
        for (double v : A.signedDistance) if (v != 0 && std::fabs(std::fabs(v) - 1e-6) < 1e-8) discard("within rounding of a threshold");
        for (int e = 0; e < m.a.w * m.a.h; e++) {
            ref::Cell q = ref::cell(m.a, A.signedDistance, e, [&](int i, int j) { return may(A, false, i, j); });
            if (q.delicate || q.tie) discard("within rounding of a threshold");
        }
        b.discretise(A); c.discretise(B); A.computeAreaFractions(b); B.computeAreaFractions(c);
        if (whole) {
            REQUIRE(b.points.size() == c.points.size() && b.segments.size() == c.segments.size(), "%zu points and %zu segments, mirrored %zu and %zu", b.points.size(), b.segments.size(), c.points.size(), c.segments.size());
            REQUIRE(close(b.length, c.length), "boundary length %.12g, mirrored %.12g", b.length, c.length);
            REQUIRE(close(A.area, B.area), "total area %.12g, mirrored %.12g", A.area, B.area);
        }
        image.assign(b.points.size(), -1);
        for (size_t i = 0; i < b.points.size(); i++) {
            const BoundaryPoint& p = b.points[i];
            if (!nearPoint(p.coord.x, p.coord.y)) continue;
            ref::P t = m.pt(p.coord.x, p.coord.y);
            for (size_t j = 0; j < c.points.size() && image[i] < 0; j++) if (at(c.points[j].coord, t, 1e-9)) image[i] = (int) j;
            REQUIRE(image[i] >= 0, "boundary point (%.9g,%.9g) has no counterpart at (%.9g,%.9g)", p.coord.x, p.coord.y, t.x, t.y);
            double fx = p.coord.x - std::floor(p.coord.x), fy = p.coord.y - std::floor(p.coord.y);
            bool tie = std::fabs(fx - 0.5) < 2e-6 || std::fabs(fy - 0.5) < 2e-6; if (tie) ties = true;
            const BoundaryPoint& q = c.points[image[i]];
            REQUIRE(p.nSegments == q.nSegments && p.nNeighbours == q.nNeighbours, "point (%.6g,%.6g): %u segments, %u neighbours, its image %u and %u", p.coord.x, p.coord.y, p.nSegments, p.nNeighbours, q.nSegments, q.nNeighbours);
            REQUIRE(close(p.length, q.length), "point (%.6g,%.6g): length %.10g, its image %.10g", p.coord.x, p.coord.y, p.length, q.length);
            REQUIRE(close(b.computePerimeter(p), c.computePerimeter(q)), "point (%.6g,%.6g): perimeter %.10g, its image %.10g", p.coord.x, p.coord.y, b.computePerimeter(p), c.computePerimeter(q));
            if (whole) {
                REQUIRE(p.isDomain == q.isDomain, "point (%.6g,%.6g): domain flag %d, its image %d", p.coord.x, p.coord.y, p.isDomain, q.isDomain);
                if (!tie) REQUIRE(p.isFixed == q.isFixed, "point (%.6g,%.6g): fixed flag %d, its image %d", p.coord.x, p.coord.y, p.isFixed, q.isFixed);
            }
            if (!tie) REQUIRE(std::fabs(p.negativeLimit - q.negativeLimit) < 1e-9 && std::fabs(p.positiveLimit - q.positiveLimit) < 1e-9, "point (%.6g,%.6g): limits [%.9g,%.9g], its image [%.9g,%.9g]", p.coord.x, p.coord.y, p.negativeLimit, p.positiveLimit, q.negativeLimit, q.positiveLimit);
            matched++;
        }
        // segments
        std::set<std::pair<std::pair<int, int>, int>> have;
        for (auto& g : c.segments) have.insert({{std::min((int) g.start, (int) g.end), std::max((int) g.start, (int) g.end)}, (int) g.element});
        for (auto& g : b.segments) {
            int i = image[g.start], j = image[g.end]; if (i < 0 || j < 0) continue;
            const Coord &p = b.points[g.start].coord, &q = b.points[g.end].coord;
            int e = m.element((int) g.element);
            bool onEdge = (p.x == q.x && p.x == std::floor(p.x)) || (p.y == q.y && p.y == std::floor(p.y));  // shared by two cells: either may own it
            bool found = have.count({{std::min(i, j), std::max(i, j)}, e}) > 0;
            if (!found && onEdge) for (auto& h : have) if (h.first == std::make_pair(std::min(i, j), std::max(i, j))) found = true;
            REQUIRE(found, "segment (%.6g,%.6g)-(%.6g,%.6g) of cell %u has no counterpart in cell %d", p.x, p.y, q.x, q.y, g.element, e);
        }
        // cells
        for (int e = 0; e < m.a.w * m.a.h; e++) {
            bool in = true; for (int k = 0; k < 4; k++) if (!near[ref::corner(m.a, e, k)]) in = false;
            if (!in) continue;
            double a = A.mesh.elements[e].area, d = B.mesh.elements[m.element(e)].area;
            REQUIRE(std::fabs(a - d) < 1e-9, "cell (%d,%d): area fraction %.12g, its image %.12g", e % m.a.w, e / m.a.w, a, d);
        }
    }

    // whether the normal of a point is well defined (not at a cancellation or a threshold)
    bool definite(const Coord& p) const
    {
        const ref::Grid& g = m.a; const Vec& f = A.signedDistance;
        int x = (int) std::floor(p.x + 1e-9), y = (int) std::floor(p.y + 1e-9); bool fx = p.x - x > 1e-8, fy = p.y - y > 1e-8;
        std::vector<int> nodes; nodes.push_back(g.id(x, y)); if (fx) nodes.push_back(g.id(x + 1, y)); else if (fy) nodes.push_back(g.id(x, y + 1));
        double sx = 0, sy = 0, tot = 0;
        for (int k : nodes) {
            if (!A.mesh.nodes[k].isActive) continue;
            int X = g.X(k), Y = g.Y(k), a = std::max(0, X - 1), b = std::min(g.w, X + 1), c = std::max(0, Y - 1), d = std::min(g.h, Y + 1);
            double gx = (f[g.id(b, Y)] - f[g.id(a, Y)]) / (b - a), gy = (f[g.id(X, d)] - f[g.id(X, c)]) / (d - c), n = std::hypot(gx, gy);
            double qx = X - p.x, qy = Y - p.y, r2 = qx * qx + qy * qy;
            if (n < 1e-5 || std::fabs(r2 - 1e-6) < 1e-9) return false;
            r2 = std::max(r2, 1e-6); sx += gx / n / r2; sy += gy / n / r2; tot += 1 / r2;
        }
        return tot > 0 && std::hypot(sx, sy) > 1e-4 * tot;
    }

    void normals()
    {
        b.computeNormalVectors(A); c.computeNormalVectors(B);
        for (size_t i = 0; i < b.points.size(); i++) if (image[i] >= 0 && definite(b.points[i].coord)) {
            const BoundaryPoint &p = b.points[i], &q = c.points[image[i]]; ref::P t = m.vec(p.normal.x, p.normal.y);
            REQUIRE(std::hypot(t.x - q.normal.x, t.y - q.normal.y) < 1e-6, "point (%.9g,%.9g): normal (%.9g,%.9g), that of its image (%.9g,%.9g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y, q.normal.x, q.normal.y);
        }
    }

    void velocities()
    {
        const ref::Grid& g = m.a;
        if (b.points.empty()) return;
        genVelocities(s, b); double scale = 1e-3;
        for (auto& q : c.points) q.velocity = whole ? 0 : s.uniform(-1, 1);
        for (size_t i = 0; i < b.points.size(); i++) { scale = std::max(scale, std::fabs(b.points[i].velocity)); if (image[i] >= 0) c.points[image[i]].velocity = b.points[i].velocity; }
        A.computeVelocities(b.points); B.computeVelocities(c.points);
        if (!ties) {
            // reference only to know which nodes are insensitive to rounding
            Vec v(g.n(), 0), w(g.n(), 0); std::vector<char> active(g.n()), odd(g.n(), 0); bool anyOdd = false; std::vector<char> hit(g.n(), 0); Vec ex(g.n(), 0);
            for (int i = 0; i < g.n(); i++) active[i] = A.mesh.nodes[i].isActive;
            for (auto& p : b.points) {
                int n = (int) A.mesh.getClosestNode(p.coord);
                for (int d = -1; d < 4; d++) {
                    int k = d < 0 ? n : g.nb(n, d); if (k < 0) continue;
                    double dx = p.coord.x - g.X(k), dy = p.coord.y - g.Y(k), q = dx * dx + dy * dy;
                    if (std::fabs(q - 1) < 1e-9 && (q != 1 || (dx != 0 && dy != 0))) odd[k] = 1;
                    if (std::fabs(q - 1e-6) < 1e-9) odd[k] = 1;
                    if (d >= 0 && q > 1) continue;
                    if (q < 1e-6) { if (hit[k] && ex[k] != p.velocity) odd[k] = 1; hit[k] = 1; ex[k] = p.velocity; }
                    else { v[k] += p.velocity / q; w[k] += 1 / q; }
                }
            }
            for (int i = 0; i < g.n(); i++) { if (hit[i]) v[i] = ex[i]; else if (w[i] > 0) v[i] /= w[i]; if (odd[i]) anyOdd = true; }
            if (!anyOdd) {
                describe(s, g, A.signedDistance, "distance"); describe(s, g, v, "start"); describe(s, g, A.velocity, "velocity"); 
                ref::StableMarch r = ref::stableMarch(g, A.signedDistance, &v, &active, 1e-9, scale);
                for (unsigned q = 0; q < A.nNarrowBand; q++) {
                    int i = (int) A.narrowBand[q]; if (!near[i]) continue;
                    double x = A.velocity[i], y = B.velocity[m.node(i)];
                    if (r.stable[i]) compared++;
                    if (std::fabs(x - y) > 1e-7 * scale && r.stable[i] && r.confirm(i))
                        fail("node (%d,%d): extended velocity %.10g, that of its image %.10g", g.X(i), g.Y(i), x, y);
                }
                s.label("velocities compared");
            }
        }
        for (int i = 0; i < g.n(); i++) if (near[i]) B.velocity[m.node(i)] = A.velocity[i];
    }

    void gradients()
    {
        const ref::Grid& g = m.a;
        A.computeGradients(); B.computeGradients();
        for (int i = 0; i < g.n(); i++) if (near[i]) {
            bool delicate; ref::gradient(g, A.signedDistance, i, A.velocity[i], delicate);
            double x = A.gradient[i], y = B.gradient[m.node(i)];
            if (!delicate) REQUIRE(std::fabs(x - y) < 1e-8, "node (%d,%d): gradient %.12g, that of its image %.12g", g.X(i), g.Y(i), x, y);
            B.gradient[m.node(i)] = x;
        }
    }

    void update()
    {
        const ref::Grid& g = m.a;
        double v = 1e-9; for (double q : A.velocity) v = std::max(v, std::fabs(q));
        double dt = s.real(0.1, 0.9) / v; int due; Vec f = advected(g, A, dt, due);
        if (due < 0 || !hasInterface(g, f)) return;
        for (double q : f) if (q != 0 && std::fabs(q) < 1e-9) return;   // a sign at the mercy of rounding
        bool p = A.update(dt), q = B.update(dt);
        if (whole) REQUIRE(p == q, "the update did%s reinitialise, its image did%s", p ? "" : " not", q ? "" : " not");
        if (p && q) { distance(f, "after an update"); s.label("update reinitialised"); }
        else if (!p && !q) for (int i = 0; i < g.n(); i++) if (near[i])
            REQUIRE(std::fabs(A.signedDistance[i] - B.signedDistance[m.node(i)]) < 1e-9, "after an update: signed distance at (%d,%d) is %.10g, at its image %.10g", g.X(i), g.Y(i), A.signedDistance[i], B.signedDistance[m.node(i)]);
        s.label("update compared");
    }
};

static void symmetry(Src& s)
{
    Dims d = genDims(s, 4, 20); ref::Grid ga(d.w, d.h);
    static const int order[] = {1, 4, 2, 5, 3, 6, 7};
    int k = order[s.draw(7)];
    ref::Grid gb(k & 4 ? d.h : d.w, k & 4 ? d.w : d.h);
    Map m(ga, gb, k, 0, 0);
    unsigned kind = s.weighted({5, 3, 3, 2, 2}); bool fixed = s.chance(1, 5); unsigned bw = (unsigned) s.range(3, 8);
    double ml = s.chance(1, 2) ? 0.5 : 0.75; std::ostringstream os; LS a, b;
    auto img = [&](double x, double y) { ref::P p = m.pt(x, y); return Coord(p.x, p.y); };
    bool ints = s.chance(1, 3);
    if (kind == 0) {
        std::vector<Hole> p, q; int n = (int) s.range(1, 5);
        for (int i = 0; i < n; i++) {
            double x = dy(s, -1, d.w + 1, ints), y = dy(s, -1, d.h + 1, ints), r = std::max(0.25, dy(s, 0.5, std::max(1.5, 0.45 * std::min(d.w, d.h)), ints));
            p.push_back(Hole(x, y, r)); Coord t = img(x, y); q.push_back(Hole(t.x, t.y, r)); os << " (" << x << "," << y << ",r" << r << ")";
        }
        a.reset(new LevelSet(d.w, d.h, p, ml, bw, fixed)); b.reset(new LevelSet(gb.w, gb.h, q, ml, bw, fixed)); s.label("holes");
    }
    else if (kind == 1) {
        bool cw; std::vector<Coord> p = genPolygon(s, d.w, d.h, cw), q;
        for (auto& c : p) { c.x = ints ? std::round(c.x) : std::floor(c.x * 1024) / 1024; c.y = ints ? std::round(c.y) : std::floor(c.y * 1024) / 1024; q.push_back(img(c.x, c.y)); os << " (" << c.x << "," << c.y << ")"; }
        if (ints) for (size_t i = 0; i + 1 < p.size(); i++) if (p[i].x == p[i + 1].x && p[i].y == p[i + 1].y) throw Discard();
        a.reset(new LevelSet(d.w, d.h, p, ml, bw, fixed)); b.reset(new LevelSet(gb.w, gb.h, q, ml, bw, fixed)); s.label("polygon");
    }
    else {
        a.reset(new LevelSet(d.w, d.h, std::vector<Hole>(), ml, bw, fixed)); b.reset(new LevelSet(gb.w, gb.h, std::vector<Hole>(), ml, bw, fixed));
        Vec f = genField(s, d.w, d.h, kind == 2 ? S_SMOOTH : kind == 3 ? S_NOISE : S_PLANE, true, true);
        a->signedDistance = f; b->signedDistance = m.field(f); s.label("field");
    }
    s.desc("%dx%d,%s%s%s%s, %s band %u limit %g%s", d.w, d.h, k & 1 ? " x reflected" : "", k & 2 ? " y reflected" : "", k & 4 ? " transposed" : "", k & 4 ? "" : "", kind == 0 ? "holes" : kind == 1 ? "polygon" : "field", bw, ml, fixed ? " fixed" : "");
    s.desc("%s", os.str().c_str());
    for (int i = 0; i < ga.n(); i++) {
        double x = a->signedDistance[i], y = b->signedDistance[m.node(i)];
        REQUIRE(std::fabs(x - y) < 1e-9, "initial structure: signed distance at (%d,%d) is %.12g, at its image %.12g", ga.X(i), ga.Y(i), x, y);
    }
    Vec f = a->signedDistance; for (double& v : f) if (std::fabs(v) < 1e-9) v = 0;
    if (!hasInterface(ga, f)) throw Discard();
    if (s.chance(1, 3)) {
        // the masks are applied to exactly matching fields
        a->signedDistance = f; b->signedDistance = m.field(f);
        unsigned t = s.weighted({2, 2, 1}); Vec e = f; Mask p, q; std::ostringstream ms;
        if (t == 0) {
            double x = dy(s, 0, d.w, false), y = dy(s, 0, d.h, false), r = 0.5 + dy(s, 0.25, 4, false); Coord c = img(x, y);
            p.kind = q.kind = 0; p.holes.push_back(Hole(x, y, r)); q.holes.push_back(Hole(c.x, c.y, r)); ms << " circle " << x << "," << y << " r" << r;
        }
        else if (t == 1) {
            double x = dy(s, -1, d.w - 1, false), y = dy(s, -1, d.h - 1, false), x1 = x + dy(s, 0.5, 6, false), y1 = y + dy(s, 0.5, 6, false);
            Coord c = img(x, y), c1 = img(x1, y1); p.kind = q.kind = 1; p.points = {Coord(x, y), Coord(x1, y1)};
            q.points = {Coord(std::min(c.x, c1.x), std::min(c.y, c1.y)), Coord(std::max(c.x, c1.x), std::max(c.y, c1.y))}; ms << " rectangle " << x << "," << y << " - " << x1 << "," << y1;
        }
        else {
            bool cw; p.points = genPolygon(s, d.w, d.h, cw); p.kind = q.kind = 2; ms << " polygon";
            for (auto& c : p.points) { c.x = std::floor(c.x * 1024) / 1024; c.y = std::floor(c.y * 1024) / 1024; q.points.push_back(img(c.x, c.y)); ms << " (" << c.x << "," << c.y << ")"; }
        }
        bool pos = false, unsure = false;
        for (int i = 0; i < ga.n(); i++) { int c = p.covers(ga.X(i), ga.Y(i)); if (c < 0) unsure = true; if (c == 1) e[i] = -1e-6; else if (e[i] > 1e-6) pos = true; }
        if (unsure) { s.label("node on the edge of a mask"); throw Discard(); }
        if (pos && hasInterface(ga, e)) {
            p.apply(*a); q.apply(*b); s.label("masked"); s.desc("mask%s", ms.str().c_str()); f = a->signedDistance;
            for (int i = 0; i < ga.n(); i++) REQUIRE(a->mesh.nodes[i].isMasked == b->mesh.nodes[m.node(i)].isMasked, "node (%d,%d): masked %d, its image %d", ga.X(i), ga.Y(i), a->mesh.nodes[i].isMasked, b->mesh.nodes[m.node(i)].isMasked);
        }
    }
    a->signedDistance = f; b->signedDistance = m.field(f);
    Pair p{s, m, *a, *b, std::vector<char>(ga.n(), 1), true};
    a->reinitialise(); b->reinitialise();
    p.distance(f, "after reinitialisation");
    p.band(); p.boundary(); p.normals(); p.velocities(); p.gradients();
    s.nontrivial(p.matched >= 6 && p.compared >= 10);
    p.update();
}

static void complement(Src& s)
{
    GenOpt o; o.lo = 2; o.hi = 20; o.fixed = false; o.physical = false; o.reinit = false;
    State st = genState(s, o); LevelSet& A = *st.ls; ref::Grid g(st.d.w, st.d.h);
    Vec f = A.signedDistance; for (double& v : f) if (std::fabs(v) < 1e-9) v = 0;
    if (!hasInterface(g, f)) throw Discard();
    LevelSet B = A; A.signedDistance = f; for (double& v : f) v = -v; B.signedDistance = f; for (double& v : f) v = -v;
    s.label("complement"); s.desc("complement");
    A.reinitialise(); B.reinitialise();
    ref::StableMarch r = ref::stableMarch(g, f);
    for (int i = 0; i < g.n(); i++) if (std::fabs(A.signedDistance[i] + B.signedDistance[i]) > 1e-7 && r.stable[i] && r.confirm(i))
        fail("complement: signed distance at (%d,%d) is %.10g, of the exchanged structure %.10g", g.X(i), g.Y(i), A.signedDistance[i], B.signedDistance[i]);
    for (int i = 0; i < g.n(); i++) B.signedDistance[i] = -A.signedDistance[i];
    int cut = 0; Boundary b, c;
    std::vector<ref::Cell> rc;
    for (int e = 0; e < g.w * g.h; e++) {
        rc.push_back(ref::cell(g, A.signedDistance, e, [&](int p, int q) { return may(A, false, p, q) && may(B, false, p, q); }));
        if (rc.back().delicate || rc.back().tie || rc.back().unresolved) { s.label("within rounding of a threshold"); throw Discard(); }
    }
    b.discretise(A); c.discretise(B); A.computeAreaFractions(b); B.computeAreaFractions(c);
    for (int e = 0; e < g.w * g.h; e++) {
        // an edge lying on the interface counts as inside either way
        bool zero = false; for (int k = 0; k < 4; k++) if (ref::side(A.signedDistance[ref::corner(g, e, k)]) == ref::ON && ref::side(A.signedDistance[ref::corner(g, e, (k + 1) & 3)]) == ref::ON) zero = true;
        if (zero) continue;
        double x = A.mesh.elements[e].area, y = B.mesh.elements[e].area;
        if (!rc[e].inside && !rc[e].outside) cut++;
        REQUIRE(std::fabs(x + y - 1) < 1e-9, "cell (%d,%d): area fraction %.12g, with inside and outside exchanged %.12g", e % g.w, e / g.w, x, y);
    }
    // crossings inside a mesh edge are the same whichever side is called inside (edges along zero nodes belong to the inside cells)
    auto crossings = [&](const Boundary& p, const Boundary& q) {
        for (auto& u : p.points) {
            if (std::fabs(u.coord.x - std::round(u.coord.x)) < 1e-6 && std::fabs(u.coord.y - std::round(u.coord.y)) < 1e-6) continue;
            bool found = false; for (auto& v : q.points) if (at(v.coord, {u.coord.x, u.coord.y})) found = true;
            REQUIRE(found, "point (%.9g,%.9g) disappears when inside and outside are exchanged", u.coord.x, u.coord.y);
        }
    };
    crossings(b, c); crossings(c, b);
    s.nontrivial(cut >= 4);
}

static void shift(Src& s)
{
    const int M = 12;
    int tx = (int) s.range(0, 8), ty = (int) s.range(0, 8), R = (int) s.range(2, 5), slack = (int) s.range(0, 3);
    if (!tx && !ty) tx = 1;
    bool bigger = s.chance(1, 3); int bx = bigger ? (int) s.range(0, 5) : 0, by = bigger ? (int) s.range(0, 5) : 0;
    // the structure occupies [M, M+2R+slack]^2 in A, moved by (tx,ty) in B
    int need = 2 * M + 2 * R + slack; ref::Grid ga(need + tx, need + ty), gb(need + tx + bx, need + ty + by);
    Map m(ga, gb, 0, tx, ty);
    std::vector<Hole> p, q; int n = (int) s.range(1, 4); std::ostringstream os; bool ints = s.chance(1, 3);
    for (int i = 0; i < n; i++) {
        double r = std::min((double) R, std::max(0.75, dy(s, 0.75, R, ints))), x = dy(s, M + r, M + 2 * R + slack - r, ints), y = dy(s, M + r, M + 2 * R + slack - r, ints);
        p.push_back(Hole(x, y, r)); q.push_back(Hole(x + tx, y + ty, r)); os << " (" << x << "," << y << ",r" << r << ")";
    }
    unsigned bw = (unsigned) s.range(3, 6); bool fixed = s.chance(1, 4);
    LevelSet a(ga.w, ga.h, p, 0.5, bw, fixed), b(gb.w, gb.h, q, 0.5, bw, fixed);
    s.label("shift"); s.desc("%dx%d holes%s shifted by (%d,%d) in %dx%d, band %u", ga.w, ga.h, os.str().c_str(), tx, ty, gb.w, gb.h, bw);
    Pair t{s, m, a, b, std::vector<char>(ga.n(), 0), false};
    auto hole = [&](int i) { double d = 1e9; for (auto& h : p) d = std::min(d, std::hypot(ga.X(i) - h.coord.x, ga.Y(i) - h.coord.y) - h.r); return d; };
    for (int i = 0; i < ga.n(); i++) if (hole(i) <= 3) {
        t.near[i] = 1;
        REQUIRE(std::fabs(a.signedDistance[i] - b.signedDistance[m.node(i)]) < 1e-9, "shifted structure: signed distance at (%d,%d) is %.12g, after the shift %.12g", ga.X(i), ga.Y(i), a.signedDistance[i], b.signedDistance[m.node(i)]);
    }
    // exactly matching starting fields near the structure
    Vec f = a.signedDistance, h = b.signedDistance; for (double& v : f) if (std::fabs(v) < 1e-9) v = 0;
    for (double& v : h) if (std::fabs(v) < 1e-9) v = 0;
    for (int i = 0; i < ga.n(); i++) if (hole(i) <= 5) h[m.node(i)] = f[i];
    bool inside = false; for (int i = 0; i < ga.n(); i++) if (hole(i) <= 3 && f[i] <= 0) inside = true;
    if (!inside) throw Discard();
    a.signedDistance = f; b.signedDistance = h; a.reinitialise(); b.reinitialise();
    t.distance(f, "after reinitialisation and a shift");
    t.band();
    // the stencils of the compared nodes reach further out
    for (int i = 0; i < ga.n(); i++) if (hole(i) <= 7) {
        double x = a.signedDistance[i], y = b.signedDistance[m.node(i)];
        if (std::fabs(x - y) > 1e-7) { if (hole(i) <= 5) { s.label("signed distance sensitive to rounding"); throw Discard(); } continue; }
        b.signedDistance[m.node(i)] = x;
    }
    t.boundary(); t.normals(); t.velocities();
    for (int i = 0; i < ga.n(); i++) if (t.near[i] && hole(i) > 2) t.near[i] = 0;
    t.gradients();
    s.nontrivial(t.matched >= 6 && t.compared >= 10);
}

// the default structure has the symmetries of its rectangle, and follows when the axes are exchanged
static void standard(Src& s)
{
    int w = (int) s.range(75, s.chance(1, 3) ? 200 : 100), h = (int) s.range(75, 100); ref::Grid ga(w, h), gb(h, w); Map t(ga, gb, 4, 0, 0);
    LevelSet A(w, h, 0.5, 6, false), B(h, w, 0.5, 6, false);
    for (int i = 0; i < ga.n(); i++) {
        double v = A.signedDistance[i], o[3] = {A.signedDistance[ga.id(w - ga.X(i), ga.Y(i))], A.signedDistance[ga.id(ga.X(i), h - ga.Y(i))], B.signedDistance[t.node(i)]};
        static const char* what[] = {"mirrored left to right", "mirrored upside down", "with the axes exchanged"};
        for (int k = 0; k < 3; k++) if (std::fabs(v - o[k]) > 1e-9) fail("default structure on %dx%d: signed distance at (%d,%d) is %.10g, %s %.10g", w, h, ga.X(i), ga.Y(i), v, what[k], o[k]);
    }
    s.label("default structure"); s.nontrivial(true);
}

void property(Src& s)
{
    if (s.chance(1, 150)) { standard(s); return; }
    unsigned mode = s.weighted({6, 2, 1});
    if (mode == 0) symmetry(s); else if (mode == 1) complement(s); else shift(s);
}
