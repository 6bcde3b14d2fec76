#include "gen.h"
const char* PROP_ID = "C19";
const char* PROP_RULE = "a correction with non-zero temperature and curvature over at least six boundary points, or a finite difference of a non-constant function along a non-zero normal";
const unsigned long QUICK_CASES = 72000, THOROUGH_CASES = 300000;

static bool equalPoint(const BoundaryPoint& p, const BoundaryPoint& q, bool sens, bool normal, bool coord = true)
{
    if (coord && (hashd(p.coord.x) != hashd(q.coord.x) || hashd(p.coord.y) != hashd(q.coord.y))) return false;
    if (normal && (hashd(p.normal.x) != hashd(q.normal.x) || hashd(p.normal.y) != hashd(q.normal.y))) return false;
    if (p.length != q.length || p.velocity != q.velocity || p.negativeLimit != q.negativeLimit || p.positiveLimit != q.positiveLimit || p.isDomain != q.isDomain || p.isFixed != q.isFixed) return false;
    if (p.nSegments != q.nSegments || p.nNeighbours != q.nNeighbours) return false;
    for (unsigned k = 0; k < p.nSegments; k++) if (p.segments[k] != q.segments[k]) return false;
    for (unsigned k = 0; k < p.nNeighbours; k++) if (p.neighbours[k] != q.neighbours[k]) return false;
    if (p.sensitivities.size() != q.sensitivities.size()) return false;
    for (size_t k = sens ? 0 : 1; k < p.sensitivities.size(); k++) if (hashd(p.sensitivities[k]) != hashd(q.sensitivities[k])) return false;
    return true;
}

static double perimeter(const Boundary& b, size_t i, double x, double y)
{
    double l = 0; for (unsigned k = 0; k < b.points[i].nNeighbours; k++) { const Coord& c = b.points[b.points[i].neighbours[k]].coord; l += std::hypot(x - c.x, y - c.y); }
    return l;
}

static double genDelta(Src& s)
{
    static const double v[] = {1e-4, 1e-3, 1e-2, 1e-5, 0.1};
    return v[s.weighted({4, 2, 2, 1, 1})];
}

// The sensitivity of a user function.
static void finiteDifference(Src& s)
{
    double delta = genDelta(s); slsm::Sensitivity dflt, given(delta); bool useDefault = s.chance(1, 4); if (useDefault) delta = 1e-4;
    BoundaryPoint p; p.coord = Coord(s.real(0, 50), s.real(0, 50));
    double t = s.uniform(0, 2 * M_PI); unsigned kn = s.weighted({5, 1, 1});
    p.normal = kn == 0 ? Coord(cos(t), sin(t)) : kn == 1 ? Coord(s.chance(1, 2) ? 1 : 0, 0) : Coord(0, s.chance(1, 2) ? 1 : -1);
    if (p.normal.x == 0 && p.normal.y == 0) s.label("zero normal");
    p.length = s.real(0.01, 1.5); p.velocity = s.uniform(-1, 1); p.negativeLimit = -s.uniform(0, 1); p.positiveLimit = s.uniform(0, 1);
    p.isDomain = s.chance(1, 4); p.isFixed = s.chance(1, 4); p.nSegments = p.nNeighbours = 0;
    for (double& v : p.sensitivities) v = s.uniform(-2, 2);
    double a[6]; for (double& v : a) v = s.real(-3, 3);
    double c3 = s.chance(1, 2) ? s.uniform(-0.1, 0.1) : 0; unsigned kf = s.weighted({3, 1});
    auto f = [&](double x, double y) { double u = x - 20, v = y - 15; return kf ? sin(0.7 * u) * a[1] + cos(0.3 * v + a[2]) : a[0] + a[1] * u + a[2] * v + a[3] * u * u + a[4] * u * v + a[5] * v * v + c3 * u * u * v; };
    BoundaryPoint q = p; int calls = 0; std::string bad; std::vector<Coord> at;
    slsm::SensitivityCallback cb = [&](const BoundaryPoint& r) { calls++; if (!equalPoint(r, q, true, true, false)) bad = "the callback was shown a point whose properties other than its coordinate differ"; at.push_back(r.coord); return f(r.coord.x, r.coord.y); };
    double got = (useDefault ? dflt : given).computeSensitivity(p, cb);
    s.desc("point (%.6g,%.6g) normal (%.4g,%.4g) length %.4g delta %g%s", q.coord.x, q.coord.y, q.normal.x, q.normal.y, q.length, delta, kf ? " trigonometric" : c3 ? " cubic" : " quadratic");
    REQUIRE(bad.empty(), "%s", bad.c_str());
    REQUIRE(equalPoint(p, q, true, true), "computing a sensitivity changed the boundary point (coordinate (%.17g,%.17g), was (%.17g,%.17g))", p.coord.x, p.coord.y, q.coord.x, q.coord.y);
    double f1 = f(q.coord.x + delta * q.normal.x, q.coord.y + delta * q.normal.y), f2 = f(q.coord.x - delta * q.normal.x, q.coord.y - delta * q.normal.y);
    double mag = std::fabs(f1) + std::fabs(f2) + 100 * (std::fabs(a[1]) + std::fabs(a[2])) + 1e4 * (std::fabs(a[3]) + std::fabs(a[4]) + std::fabs(a[5]) + 100 * std::fabs(c3));
    double tol = 1e-14 * mag / delta / q.length + 1e-12;
    double want = (f1 - f2) / (2 * delta) / q.length;
    REQUIRE(std::fabs(got - want) <= tol, "sensitivity %.12g, the central difference is %.12g", got, want);
    if (!kf && c3 == 0) {
        double u = q.coord.x - 20, v = q.coord.y - 15, gx = a[1] + 2 * a[3] * u + a[4] * v, gy = a[2] + a[4] * u + 2 * a[5] * v;
        double exact = (gx * q.normal.x + gy * q.normal.y) / q.length;
        REQUIRE(std::fabs(got - exact) <= tol, "sensitivity %.12g of a quadratic, its derivative along the normal per unit length is %.12g", got, exact);
        s.label("exact derivative");
    }
    s.maximise("callback evaluations", calls);
    s.nontrivial((q.normal.x != 0 || q.normal.y != 0) && std::fabs(want) > 1e-6);
    s.label("finite difference");
}

// Reference Ito correction; tolerance grows with the rounding of the differences.
static void checkIto(const Boundary& before, const Boundary& after, double T, double delta, bool& curved)
{
    curved = false;
    for (size_t i = 0; i < before.points.size(); i++) {
        const BoundaryPoint &p = before.points[i], &q = after.points[i];
        REQUIRE(equalPoint(p, q, false, true), "the correction changed more than the objective sensitivity of point %zu", i);
        double k = (perimeter(before, i, p.coord.x + delta * p.normal.x, p.coord.y + delta * p.normal.y) - perimeter(before, i, p.coord.x - delta * p.normal.x, p.coord.y - delta * p.normal.y)) / (2 * delta) / p.length;
        double want = p.sensitivities[0] - T * k / (2 * p.length);
        double mag = std::fabs(p.coord.x) + std::fabs(p.coord.y) + 2, tol = 1e-12 * (1 + std::fabs(want) + std::fabs(p.sensitivities[0])) + T * 1e-15 * mag / delta / p.length / p.length;
        if (!(std::fabs(q.sensitivities[0] - want) <= tol))
            fail("point %zu at (%.6g,%.6g) length %.6g: objective sensitivity %.12g after the correction, expected %.12g (was %.12g, curvature %.6g, T %g)", i, p.coord.x, p.coord.y, p.length, q.sensitivities[0], want, p.sensitivities[0], k, T);
        if (std::fabs(k) > 1e-3) curved = true;
    }
}

static void setSens(Src& s, Boundary& b, int n)
{
    for (auto& p : b.points) { p.sensitivities.resize(n); for (double& v : p.sensitivities) v = s.uniform(-2, 2); p.velocity = s.uniform(-1, 1); }
}

void property(Src& s)
{
    unsigned mode = s.weighted({3, 5, 2});
    if (mode == 0) { finiteDifference(s); return; }
    double delta = genDelta(s), T = s.chance(1, 8) ? 0 : s.chance(1, 2) ? s.real(0.01, 2) : std::pow(10.0, s.uniform(-6, 2));
    slsm::Sensitivity sens(delta); int nf = (int) s.range(1, 4);
    if (mode == 2) {        // a regular or distorted polygon built by hand: curvature known
        int n = (int) s.range(3, 24); double R = s.real(1, 10), cx = s.real(0, 20), cy = s.real(0, 20); bool regular = s.chance(1, 2), inward = s.chance(1, 2);
        Boundary b; std::vector<double> ang;
        for (int i = 0; i < n; i++) ang.push_back(2 * M_PI * (i + (regular ? 0 : 0.8 * s.uniform(0, 1))) / n);
        for (int i = 0; i < n; i++) {
            BoundaryPoint p; p.coord = Coord(cx + R * cos(ang[i]), cy + R * sin(ang[i])); double sg = inward ? -1 : 1; p.normal = Coord(sg * cos(ang[i]), sg * sin(ang[i]));
            p.nSegments = 0; p.nNeighbours = 2; p.neighbours = {(unsigned) ((i + n - 1) % n), (unsigned) ((i + 1) % n)}; p.negativeLimit = p.positiveLimit = 0; p.velocity = 0;
            b.points.push_back(p);
        }
        b.nPoints = n; b.nSegments = 0; b.length = 0;
        for (int i = 0; i < n; i++) b.points[i].length = 0.5 * perimeter(b, i, b.points[i].coord.x, b.points[i].coord.y);
        setSens(s, b, nf);
        s.desc("polygon of %d points on a circle of radius %.4g, T %.4g, delta %g", n, R, T, delta);
        Boundary before = b; sens.itoCorrection(b, T);
        bool curved; checkIto(before, b, T, delta, curved);
        // points on a circle: the curvature is that of the circle, whatever the spacing
        for (int i = 0; i < n; i++) {
            const BoundaryPoint& p = before.points[i]; double want = p.sensitivities[0] - T * (inward ? -1 : 1) * (1 / R) / (2 * p.length);
            double tol = 1e-9 + T * (1e-15 * 50 / delta / p.length / p.length + delta * delta * 10 / std::pow(p.length, 4));
            REQUIRE(std::fabs(b.points[i].sensitivities[0] - want) <= tol, "point %d of a circle of radius %.6g: objective sensitivity %.9g, expected %.9g from curvature 1/R", i, R, b.points[i].sensitivities[0], want);
        }
        s.label("points on a circle"); s.nontrivial(T > 0);
        return;
    }
    BState bs = genBState(s, 18, true, false, 4, false); LevelSet& ls = *bs.st.ls;
    Boundary b; b.discretise(ls);
    if (b.points.empty()) throw Discard();
    for (auto& p : b.points) if (!(p.length > 1e-4)) throw Discard();
    setSens(s, b, nf);
    if (s.chance(1, 3)) { for (auto& p : b.points) p.normal = Coord(s.uniform(-1, 1), s.uniform(-1, 1)); s.label("stale normals"); }
    s.desc("T %.4g delta %g functions %d", T, delta, nf);
    Snapshot snap(ls);
    Boundary one = b, two = b, ref = b;
    sens.itoCorrection(one, ls, T);
    requireSame(snap, Snapshot(ls), K_ALL, "the Ito correction");
    if (T == 0) {
        for (size_t i = 0; i < b.points.size(); i++) REQUIRE(equalPoint(one.points[i], b.points[i], true, false), "the correction at zero temperature changed point %zu", i);
        two = b; sens.itoCorrection(two, 0); for (size_t i = 0; i < b.points.size(); i++) REQUIRE(equalPoint(two.points[i], b.points[i], true, true), "the correction at zero temperature changed point %zu", i);
        s.label("zero temperature"); return;
    }
    ref.computeNormalVectors(ls);
    bool curved; checkIto(ref, one, T, delta, curved);
    // the other form, with the same normals
    two.computeNormalVectors(ls); sens.itoCorrection(two, T);
    for (size_t i = 0; i < b.points.size(); i++) REQUIRE(equalPoint(one.points[i], two.points[i], true, true), "the two forms of the correction differ at point %zu (%.12g, %.12g)", i, one.points[i].sensitivities[0], two.points[i].sensitivities[0]);
    // the segments, counts and length of the boundary stay as they were
    REQUIRE(one.points.size() == b.points.size() && one.segments.size() == b.segments.size() && one.nPoints == b.nPoints && one.nSegments == b.nSegments && one.length == b.length, "the correction changed the boundary");
    // arbitrary normals in the second form
    Boundary three = b; for (auto& p : three.points) { double t = s.uniform(0, 6.28); p.normal = Coord(cos(t), sin(t)); }
    Boundary t0 = three; sens.itoCorrection(three, T); bool c2; checkIto(t0, three, T, delta, c2);
    s.label("boundary corrected");
    s.nontrivial(b.points.size() >= 6 && curved);
}
