#include "gen.h"
const char* PROP_ID = "C04";
const char* PROP_RULE = "field with both signs, at least three interface-adjacent nodes with non-zero values and at least three nodes away from the interface";
const unsigned long QUICK_CASES = 72000, THOROUGH_CASES = 300000;
static const double EPS = std::numeric_limits<double>::epsilon();

static void reinit(Src& s, LevelSet& ls, Vec& phi, int how)
{
    if (how == 0) { ls.signedDistance = phi; ls.reinitialise(); phi = ls.signedDistance; }
    else { slsm::FastMarchingMethod f(ls.mesh, how == 2); f.march(phi); }
    (void) s;
}

void property(Src& s)
{
    GenOpt o; o.lo = s.chance(1, 6) ? 1 : 4; o.hi = 22; o.allowRaw = true; o.physical = !s.chance(1, 3);
    if (o.lo < 4) o.fields = true;
    State st = genState(s, o);
    ref::Grid g(st.d.w, st.d.h);
    Vec phi0 = st.ls->signedDistance;
    // optionally distort magnitudes (keeping signs and zeros), as an advected field would be
    unsigned dist = s.weighted({3, 2, 1});
    if (dist == 1) { s.label("distorted everywhere"); for (double& v : phi0) v *= s.uniform(0.2, 3); }
    if (dist == 2) { s.label("randomised away from zero"); for (double& v : phi0) if (v != 0) v = (v < 0 ? -1 : 1) * s.uniform(1e-3, 6); }
    bool tiny = s.chance(1, 5), anyTiny = false;   // keep values that are zero up to rounding
    for (double& v : phi0) if (v != 0 && std::fabs(v) < 1e-9 && !(tiny && std::fabs(v) <= EPS)) v = 0;
    if (tiny) for (double& v : phi0) if (v == 0 && s.chance(1, 6)) v = (s.chance(1, 2) ? -1 : 1) * EPS * s.uniform(0.01, 1);
    for (double v : phi0) if (v != 0 && std::fabs(v) <= EPS) anyTiny = true;
    if (anyTiny) s.label("values within rounding of zero");
    if (!hasInterface(g, phi0)) throw Discard();
    int how = s.weighted({3, 2, 1});
    if (how == 2) s.label("self-testing solver");
    describe(s, g, phi0, "before");
    Vec phi = phi0;
    reinit(s, *st.ls, phi, how);
    describe(s, g, phi, "after");
    int nb = 0, far = 0; bool pos = false, neg = false;
    std::vector<char> border(g.n(), 0);
    for (int i = 0; i < g.n(); i++) {
        double a = phi0[i], b = phi[i];
        REQUIRE(fin(b), "node (%d,%d): %g after reinitialising %g", g.X(i), g.Y(i), b, a);
        if (std::fabs(a) <= EPS) { border[i] = 1; REQUIRE(std::fabs(b) <= EPS, "node (%d,%d) was on the contour (%g) and became %.9g", g.X(i), g.Y(i), a, b); continue; }
        REQUIRE(a > 0 ? b > 0 : b < 0, "node (%d,%d) changed side: %.9g became %.9g", g.X(i), g.Y(i), a, b);
        (a > 0 ? pos : neg) = true;
        // distance interpolated along the node's own mesh edges
        double best[2] = {0, 0};
        for (int d = 0; d < 4; d++) {
            int k = g.nb(i, d); if (k < 0 || !(a * phi0[k] < 0)) continue;
            double f = std::fabs(a) / (std::fabs(a) + std::fabs(phi0[k]));
            if (best[d / 2] == 0 || f < best[d / 2]) best[d / 2] = f;
        }
        double e;
        if (best[0] > 0 && best[1] > 0) e = best[0] * best[1] / std::hypot(best[0], best[1]);
        else e = best[0] + best[1];
        if (e > 0) {
            nb++; border[i] = 1;
            REQUIRE(std::fabs(std::fabs(b) - e) < 1e-9, "node (%d,%d) next to the interface: crossings at x %.9g, y %.9g give distance %.9g, got %.9g",
                    g.X(i), g.Y(i), best[0], best[1], e, b);
        }
        else {
            far++;
            REQUIRE(std::fabs(b) > 1e-3, "node (%d,%d) is not next to the interface but is given distance %.9g", g.X(i), g.Y(i), b);
        }
    }
    s.nontrivial(pos && neg && nb >= 3 && far >= 3);
    if (nb) s.label("nodes next to the interface");
    // only signs and crossings matter
    if (!anyTiny) {
        Vec q = phi0;
        bool scaleAll = s.chance(1, 3);
        double c = std::ldexp(1.0, (int) s.range(-4, 4));
        for (int i = 0; i < g.n(); i++) {
            if (scaleAll) { if (std::fabs(q[i]) > 1e-9) q[i] *= c; }
            else if (!border[i]) q[i] = (q[i] < 0 ? -1 : 1) * (s.chance(1, 4) ? s.uniform(1e-4, 0.5) : s.uniform(0.1, 20));
        }
        Vec q0 = q;
        reinit(s, *st.ls, q, (int) s.draw(3));
        for (int i = 0; i < g.n(); i++)
            REQUIRE(std::fabs(q[i] - phi[i]) < 1e-9, "node (%d,%d): result %.9g becomes %.9g when magnitudes away from the crossings change (its value %.9g to %.9g)",
                    g.X(i), g.Y(i), phi[i], q[i], phi0[i], q0[i]);
        s.label(scaleAll ? "field scaled" : "far magnitudes replaced");
    }
    // an axis-aligned or diagonal straight interface does not move at all
    if (s.chance(1, 4)) {
        int w = (int) s.range(3, 16), h = (int) s.range(3, 16);
        ref::Grid L(w, h); LevelSet ls(w, h, std::vector<Hole>());
        unsigned k = s.draw(4); double sg = s.chance(1, 2) ? -1 : 1;
        double off = k < 2 ? s.real(0.2, (k ? h : w) - 0.2) : s.uniform(0.3, w + h - 0.3);
        Vec f(L.n());
        for (int i = 0; i < L.n(); i++) {
            double v = k == 0 ? L.X(i) - off : k == 1 ? L.Y(i) - off : k == 2 ? (L.X(i) + L.Y(i) - off) / std::sqrt(2.0) : (L.X(i) + h - L.Y(i) - off) / std::sqrt(2.0);
            f[i] = sg * v; if (std::fabs(f[i]) < 1e-9) f[i] = 0;
        }
        if (!hasInterface(L, f)) throw Discard();
        for (int rep = 0; rep < 3; rep++) {
            Vec r = f; reinit(s, ls, r, 0);
            for (int i = 0; i < L.n(); i++) for (int d = 0; d < 4; d += 1) {
                int j = L.nb(i, d); if (j < 0 || !(f[i] * f[j] < 0)) continue;
                if (k >= 2) { // one-dimensional crossings at the domain edge cannot be interpolated in both directions
                    bool inner = !L.edge(i) && !L.edge(j); if (!inner) continue;
                }
                double c0 = f[i] / (f[i] - f[j]), c1 = r[i] / (r[i] - r[j]);
                REQUIRE(std::fabs(c0 - c1) < 1e-9, "straight interface (kind %u, offset %.6g) moved on the edge from (%d,%d): crossing at %.9g became %.9g", k, off, L.X(i), L.Y(i), c0, c1);
            }
            if (k < 2) { for (int i = 0; i < L.n(); i++) REQUIRE(std::fabs(r[i] - f[i]) < 1e-9, "axis-aligned interface: distance at (%d,%d) is %.9g, exact %.9g", L.X(i), L.Y(i), r[i], f[i]); f = r; }
        }
        s.label("straight interface");
    }
}
