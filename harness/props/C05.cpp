#include "gen.h"
const char* PROP_ID = "C05";
const char* PROP_RULE = "field with an interface, at least ten nodes reached by marching, at least five of them compared exactly with the reference (others are sensitive to rounding)";
const unsigned long QUICK_CASES = 50000, THOROUGH_CASES = 200000;

static void bounds(Src& s, const ref::Grid& g, const Vec& phi, const std::vector<char>& border, const char* what)
{
    // grid (Manhattan) distance to the interface-adjacent nodes, seeded by their values
    std::vector<double> D(g.n(), 1e300); std::set<std::pair<double, int>> q;
    for (int i = 0; i < g.n(); i++) if (border[i]) { D[i] = std::fabs(phi[i]); q.insert({D[i], i}); }
    while (!q.empty()) {
        auto t = *q.begin(); q.erase(q.begin()); int i = t.second;
        for (int d = 0; d < 4; d++) { int k = g.nb(i, d); if (k < 0) continue;
            if (D[i] + 1 < D[k] - 1e-12) { q.erase({D[k], k}); D[k] = D[i] + 1; q.insert({D[k], k}); } }
    }
    for (int i = 0; i < g.n(); i++) {
        if (border[i]) continue;
        double v = std::fabs(phi[i]);
        s.maximise("above grid distance", v - D[i]);
        s.maximise("below half of grid distance", D[i] / std::sqrt(2.0) - v);
        double lo = 1e300;
        for (int d = 0; d < 4; d++) { int k = g.nb(i, d); if (k >= 0) lo = std::min(lo, std::fabs(phi[k])); }
        s.maximise("step over closest neighbour", v - lo);
        s.maximise("not above closest neighbour", lo - v);
        REQUIRE(v > lo + 0.4, "%s: node (%d,%d) at %.9g, away from the interface, is not properly beyond its closest neighbour at %.9g", what, g.X(i), g.Y(i), v, lo);
        REQUIRE(v < lo + 1 + 1e-6, "%s: node (%d,%d) at %.9g is more than a unit step beyond its closest neighbour %.9g", what, g.X(i), g.Y(i), v, lo);
        REQUIRE(v < D[i] + 1e-6, "%s: node (%d,%d) at %.9g exceeds the distance along mesh edges %.9g", what, g.X(i), g.Y(i), v, D[i]);
        REQUIRE(v > D[i] / std::sqrt(2.0) - 0.75, "%s: node (%d,%d) at %.9g is far below the distance along mesh edges %.9g", what, g.X(i), g.Y(i), v, D[i]);
    }
}

void property(Src& s)
{
    unsigned mode = s.weighted({5, 3, 2});
    if (mode == 0 || mode == 2) {
        GenOpt o; o.lo = s.chance(1, 8) ? 1 : 4; o.hi = 24; o.allowRaw = true; o.physical = !s.chance(1, 3);
        State st = genState(s, o);
        ref::Grid g(st.d.w, st.d.h);
        Vec phi0 = st.ls->signedDistance;
        if (s.chance(1, 3)) { for (double& v : phi0) v *= s.uniform(0.2, 3); s.label("distorted"); }
        for (double& v : phi0) if (std::fabs(v) < 1e-9) v = 0;
        if (!hasInterface(g, phi0)) throw Discard();
        ref::StableMarch r = ref::stableMarch(g, phi0);
        Vec phi = phi0;
        unsigned how = s.weighted({2, 2, 1});
        if (how == 0) { st.ls->signedDistance = phi0; st.ls->reinitialise(); phi = st.ls->signedDistance; }
        else if (mode == 0) { slsm::FastMarchingMethod f(st.ls->mesh, how == 2); f.march(phi); }
        else {
            // a used solver must behave like a fresh one
            s.label("reused solver");
            slsm::FastMarchingMethod f(st.ls->mesh, false);
            int n = (int) s.range(1, 2);
            for (int k = 0; k < n; k++) {
                Vec q = genField(s, st.d.w, st.d.h, s.chance(1, 2) ? S_PLANE : S_NOISE, false, true);
                if (!hasInterface(g, q)) continue;
                if (s.chance(1, 3)) { Vec v(g.n(), 1.0); f.march(q, v); }
                else f.march(q);
            }
            f.march(phi);
        }
        describe(s, g, phi0, "before"); describe(s, g, phi, "after"); describe(s, g, r.m.phi, "reference");
        int compared = 0, marched = 0;
        for (int i = 0; i < g.n(); i++) {
            if (!r.m.border[i]) marched++;
            if (!r.stable[i]) continue;
            if (!r.m.border[i]) compared++;
            if (std::fabs(phi[i] - r.m.phi[i]) > 1e-8 && r.confirm(i))
                fail("node (%d,%d): distance %.10g, reference %.10g (field value before %.6g)", g.X(i), g.Y(i), phi[i], r.m.phi[i], phi0[i]);
        }
        s.maximise("fraction of nodes sensitive to rounding", 1 - (double) r.nStable / g.n());
        if (r.anyUnstable) s.label("some nodes sensitive to rounding");
        bounds(s, g, phi, r.m.border, "arbitrary field");
        s.nontrivial(marched >= 10 && compared >= 5);
    }
    else {
        // interfaces with known geometry: accuracy against the exact distance
        int w = (int) s.range(8, 32), h = (int) s.range(8, 32);
        ref::Grid g(w, h); Vec exact(g.n()); double tol;
        std::vector<char> visible(g.n(), 1);   // closest point of the interface lies inside the domain
        unsigned k = s.weighted({3, 3, 2, 2});
        LS ls(new LevelSet(w, h, std::vector<Hole>()));
        const char* what;
        if (k == 0) {
            double t = s.chance(1, 4) ? s.range(0, 7) * M_PI / 4 : s.uniform(0, 2 * M_PI), px = s.real(2, w - 2), py = s.real(2, h - 2);
            for (int i = 0; i < g.n(); i++) {
                double v = exact[i] = (g.X(i) - px) * cos(t) + (g.Y(i) - py) * sin(t), qx = g.X(i) - v * cos(t), qy = g.Y(i) - v * sin(t);
                visible[i] = qx >= 0 && qy >= 0 && qx <= w && qy <= h;
            }
            tol = 0.42; what = "line"; s.desc("%dx%d line through (%g,%g) at angle %g", w, h, px, py, t);
        }
        else if (k == 1) {
            double cx = s.real(0, w), cy = s.real(0, h), r = s.real(2, std::max(w, h) * 0.7), sg = s.chance(1, 2) ? 1 : -1;
            for (int i = 0; i < g.n(); i++) {
                double d = std::hypot(g.X(i) - cx, g.Y(i) - cy);
                exact[i] = sg * (d - r);
                double qx = d > 0 ? cx + (g.X(i) - cx) * r / d : cx + r, qy = d > 0 ? cy + (g.Y(i) - cy) * r / d : cy;
                visible[i] = qx >= 0 && qy >= 0 && qx <= w && qy <= h;
            }
            tol = 0.45; what = "circle"; s.desc("%dx%d circle at (%g,%g) radius %g", w, h, cx, cy, r);
        }
        else if (k == 2) {
            std::vector<Hole> hs; int n = (int) s.range(1, 5); std::string d;
            for (int t = 0; t < n; t++) {   // resolved: gaps of at least two cells
                double cx = s.real(4, w - 4), cy = s.real(4, h - 4), r = s.real(2, 8);
                bool ok = cx - r >= 2 && cy - r >= 2 && cx + r <= w - 2 && cy + r <= h - 2;
                for (auto& q : hs) if (std::hypot(q.coord.x - cx, q.coord.y - cy) < r + q.r + 2) ok = false;
                if (ok) { hs.push_back(Hole(cx, cy, r)); char b[80]; snprintf(b, 80, "(%g,%g,r%g)", cx, cy, r); d += b; }
            }
            if (hs.empty()) throw Discard();
            for (int i = 0; i < g.n(); i++) { exact[i] = ref::domainDist(g, g.X(i), g.Y(i)); for (auto& q : hs) exact[i] = std::min(exact[i], std::hypot(g.X(i) - q.coord.x, g.Y(i) - q.coord.y) - q.r); }
            tol = 0.46; what = "holes and domain edge"; s.desc("%dx%d holes %s", w, h, d.c_str());
        }
        else {
            double cx = s.real(0.35 * w, 0.65 * w), cy = s.real(0.35 * h, 0.65 * h), r = s.real(3, std::max(3.0, 0.33 * std::min(w, h)));
            int n = (int) s.range(4, 9);
            if (cx - r < 1 || cy - r < 1 || cx + r > w - 1 || cy + r > h - 1) throw Discard();
            double a0 = s.uniform(0, 2 * M_PI); std::vector<ref::P> p;
            for (int t = 0; t <= n; t++) p.push_back({cx + r * cos(a0 + 2 * M_PI * (t % n) / n), cy + r * sin(a0 + 2 * M_PI * (t % n) / n)});
            for (int i = 0; i < g.n(); i++) {
                ref::P q = {(double) g.X(i), (double) g.Y(i)}; double d = 1e9;
                for (int t = 0; t < n; t++) d = std::min(d, ref::segDist(p[t], p[t + 1], q));
                exact[i] = ref::winding(p, q) ? -d : d;
            }
            tol = 1.2; what = "polygon"; s.desc("%dx%d regular %d-gon at (%g,%g) radius %g angle %g", w, h, n, cx, cy, r, a0);
        }
        for (double& v : exact) if (std::fabs(v) < 1e-9) v = 0;
        if (!hasInterface(g, exact)) throw Discard();
        Vec f = exact;
        // the field handed over has the right signs and crossings but wrong magnitudes
        ref::March b = ref::march(g, exact, ref::Opt());
        if (s.chance(1, 2)) for (int i = 0; i < g.n(); i++) if (!b.border[i]) f[i] *= s.uniform(0.05, 8);
        ls->signedDistance = f; ls->reinitialise();
        double worst = 0; int at = 0;
        for (int i = 0; i < g.n(); i++) if (visible[i]) {
            double e = std::fabs(ls->signedDistance[i] - exact[i]);
            if (e > worst) { worst = e; at = i; }
        }
        std::string m = std::string("error for ") + what; s.maximise(m.c_str(), worst);
        REQUIRE(worst < tol, "%s: distance at (%d,%d) is %.9g, exact %.9g", what, g.X(at), g.Y(at), ls->signedDistance[at], exact[at]);
        bounds(s, g, ls->signedDistance, b.border, what);
        s.label(what); s.nontrivial();
    }
}
