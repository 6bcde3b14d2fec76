#include "gen.h"
const char* PROP_ID = "C13";
const char* PROP_RULE = "history with a mask or a fixed domain, at least two updates and at least three protected nodes within the band width of the interface";
const unsigned long QUICK_CASES = 18000, THOROUGH_CASES = 150000;

void property(Src& s)
{
    GenOpt o; o.lo = 4; o.hi = 22; o.allowRaw = true;
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    if (!st.reinitialised) ls.reinitialise();
    std::vector<int> masked(g.n(), 0); int masks = 0;
    auto addMask = [&]() {
        Mask m = genMask(s, st.d.w, st.d.h); Snapshot before(ls);
        if (!applyMask(s, st, m)) return;
        masks++;
        Vec f = before.phi;
        for (int i = 0; i < g.n(); i++) {
            int c = m.covers(g.X(i), g.Y(i));
            if (c == -1 && masked[i]) throw Discard();      // on the edge of the region: cannot tell whether it was masked again
            if (c == -1) c = ls.mesh.nodes[i].isMasked;     // on the edge of the region
            if (c) { masked[i] = 1; f[i] = -1e-6; }
            REQUIRE(ls.mesh.nodes[i].isMasked == (masked[i] == 1), "mask: node (%d,%d) is %smarked", g.X(i), g.Y(i), ls.mesh.nodes[i].isMasked ? "" : "not ");
            double v = ls.signedDistance[i], b = before.phi[i];
            if (masked[i]) REQUIRE(v <= 0, "mask: node (%d,%d) in the masked region is inside the structure (%.9g)", g.X(i), g.Y(i), v);
            else if (std::fabs(b) > 1e-12) REQUIRE(b > 0 ? v > 0 : v < 0, "mask: unmasked node (%d,%d) changed side from %.9g to %.9g", g.X(i), g.Y(i), b, v);
        }
        ref::StableMarch r = ref::stableMarch(g, f);
        for (int i = 0; i < g.n(); i++)
            if (r.stable[i] && std::fabs(ls.signedDistance[i] - r.m.phi[i]) > 1e-7 && r.confirm(i))
                fail("mask: distance at (%d,%d) is %.10g, expected %.10g", g.X(i), g.Y(i), ls.signedDistance[i], r.m.phi[i]);
    };
    int pre = (int) s.range(st.fixed ? 0 : 1, 3); for (int t = 0; t < pre; t++) addMask();
    if (!masks && !st.fixed) throw Discard();
    int steps = (int) s.range(1, 10), done = 0, close = 0;
    for (int i = 0; i < g.n(); i++) if ((masked[i] || (st.fixed && g.edge(i))) && std::fabs(ls.signedDistance[i]) < st.band) close++;
    Boundary b;
    for (int t = 0; t < steps; t++) {
        unsigned k = s.weighted({6, 2, 1});
        if (k == 0) { if (!drive(s, ls, b)) break; }
        else if (k == 1) { double c = s.uniform(-2, 1); for (double& v : ls.velocity) v = c + s.uniform(-1, 1); ls.computeGradients(); }
        else { if (s.chance(1, 2)) addMask(); else { if (!hasInterface(g, ls.signedDistance)) break; ls.reinitialise(); } continue; }
        double dt = s.real(0.05, 1);
        int due; Vec f = advected(g, ls, dt, due);
        if (due == -1 || (due == 1 && !hasInterface(g, f))) break;
        Snapshot before(ls);
        bool r = ls.update(dt);
        for (int i = 0; i < g.n(); i++) {
            bool edge = g.edge(i), hold = masked[i] || (st.fixed && edge); double v = ls.signedDistance[i], p = before.phi[i];
            REQUIRE(ls.mesh.nodes[i].isMasked == (masked[i] == 1), "step %d: node (%d,%d) is %smarked as masked", t, g.X(i), g.Y(i), ls.mesh.nodes[i].isMasked ? "" : "not ");
            if (hold && !r) REQUIRE(hashd(v) == hashd(p), "step %d: %s node (%d,%d) moved from %.9g to %.9g", t, masked[i] ? "masked" : "fixed", g.X(i), g.Y(i), p, v);
            if (masked[i]) REQUIRE(v <= 1e-15, "step %d: masked node (%d,%d) became part of the structure (%.9g)", t, g.X(i), g.Y(i), v);
            if (hold && r && std::fabs(p) > 1e-15) REQUIRE(p > 0 ? v > 0 : v < 0, "step %d: %s node (%d,%d) changed side from %.9g to %.9g", t, masked[i] ? "masked" : "fixed", g.X(i), g.Y(i), p, v);
            if (edge) REQUIRE(v <= 1e-15, "step %d: structure extends past the domain edge at (%d,%d) (%.9g)", t, g.X(i), g.Y(i), v);
        }
        done++;
        if (!hasInterface(g, ls.signedDistance)) break;
    }
    s.nontrivial(done >= 2 && close >= 3);
    if (st.fixed) s.label("fixed domain");
}
