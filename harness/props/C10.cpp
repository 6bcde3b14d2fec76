#include "gen.h"
const char* PROP_ID = "C10";
const char* PROP_RULE = "history of at least two updates in which at least five nodes moved";
const unsigned long QUICK_CASES = 30000, THOROUGH_CASES = 120000;

void property(Src& s)
{
    GenOpt o; o.lo = 4; o.hi = 22; o.allowRaw = true; o.physical = !s.chance(1, 4);
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    int steps = (int) s.range(1, 8), moved = 0, done = 0;
    if (s.chance(1, 4)) { Mask m = genMask(s, st.d.w, st.d.h); applyMask(s, st, m); }
    Boundary b; bool fresh = false;
    for (int t = 0; t < steps; t++) {
        unsigned k = s.weighted({5, 2, 1, 1});
        if (k == 0) { if (!drive(s, ls, b)) break; fresh = true; }
        else if (k == 1) { for (double& v : ls.velocity) v = s.uniform(-1, 1); ls.computeGradients(); }
        else if (k == 2) { for (double& v : ls.velocity) v = s.uniform(-1, 1); for (double& v : ls.gradient) v = s.uniform(0, 2); }
        else if (!fresh) continue; // update again with the same velocities and gradients
        double dt = s.weighted({4, 1, 1}) == 0 ? s.real(0.05, 1) : s.chance(1, 4) ? 0.0 : s.real(0.5, 4);
        int due; Vec f = advected(g, ls, dt, due);
        if (due == -1) { s.label("mine on its threshold"); throw Discard(); }
        if (due == 1 && !hasInterface(g, f)) { s.label("structure vanishes"); break; }
        for (double v : f) if (!fin(v) || (v != 0 && std::fabs(v) < 1e-13)) throw Discard();
        Snapshot before(ls);
        std::vector<char> was(g.n()); for (int i = 0; i < g.n(); i++) was[i] = ls.mesh.nodes[i].isActive;
        bool r = ls.update(dt);
        Snapshot after(ls);
        REQUIRE(r == (due == 1), "step %d: update %s a reinitialisation, but a mine node %s within one unit of the interface", t, r ? "reports" : "does not report", due ? "is" : "is not");
        requireSame(before, after, K_VEL | K_GRAD | K_TARGET, "an update");
        for (int i = 0; i < g.n(); i++) if (f[i] != before.phi[i]) moved++;
        if (!r) {
            requireSame(before, after, K_BAND, "an update without reinitialisation");
            for (int i = 0; i < g.n(); i++) {
                if (!ls.mesh.nodes[i].isActive) REQUIRE(hashd(after.phi[i]) == hashd(before.phi[i]), "step %d: node (%d,%d) outside the band moved from %.9g to %.9g", t, g.X(i), g.Y(i), before.phi[i], after.phi[i]);
                REQUIRE(close(after.phi[i], f[i], 1e-12), "step %d: node (%d,%d) is %.12g after the update, expected %.12g (%.6g - %.6g * %.6g * %.6g)", t, g.X(i), g.Y(i), after.phi[i], f[i], before.phi[i], dt, ls.gradient[i], ls.velocity[i]);
            }
        }
        else {
            s.label("reinitialised by a mine");
            Vec q = f; slsm::FastMarchingMethod fmm(ls.mesh, false); fmm.march(q);
            for (int i = 0; i < g.n(); i++) if (std::fabs(after.phi[i] - q[i]) > 1e-7) {
                ref::StableMarch m = ref::stableMarch(g, f);
                if (m.stable[i] && m.confirm(i)) fail("step %d: node (%d,%d) is %.10g after the update with reinitialisation, expected %.10g", t, g.X(i), g.Y(i), after.phi[i], q[i]);
            }
            for (int i = 0; i < g.n(); i++) {
                bool a = std::fabs(after.phi[i]) < st.band && !ls.mesh.nodes[i].isMasked && !(st.fixed && g.edge(i));
                REQUIRE(a == ls.mesh.nodes[i].isActive, "step %d: node (%d,%d) at %.9g %s in the band after reinitialisation", t, g.X(i), g.Y(i), after.phi[i], a ? "is not" : "is");
            }
        }
        for (int i = 0; i < g.n(); i++) if (g.edge(i) && was[i]) REQUIRE(after.phi[i] <= 0, "step %d: domain-edge node (%d,%d) is above zero (%.9g)", t, g.X(i), g.Y(i), after.phi[i]);
        done++;
        if (!hasInterface(g, ls.signedDistance)) break;
        if (dt == 0) s.label("zero time step");
    }
    s.nontrivial(done >= 2 && moved >= 5);
}
