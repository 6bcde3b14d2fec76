#include "gen.h"
const char* PROP_ID = "C09";
const char* PROP_RULE = "at least ten band nodes compared with the reference gradient, with velocities of both signs or a linear field";
const unsigned long QUICK_CASES = 60000, THOROUGH_CASES = 250000;

void property(Src& s)
{
    GenOpt o; o.lo = 4; o.hi = s.chance(1, 2) ? 9 : 24; o.allowRaw = true; o.physical = !s.chance(1, 3);
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    if (s.chance(1, 5)) { Mask m = genMask(s, st.d.w, st.d.h); applyMask(s, st, m); }
    unsigned vk = s.weighted({3, 2, 1, 1});
    if (vk == 0) for (double& v : ls.velocity) v = s.uniform(-2, 2);
    else if (vk == 1) { Boundary b; b.discretise(ls); if (b.points.empty()) throw Discard(); genVelocities(s, b); ls.computeVelocities(b.points); }
    else { double c = vk == 2 ? -1 : s.chance(1, 2) ? 0 : 1; for (double& v : ls.velocity) v = c; }
    bool linear = false; double slope = 0;
    unsigned fk = s.weighted({5, 2, 3});    // as generated, perturbed, linear
    if (fk == 1) { s.label("perturbed field"); double a = s.real(0.01, 1); for (double& v : ls.signedDistance) v += s.uniform(-a, a); }
    if (fk == 2) {
        double t = s.chance(1, 3) ? s.range(0, 7) * M_PI / 4 : s.uniform(0, 2 * M_PI), c = s.real(-20, 20); slope = s.real(0.2, 3); linear = true;
        for (int i = 0; i < g.n(); i++) ls.signedDistance[i] = slope * (cos(t) * g.X(i) + sin(t) * g.Y(i)) + c;
        s.desc("linear slope %g angle %g", slope, t); s.label("linear field");
    }
    for (double& v : ls.gradient) v = s.chance(1, 3) ? s.uniform(-9, 9) : 7;
    Snapshot before(ls);
    ls.computeGradients();
    requireSame(before, Snapshot(ls), K_PHI | K_VEL | K_BAND | K_TARGET, "computing gradients");
    int n = 0; bool pos = false, neg = false;
    for (int i = 0; i < g.n(); i++) {
        double v = ls.gradient[i];
        if (!ls.mesh.nodes[i].isActive) { REQUIRE(v == 0, "gradient %.9g at (%d,%d), which is outside the band", v, g.X(i), g.Y(i)); continue; }
        REQUIRE(fin(v) && v >= 0, "gradient %.9g at (%d,%d)", v, g.X(i), g.Y(i));
        bool delicate; double e = ref::gradient(g, ls.signedDistance, i, ls.velocity[i], delicate);
        if (delicate) { s.label("corner rule on its threshold"); continue; }
        REQUIRE(close(v, e, 1e-8), "gradient at (%d,%d) is %.12g, upwind WENO reference %.12g (velocity %.4g)", g.X(i), g.Y(i), v, e, ls.velocity[i]);
        if (linear) REQUIRE(close(v, slope, 1e-8), "gradient at (%d,%d) of a field of slope %.9g is %.9g", g.X(i), g.Y(i), slope, v);
        n++; (ls.velocity[i] < 0 ? neg : pos) = true;
    }
    s.nontrivial(n >= 10 && (linear || (pos && neg)));
    Vec once = ls.gradient; ls.computeGradients(); REQUIRE(same(once, ls.gradient), "computing the gradients twice gives different values");
}
