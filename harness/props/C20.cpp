#include "io.h"
const char* PROP_ID = "C20";
const char* PROP_RULE = "a field with at least 12 distinct values of both signs was saved and loaded into a level set holding a different structure";
const unsigned long QUICK_CASES = 32000, THOROUGH_CASES = 200000;

static double bits(uint64_t u) { union { uint64_t u; double d; } x; x.u = u; return x.d; }

void property(Src& s)
{
    io::Dir dir;
    GenOpt o; o.lo = s.chance(1, 8) ? 1 : 3; o.hi = 24; o.allowRaw = true;
    State st = genState(s, o); LevelSet& ls = *st.ls; int w = st.d.w, h = st.d.h; ref::Grid g(w, h);
    bool text = s.chance(1, 2), xy = text && s.chance(1, 2);
    // the level set to load into: same mesh, some other structure, its own velocities and gradients
    std::vector<Hole> hs; if (s.chance(1, 2)) hs = genHoles(s, w, h, 3);
    LevelSet dst(w, h, hs, st.ml, st.band, st.fixed);
    if (s.chance(1, 3) && w >= 4 && h >= 4) { Boundary b; drive(s, ls, b); if (hasInterface(g, dst.signedDistance)) drive(s, dst, b); }
    if (s.chance(1, 4)) { dst.target.assign(g.n(), 0); for (double& v : dst.target) v = s.uniform(-3, 3); }
    bool special = s.chance(1, 3);
    if (special) {      // arbitrary values, as a user may store in the public vector
        unsigned k = s.weighted({3, 2, 2, 1});
        for (double& v : ls.signedDistance) {
            if (s.chance(1, 3)) continue;
            switch (k) {
                case 0: v = (s.chance(1, 2) ? 1 : -1) * std::pow(10.0, s.uniform(-12, 12)); break;
                case 1: v = s.chance(1, 2) ? 0.0 : -0.0; break;
                case 2: v = (double) s.range(-2000000, 2000000) / 2e6; break;
                default: v = text ? (s.chance(1, 2) ? 1e200 : -1e200) : bits(s.draw(1ULL << 62) << 2 | s.draw(4));
            }
        }
        static const char* n[] = {"magnitudes 1e-12..1e12", "signed zeros", "half units of the last printed place", "extreme values"};
        s.label(n[k]);
    }
    int changed = 0; { std::set<uint64_t> u; for (double v : ls.signedDistance) u.insert(hashd(v)); bool p = false, m = false; for (double v : ls.signedDistance) { if (v > 0) p = true; if (v < 0) m = true; } changed = u.size() >= 12 && p && m; }

    slsm::InputOutput file; Snapshot before(ls);
    unsigned naming = s.weighted({2, 2, 2, 1}); unsigned dp = s.chance(1, 3) ? (unsigned) s.range(0, 20000) : (unsigned) s.range(0, 40);
    std::string sub, name = naming == 2 ? "some file" : dir.path + "/state.dat";
    if (naming == 1) { sub = s.chance(1, 2) ? dir.path + "/out" : std::string("out"); mkdir("out", 0700); }
    static const char* nn[] = {"numbered", "numbered in a directory", "named", "named, absolute path"};
    s.label(nn[naming]); s.label(text ? xy ? "text with coordinates" : "text" : "binary");
    s.desc("%s, %s", nn[naming], text ? xy ? "text with coordinates" : "text" : "binary");
    std::string stem = "level-set_" + io::number(dp) + (text ? ".txt" : ".bin");
    std::string expect = naming == 0 ? stem : naming == 1 ? "out/" + stem : name;
    if (s.chance(1, 3)) { io::spit(expect, std::string(200000, 'x')); s.label("overwriting a longer file"); }
    if (naming < 2) { if (text) file.saveLevelSetTXT(dp, ls, sub, xy); else file.saveLevelSetBIN(dp, ls, sub); }
    else { if (text) file.saveLevelSetTXT(name, ls, xy); else file.saveLevelSetBIN(name, ls); }
    requireSame(before, Snapshot(ls), K_ALL, "saving");
    std::string saved = io::slurp(expect);

    Snapshot d0(dst); double area = dst.area;
    if (naming < 2) { if (text) file.loadLevelSetTXT(dp, dst, sub, xy); else file.loadLevelSetBIN(dp, dst, sub); }
    else { if (text) file.loadLevelSetTXT(name, dst, xy); else file.loadLevelSetBIN(name, dst); }
    requireSame(d0, Snapshot(dst), K_ALL & ~K_PHI, "loading");
    REQUIRE(dst.area == area && dst.mesh.width == (unsigned) w && dst.mesh.height == (unsigned) h && dst.signedDistance.size() == (size_t) g.n(), "loading changed the mesh or the area");
    REQUIRE(io::slurp(expect) == saved, "loading changed the file");
    for (int i = 0; i < g.n(); i++) {
        double a = before.phi[i], b = dst.signedDistance[i];
        if (!text) REQUIRE(hashd(a) == hashd(b), "node %d: %.17g was saved in binary and %.17g loaded", i, a, b);
        else REQUIRE(io::printed(b, a), "node %d: %.12g was saved as text and %.12g loaded", i, a, b);
    }
    // a second save of what was loaded is the same file (text: velocities and gradients are those of the level set)
    if (!text) { file.saveLevelSetBIN(std::string("again"), dst); REQUIRE(io::slurp("again") == saved, "saving the loaded level set gives another file"); }
    // continuing from the loaded state
    Vec f = dst.signedDistance; bool ok = hasInterface(g, f);
    for (double v : f) if (!fin(v) || std::fabs(v) > 1e9) ok = false;
    if (ok && !special) {
        LevelSet direct(w, h, hs, st.ml, st.band, st.fixed); direct.signedDistance = text ? f : before.phi;
        dst.reinitialise(); direct.reinitialise();
        Snapshot x(dst), y(direct);
        REQUIRE(same(x.phi, y.phi) && x.band == y.band && x.mines == y.mines && x.flags == y.flags, "continuing from the loaded state differs from continuing with that field");
        if (!text) {
            ls.reinitialise(); Snapshot z(ls);
            REQUIRE(same(x.phi, z.phi) && x.band == z.band && x.mines == z.mines && x.flags == z.flags, "continuing from the loaded state differs from continuing from the original");
            s.label("continued from the loaded state");
        }
    }
    s.nontrivial(changed);
}
