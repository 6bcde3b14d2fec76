#include "gen.h"
const char* PROP_ID = "C11";
const char* PROP_RULE = "history with at least two band constructions, the last band holding at least five nodes";
const unsigned long QUICK_CASES = 48000, THOROUGH_CASES = 200000;

static void check(const LevelSet& ls, const ref::Grid& g, const State& st, const char* after)
{
    std::vector<unsigned> band, mines;
    for (int i = 0; i < g.n(); i++) {
        const auto& n = ls.mesh.nodes[i]; double a = std::fabs(ls.signedDistance[i]);
        bool in = a < st.band && !n.isMasked && !(st.fixed && g.edge(i)), mine = in && a > st.band - 1.0;
        REQUIRE(n.isActive == in, "after %s: node (%d,%d) at %.9g is flagged %s (band %u)", after, g.X(i), g.Y(i), ls.signedDistance[i], n.isActive ? "active" : "inactive", st.band);
        REQUIRE(n.isMine == mine, "after %s: node (%d,%d) at %.9g is %sflagged as a mine (band %u)", after, g.X(i), g.Y(i), ls.signedDistance[i], n.isMine ? "" : "not ", st.band);
        if (in) band.push_back(i);
        if (mine) mines.push_back(i);
    }
    REQUIRE(ls.nNarrowBand == band.size(), "after %s: band counts %u nodes, %zu nodes qualify", after, ls.nNarrowBand, band.size());
    REQUIRE(ls.nMines == mines.size(), "after %s: %u mines counted, %zu nodes qualify", after, ls.nMines, mines.size());
    REQUIRE(ls.narrowBand.size() >= band.size() && ls.mines.size() >= mines.size(), "after %s: lists shorter than their counts", after);
    for (size_t i = 0; i < band.size(); i++) REQUIRE(ls.narrowBand[i] == band[i], "after %s: entry %zu of the band is %u, expected %u", after, i, ls.narrowBand[i], band[i]);
    std::vector<unsigned> m(ls.mines.begin(), ls.mines.begin() + ls.nMines); std::sort(m.begin(), m.end());
    for (size_t i = 0; i < mines.size(); i++) REQUIRE(m[i] == mines[i], "after %s: mines differ at entry %zu: %u, expected %u", after, i, m[i], mines[i]);
}

void property(Src& s)
{
    GenOpt o; o.lo = s.chance(1, 6) ? 1 : 4; o.hi = 26; o.reinit = !s.chance(1, 2);
    State st = genState(s, o);
    LevelSet& ls = *st.ls; ref::Grid g(st.d.w, st.d.h);
    check(ls, g, st, st.reinitialised ? "the first reinitialisation" : "construction");
    int ops = (int) s.range(0, 7), builds = 1;
    for (int t = 0; t < ops; t++) {
        unsigned k = s.weighted({3, 4, 2, 2});
        const char* what = "";
        if (k == 0) { Mask m = genMask(s, st.d.w, st.d.h); if (!applyMask(s, st, m)) continue; what = "masking"; builds++; }
        else if (k == 1) {
            if (st.d.w < 4 || st.d.h < 4) continue;
            Boundary b; if (!drive(s, ls, b)) continue;
            bool r = false; double dt = s.real(0.1, 2); int n = 0;
            while (!r && n++ < 6) {
                int due; Vec f = advected(g, ls, dt, due);
                if (due == -1 || !hasInterface(g, f)) { n = 99; break; }
                r = ls.update(dt);
            }
            if (n >= 99) break;
            if (!r) continue;   // the band follows the field only after reinitialisation
            what = "an update that reinitialised"; builds++; s.label("band rebuilt by an update");
        }
        else if (k == 2) { if (!hasInterface(g, ls.signedDistance)) break; ls.reinitialise(); what = "reinitialising"; builds++; }
        else {
            Vec f = genField(s, st.d.w, st.d.h, s.chance(1, 2) ? S_SMOOTH : S_NOISE, true, true);
            if (!hasInterface(g, f)) continue;
            ls.signedDistance = f; ls.reinitialise(); what = "replacing the field"; builds++;
        }
        check(ls, g, st, what);
    }
    s.nontrivial(builds >= 2 && ls.nNarrowBand >= 5);
    if (ls.nNarrowBand == (unsigned) g.n()) s.label("band covers the mesh");
    if (ls.nMines > 25) s.label("more than 25 mines");
}
