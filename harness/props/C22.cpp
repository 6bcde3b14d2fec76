#include "io.h"
const char* PROP_ID = "C22";
const char* PROP_RULE = "the damaged file still has content (or exists as a directory), or the save could not be completed";
const unsigned long QUICK_CASES = 12000, THOROUGH_CASES = 80000;

// Whether a text file holds exactly one complete entry per node, and the distances it then holds.
static bool validText(const std::string& d, int n, bool xy, Vec& out)
{
    io::Lines l = io::lines(d); if ((int) l.size() != n) return false; out.clear();
    for (auto& q : l) {
        io::Lines t = io::tokens(q); if (t.size() != (xy ? 5u : 3u)) return false;
        for (size_t c = 0; c < t.size(); c++) { double v; if (!io::numeric(t[c], v)) return false; if (c == (xy ? 2u : 0u)) out.push_back(v); }
    }
    return true;
}

static void saveFailure(Src& s)
{
    int w = (int) s.range(1, 12), h = (int) s.range(1, 12); LevelSet ls(w, h, genHoles(s, w, h, 2)); Boundary b; b.discretise(ls); ls.computeAreaFractions(b);
    unsigned op = (unsigned) s.draw(7), how = s.weighted({1, 1, 2, 1}); bool num = s.chance(1, 3) && how != 2; unsigned dp = (unsigned) s.range(0, 99);
    static const char* ops[] = {"level set VTK", "level set TXT", "level set BIN", "boundary points TXT", "boundary segments TXT", "area VTK", "area TXT"};
    static const char* hows[] = {"missing directory", "a directory of that name", "a full device", "path through a file"};
    mkdir("dir", 0700); io::spit("file", "x");
    static const char* stems[] = {"level-set_", "level-set_", "level-set_", "boundary-points_", "boundary-segments_", "area_", "area_"};
    static const char* exts[] = {".vtk", ".txt", ".bin", ".txt", ".txt", ".vtk", ".txt"};
    std::string sub = how == 0 ? "missing" : how == 1 ? "dir" : "file", name = how == 0 ? "missing/x" : how == 1 ? "dir" : how == 2 ? "/dev/full" : "file/x";
    if (num && how == 1) mkdir(("dir/" + std::string(stems[op]) + io::number(dp) + exts[op]).c_str(), 0700);
    if (how == 2 && ((op == 3 && b.points.empty()) || (op == 4 && b.segments.empty()))) throw Discard(); // nothing to write
    if (how == 2 && access("/dev/full", W_OK)) throw Discard();
    s.desc("%dx%d saving %s to %s%s", w, h, ops[op], hows[how], num ? " (numbered)" : "");
    ChildResult r = run_child([&]() {
        slsm::InputOutput f;
        switch (op) {
            case 0: if (num) f.saveLevelSetVTK(dp, ls, true, true, sub); else f.saveLevelSetVTK(name, ls, true, true); break;
            case 1: if (num) f.saveLevelSetTXT(dp, ls, sub); else f.saveLevelSetTXT(name, ls); break;
            case 2: if (num) f.saveLevelSetBIN(dp, ls, sub); else f.saveLevelSetBIN(name, ls); break;
            case 3: if (num) f.saveBoundaryPointsTXT(dp, b, sub); else f.saveBoundaryPointsTXT(name, b); break;
            case 4: if (num) f.saveBoundarySegmentsTXT(dp, b, sub); else f.saveBoundarySegmentsTXT(name, b); break;
            case 5: if (num) f.saveAreaFractionsVTK(dp, ls.mesh, sub); else f.saveAreaFractionsVTK(name, ls.mesh); break;
            default: if (num) f.saveAreaFractionsTXT(dp, ls.mesh, sub); else f.saveAreaFractionsTXT(name, ls.mesh);
        }
    });
    REQUIRE(!(r.exited && r.code == 42), "saving %s to %s was reported as done", ops[op], hows[how]);
    REQUIRE(r.exited && r.code == 1 && !r.err.empty(), "saving %s to %s ended in %s %d instead of a reported failure: %.300s", ops[op], hows[how], r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
    s.label("save failure"); s.label(hows[how]); s.nontrivial();
}

void property(Src& s)
{
    io::Dir dir;
    if (s.chance(1, 8)) { saveFailure(s); return; }
    int w = (int) s.range(1, 14), h = (int) s.range(1, 14), n = (w + 1) * (h + 1);
    bool text = s.chance(2, 3), xy = text && s.chance(1, 2), num = s.chance(1, 4); unsigned dp = (unsigned) s.range(0, 9);
    // a valid file, written here
    Vec vals; for (int i = 0; i < n; i++) vals.push_back(s.chance(1, 4) ? (double) s.range(-5, 5) : s.uniform(-9, 9));
    auto row = [&](int i) { char b[256]; int k = xy ? snprintf(b, 256, "%lf %lf ", (double) (i % (w + 1)), (double) (i / (w + 1))) : 0; snprintf(b + k, 256 - k, "%lf %lf %lf", vals[i % n], 0.25 * i, 1.0); return std::string(b); };
    std::string d; io::Lines L; for (int i = 0; i < n; i++) L.push_back(row(i));
    auto join = [&]() { d.clear(); for (auto& l : L) d += l + "\n"; };
    if (text) join(); else d.assign((const char*) vals.data(), n * sizeof(double));
    static const char* junk[] = {"abc", "-", "1.2.3", "1e", "--1", "1,5", "+", ".", "#", "1.0x", "e5"};
    unsigned m = text ? s.weighted({2, 3, 2, 2, 2, 2, 2, 3, 2, 1, 1, 1, 1, 2, 1, 1, 2}) : s.weighted({2, 3, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 1, 2, 2});
    static const char* mn[] = {"undamaged", "truncated", "line removed", "line repeated", "column removed on one line", "column added on one line", "column removed throughout", "token corrupted",
        "column added throughout", "empty", "missing", "directory", "other format", "blank line inserted", "random bytes", "extended", "file of another mesh"};
    std::string name = num ? "level-set_" + io::number(dp) + (text ? ".txt" : ".bin") : "in.dat";
    bool exists = true; int li = (int) s.range(0, n - 1); int nc = xy ? 5 : 3, col = (int) s.range(0, nc - 1);
    auto edit = [&](int i, int kind) { io::Lines t = io::tokens(L[i]); if (kind == 0) t.erase(t.begin() + std::min<int>(col, (int) t.size() - 1)); else if (kind == 1) t.insert(t.begin() + col, s.chance(1, 2) ? "0.500000" : "7"); else t[col] = s.chance(1, 3) ? t[col] + "x" : junk[s.draw(11)]; L[i].clear(); for (auto& x : t) L[i] += (L[i].empty() ? "" : " ") + x; };
    switch (m) {
        case 0: if (text && s.chance(1, 3)) { d.erase(d.size() - 1); s.label("no newline at the end"); } break;
        case 1: { size_t k = s.chance(1, 3) ? d.size() - 1 - s.draw(std::min<size_t>(d.size(), 40)) : s.draw(d.size()); d.resize(k); break; }
        case 2: { int k = s.chance(1, 2) ? 1 : (int) s.range(1, n); L.erase(L.begin() + li, L.begin() + std::min(n, li + k)); join(); break; }
        case 3: { int k = s.chance(1, 2) ? 1 : (int) s.range(1, 50); L.insert(L.begin() + li, k, L[li]); join(); break; }
        case 4: edit(li, 0); join(); break;
        case 5: edit(li, 1); join(); break;
        case 6: for (int i = 0; i < n; i++) edit(i, 0); join(); break;
        case 7: edit(li, 2); join(); break;
        case 8: { int k = (int) s.range(1, 3); for (int i = 0; i < n; i++) for (int q = 0; q < k; q++) L[i] += " 1.5"; join(); break; }
        case 9: d.clear(); break;
        case 10: exists = false; break;
        case 11: exists = false; mkdir(name.c_str(), 0700); break;
        case 12: if (text) { if (s.chance(1, 2)) d.assign((const char*) vals.data(), n * sizeof(double)); else { xy = !xy; join(); xy = !xy; L.clear(); xy = !xy; for (int i = 0; i < n; i++) L.push_back(row(i)); join(); xy = !xy; } } else { join(); } break;
        case 13: L.insert(L.begin() + li, ""); if (s.chance(1, 2)) L.pop_back(); join(); break;
        case 14: { size_t k = s.chance(1, 2) ? d.size() : s.draw(400); d.clear(); bool lines = s.chance(1, 2); for (size_t i = 0; i < k; i++) d += lines && s.chance(1, 4) ? '\n' : (char) s.draw(256); break; }
        case 15: { int k = text ? (int) s.range(1, 3) * n : 0; if (text) { for (int i = 0; i < k; i++) L.push_back(row(i % n)); join(); } else { size_t e = 1 + s.draw(200); for (size_t i = 0; i < e; i++) d += (char) s.draw(256); } break; }
        default: { int w2 = (int) s.range(1, 16), h2 = (int) s.range(1, 16), n2 = (w2 + 1) * (h2 + 1); if (text) { L.clear(); for (int i = 0; i < n2; i++) L.push_back(row(i)); join(); } else { Vec v(n2, -1.5); d.assign((const char*) v.data(), n2 * sizeof(double)); } }
    }
    s.label(mn[m]); s.label(text ? xy ? "text with coordinates" : "text" : "binary");
    s.desc("%dx%d %s file, %s", w, h, text ? xy ? "text (coordinates)" : "text" : "binary", mn[m]);
    if (exists) io::spit(name, d);
    Vec want; bool valid = exists && (text ? validText(d, n, xy, want) : d.size() == n * sizeof(double));
    if (valid && !text) { want.resize(n); memcpy(want.data(), d.data(), n * sizeof(double)); }
    if (valid) for (double v : want) if (text && !fin(v)) throw Discard();
    if (m == 0 && !valid) fail("harness: the undamaged file is not valid");
    std::vector<Hole> none;
    ChildResult r = run_child([&]() {
        LevelSet ls(w, h, none); slsm::InputOutput f;
        if (num) { if (text) f.loadLevelSetTXT(dp, ls, "", xy); else f.loadLevelSetBIN(dp, ls); }
        else { if (text) f.loadLevelSetTXT(name, ls, xy); else f.loadLevelSetBIN(name, ls); }
        if (!valid) return;
        for (int i = 0; i < n; i++) REQUIRE(text ? std::fabs(ls.signedDistance[i] - want[i]) <= 1e-9 * (1 + std::fabs(want[i])) : hashd(ls.signedDistance[i]) == hashd(want[i]), "node %d loaded as %.12g, the file holds %.12g", i, ls.signedDistance[i], want[i]);
    }, 10);
    REQUIRE(!r.timeout, "loading a %s file did not end", mn[m]);
    if (valid) { REQUIRE(r.exited && r.code == 42, "a valid file was not loaded (%s %d): %.300s", r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str()); s.label("accepted"); }
    else {
        REQUIRE(!(r.exited && r.code == 42), "a file that is %s was loaded without complaint", mn[m]);
        REQUIRE(r.exited && r.code == 1 && !r.err.empty(), "loading a file that is %s ended in %s %d instead of a reported failure: %.300s", mn[m], r.exited ? "exit code" : "signal", r.exited ? r.code : r.sig, r.err.c_str());
        s.label("rejected"); s.nontrivial(m != 9 && m != 10);
    }
}
