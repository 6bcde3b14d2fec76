#include "io.h"
const char* PROP_ID = "C21";
const char* PROP_RULE = "the file written holds at least 25 values that are not all equal";
const unsigned long QUICK_CASES = 40000, THOROUGH_CASES = 250000;

struct Reader {
    io::Lines l; size_t k = 0; const char* what;
    Reader(const std::string& d, const char* w) : l(io::lines(d)), what(w) { REQUIRE(!d.empty() || true, "empty"); }
    std::string line() { while (k < l.size() && io::tokens(l[k]).empty()) k++; if (k >= l.size()) fail("%s: the file ends early", what); return l[k++]; }
    bool end() { while (k < l.size() && io::tokens(l[k]).empty()) k++; return k >= l.size(); }
    void expect(const std::string& w) { std::string g = line(); if (io::tokens(g) != io::tokens(w)) fail("%s: line '%s' where '%s' belongs", what, g.c_str(), w.c_str()); }
    double value(double mem, const char* of, int i) {
        io::Lines t = io::tokens(line()); double v;
        if (t.size() != 1 || !io::numeric(t[0], v)) fail("%s: %s %d is written as '%s'", what, of, i, l[k - 1].c_str());
        if (!io::printed(v, mem)) fail("%s: %s %d is written as %s, in memory it is %.12g", what, of, i, t[0].c_str(), mem);
        return v;
    }
    void row(const Vec& mem, const char* of, int i) {
        io::Lines t = io::tokens(line());
        if (t.size() != mem.size()) fail("%s: line of %s %d has %zu columns, %zu belong there", what, of, i, t.size(), mem.size());
        for (size_t c = 0; c < t.size(); c++) { double v; if (!io::numeric(t[c], v) || !io::printed(v, mem[c])) fail("%s: column %zu of %s %d is '%s', in memory %.12g", what, c + 1, of, i, t[c].c_str(), mem[c]); }
    }
};

static std::string seq(int n) { std::string r; for (int i = 0; i <= n; i++) r += std::to_string(i) + " "; return r; }

static void vtkHeader(Reader& r, int w, int h)
{
    REQUIRE(r.line().find("# vtk DataFile Version") == 0, "%s: the VTK identification line is missing", r.what);
    r.line();       // title
    r.expect("ASCII"); r.expect("DATASET RECTILINEAR_GRID");
    r.expect("DIMENSIONS " + std::to_string(w + 1) + " " + std::to_string(h + 1) + " 1");
    r.expect("X_COORDINATES " + std::to_string(w + 1) + " int"); r.expect(seq(w));
    r.expect("Y_COORDINATES " + std::to_string(h + 1) + " int"); r.expect(seq(h));
    r.expect("Z_COORDINATES 1 int"); r.expect("0");
}

static void section(Reader& r, const char* name, const Vec& v)
{
    r.expect(std::string("SCALARS ") + name + " float 1"); r.expect("LOOKUP_TABLE default");
    for (size_t i = 0; i < v.size(); i++) r.value(v[i], name, (int) i);
}

void property(Src& s)
{
    io::Dir dir;
    GenOpt o; o.lo = s.chance(1, 8) ? 1 : 3; o.hi = 20; o.allowRaw = true;
    State st = genState(s, o); LevelSet& ls = *st.ls; int w = st.d.w, h = st.d.h; ref::Grid g(w, h);
    Boundary b; b.discretise(ls);
    if (w >= 4 && h >= 4 && s.chance(2, 3) && !b.points.empty()) { genVelocities(s, b); ls.computeVelocities(b.points); ls.computeGradients(); b.computeNormalVectors(ls); s.label("with velocities"); }
    else if (s.chance(1, 2)) for (int i = 0; i < g.n(); i++) { ls.velocity[i] = s.real(-9, 9); ls.gradient[i] = s.real(0, 3); }
    ls.computeAreaFractions(b);
    if (s.chance(1, 6)) for (double& v : ls.signedDistance) v *= std::pow(10.0, s.uniform(-8, 8));
    slsm::InputOutput file; Snapshot before(ls); Boundary b0 = b;
    unsigned op = s.weighted({3, 2, 1, 1, 1, 1, 2}), naming = s.weighted({2, 2, 2, 1}); unsigned dp = s.chance(1, 3) ? (unsigned) s.range(0, 20000) : (unsigned) s.range(0, 40);
    static const char* ops[] = {"level set VTK", "level set TXT", "level set BIN", "boundary points TXT", "boundary segments TXT", "area VTK", "area TXT"};
    static const char* stems[] = {"level-set_", "level-set_", "level-set_", "boundary-points_", "boundary-segments_", "area_", "area_"};
    static const char* exts[] = {".vtk", ".txt", ".bin", ".txt", ".txt", ".vtk", ".txt"};
    static const char* nn[] = {"numbered", "numbered in a directory", "named", "named, absolute path"};
    bool vel = s.chance(1, 2), grad = s.chance(1, 2), xy = s.chance(1, 2), defaults = s.chance(1, 6); if (defaults) vel = grad = xy = false;
    s.label(ops[op]); s.label(nn[naming]);
    s.desc("%s, %s%s%s%s%s", ops[op], nn[naming], vel ? ", velocity" : "", grad ? ", gradient" : "", xy ? ", coordinates" : "", defaults ? ", default arguments" : "");
    std::string sub, name = naming == 2 ? "my.file" : dir.path + "/my file";
    mkdir("out", 0700); mkdir("other", 0700);
    if (naming == 1) sub = s.chance(1, 2) ? dir.path + "/out" : std::string("out");
    std::string stem = stems[op] + io::number(dp) + exts[op], where = naming == 1 ? dir.path + "/out" : dir.path, base = naming < 2 ? stem : naming == 2 ? "my.file" : "my file";
    if (s.chance(1, 3)) { io::spit(where + "/" + base, std::string(150000, '7')); s.label("overwriting a longer file"); }
    bool num = naming < 2;
    switch (op) {
        case 0: if (num) { if (defaults && sub.empty()) file.saveLevelSetVTK(dp, ls); else file.saveLevelSetVTK(dp, ls, vel, grad, sub); } else if (defaults) file.saveLevelSetVTK(name, ls); else file.saveLevelSetVTK(name, ls, vel, grad); break;
        case 1: if (num) { if (defaults) file.saveLevelSetTXT(dp, ls, sub); else file.saveLevelSetTXT(dp, ls, sub, xy); } else if (defaults) file.saveLevelSetTXT(name, ls); else file.saveLevelSetTXT(name, ls, xy); break;
        case 2: if (num) { if (sub.empty()) file.saveLevelSetBIN(dp, ls); else file.saveLevelSetBIN(dp, ls, sub); } else file.saveLevelSetBIN(name, ls); break;
        case 3: if (num) { if (sub.empty()) file.saveBoundaryPointsTXT(dp, b); else file.saveBoundaryPointsTXT(dp, b, sub); } else file.saveBoundaryPointsTXT(name, b); break;
        case 4: if (num) { if (sub.empty()) file.saveBoundarySegmentsTXT(dp, b); else file.saveBoundarySegmentsTXT(dp, b, sub); } else file.saveBoundarySegmentsTXT(name, b); break;
        case 5: if (num) { if (sub.empty()) file.saveAreaFractionsVTK(dp, ls.mesh); else file.saveAreaFractionsVTK(dp, ls.mesh, sub); } else file.saveAreaFractionsVTK(name, ls.mesh); break;
        default: if (num) { if (defaults) file.saveAreaFractionsTXT(dp, ls.mesh, sub); else file.saveAreaFractionsTXT(dp, ls.mesh, sub, xy); } else if (defaults) file.saveAreaFractionsTXT(name, ls.mesh); else file.saveAreaFractionsTXT(name, ls.mesh, xy);
    }
    requireSame(before, Snapshot(ls), K_ALL, "saving");
    REQUIRE(b.points.size() == b0.points.size() && b.segments.size() == b0.segments.size(), "saving changed the boundary");
    // exactly one file, under the documented name
    io::Lines got = io::list(dir.path), want = {"other", "out"}; if (naming != 1) want.push_back(base); std::sort(want.begin(), want.end());
    if (got != want || io::list("out") != (naming == 1 ? io::Lines{base} : io::Lines{}) || !io::list("other").empty()) {
        std::string r; for (auto& x : got) r += " " + x; for (auto& x : io::list("out")) r += " out/" + x; fail("%s: files%s, expected %s%s", ops[op], r.c_str(), naming == 1 ? "out/" : "", base.c_str());
    }
    std::string d = io::slurp(where + "/" + base); size_t values = 0; bool varied = false;
    Reader r(d, ops[op]);
    if (op == 0) {
        vtkHeader(r, w, h); r.expect("POINT_DATA " + std::to_string(g.n()));
        section(r, "distance", ls.signedDistance); if (vel) section(r, "velocity", ls.velocity); if (grad) section(r, "gradient", ls.gradient);
        if (vel) s.label("velocity section"); if (grad) s.label("gradient section"); values = g.n();
    }
    else if (op == 1) {
        for (int i = 0; i < g.n(); i++) { Vec v; if (xy) v = {(double) g.X(i), (double) g.Y(i)}; v.push_back(ls.signedDistance[i]); v.push_back(ls.velocity[i]); v.push_back(ls.gradient[i]); r.row(v, "node", i); }
        values = g.n();
    }
    else if (op == 2) {
        REQUIRE(d.size() == g.n() * sizeof(double), "binary file of %zu bytes for %d nodes", d.size(), g.n());
        REQUIRE(!memcmp(d.data(), ls.signedDistance.data(), d.size()), "the binary file does not hold the signed distance");
        values = g.n(); r.k = r.l.size();
    }
    else if (op == 3) { for (unsigned i = 0; i < b.points.size(); i++) r.row({b.points[i].coord.x, b.points[i].coord.y, b.points[i].length}, "boundary point", i); values = 3 * b.points.size(); }
    else if (op == 4) {
        for (unsigned i = 0; i < b.segments.size(); i++) {
            const Coord &p = b.points[b.segments[i].start].coord, &q = b.points[b.segments[i].end].coord;
            r.row({p.x, p.y}, "start of segment", i); size_t at = r.k; r.row({q.x, q.y}, "end of segment", i);
            REQUIRE(r.k == at + 1, "segment %u: its two end points are not on consecutive lines", i);
            REQUIRE(r.k < r.l.size() && io::tokens(r.l[r.k]).empty(), "segment %u is not followed by a blank line", i);
        }
        values = 4 * b.segments.size();
    }
    else if (op == 5) {
        vtkHeader(r, w, h); r.expect("CELL_DATA " + std::to_string(w * h));
        Vec a; for (auto& e : ls.mesh.elements) a.push_back(e.area); section(r, "area", a); values = a.size();
    }
    else {
        for (int i = 0; i < w * h; i++) { Vec v; if (xy) v = {i % w + 0.5, i / w + 0.5}; v.push_back(ls.mesh.elements[i].area); r.row(v, "cell", i); }
        values = w * h;
    }
    REQUIRE(r.end(), "%s: unexpected further line '%s'", ops[op], r.l[r.k].c_str());
    if (op >= 5) { for (auto& e : ls.mesh.elements) if (e.area != ls.mesh.elements[0].area) varied = true; } else for (double v : ls.signedDistance) if (v != ls.signedDistance[0]) varied = true;
    s.nontrivial(values >= 25 && varied);
}
