#include "io.h"
#include "optim.h"
#include <iostream>
#include <pybind11/pybind11.h>
#include <pybind11/stl_bind.h>
const char* PROP_ID = "C29";
const char* PROP_RULE = "at least four library calls made through the Python interface, one of them with arguments given by name or left at their defaults";
const unsigned long QUICK_CASES = 30000, THOROUGH_CASES = 400000;

namespace py = pybind11;
extern "C" void verif_pybind_init(py::module_&);
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }
double plain_velocities(void*, void*, double&, double, void*);
double plain_optimise(void*, std::vector<double>, std::vector<double>&, double&, int, double, bool, const std::vector<bool>&, int, std::string&);

typedef py::object O; typedef py::objects OS;
struct Arg { const char* name; O v; };

static py::module_& module()
{
    static py::module_ m; static bool done = false;
    if (!done) {
        done = true; verif_pybind_init(m);
        // the containers that the documentation lists
        const std::pair<const char*, std::type_index> doc[] = {{"VectorBool", typeid(std::vector<bool>)}, {"VectorDouble", typeid(Vec)}, {"VectorInt", typeid(std::vector<int>)}, {"VectorUnsignedInt", typeid(std::vector<unsigned>)},
            {"VectorBoundaryPoint", typeid(std::vector<BoundaryPoint>)}, {"VectorBoundarySegment", typeid(std::vector<BoundarySegment>)}, {"VectorCoord", typeid(std::vector<Coord>)}, {"VectorElement", typeid(std::vector<slsm::Element>)}, {"VectorHole", typeid(std::vector<Hole>)}, {"VectorNode", typeid(std::vector<slsm::Node>)},
            {"BoundaryPoint", typeid(BoundaryPoint)}, {"BoundarySegment", typeid(BoundarySegment)}, {"Boundary", typeid(Boundary)}, {"FastMarchingMethod", typeid(slsm::FastMarchingMethod)}, {"Coord", typeid(Coord)}, {"Hole", typeid(Hole)}, {"MutableFloat", typeid(slsm::MutableFloat)},
            {"InputOutput", typeid(slsm::InputOutput)}, {"LevelSet", typeid(LevelSet)}, {"MersenneTwister", typeid(MersenneTwister)}, {"Element", typeid(slsm::Element)}, {"Node", typeid(slsm::Node)}, {"Mesh", typeid(Mesh)}, {"Optimise", typeid(slsm::Optimise)}, {"Callback", typeid(slsm::Callback)}, {"Sensitivity", typeid(slsm::Sensitivity)}};
        for (auto& q : doc) { auto it = m.classes.find(q.first); if (it == m.classes.end() || it->second->type != q.second) fail("the module does not offer the class %s", q.first); }
    }
    return m;
}
static int calls, fancy;
static O num(Src& s, double v) { if (v != 0 && v == std::floor(v) && std::fabs(v) < 1e9 && s.chance(1, 2)) { O o; o.kind = O::INT; o.i = (long long) v; return o; } return py::cast(v); }
static O list(const OS& v) { O o; o.kind = O::LIST; o.list = v; return o; }

// a call with some of the trailing arguments by name
static O callOn(Src& s, const py::type_entry& t, const char* name, OS pos, const std::vector<Arg>& args, size_t optional = 0)
{
    auto it = t.methods.find(name); if (it == t.methods.end()) fail("%s has no %s", t.name.c_str(), name);
    size_t np = args.size(), self = pos.size(); if (np && s.chance(1, 2)) np = s.draw(np + 1);
    bool known = false;
    for (auto& o : it->second) {
        bool all = o.n >= self + args.size() && o.args.size() == o.n; for (size_t k = np; k < args.size() && all; k++) { bool f = false; for (auto& a : o.args) if (a.name == args[k].name) f = true; all = f; }
        if (all) known = true;
    }
    if (!known) {
        // methods bound without argument names take their arguments by position only
        std::string names; for (size_t k = np; k < args.size(); k++) names += std::string(k > np ? ", " : "") + args[k].name;
        for (auto& o : it->second) if (np < args.size() && args[np].name[0] && t.name.compare(0, 6, "Vector") && o.args.size() > self && o.n >= self + args.size()) fail("%s.%s does not take %s by name", t.name.c_str(), name, names.c_str());
        np = args.size();
    }
    py::kwargs kw; for (size_t k = 0; k < args.size(); k++) if (k < np) pos.push_back(args[k].v); else kw[args[k].name] = args[k].v;
    calls++; if (np < args.size()) { s.label("arguments by name"); fancy++; } if (optional) { s.label("arguments left at their defaults"); fancy++; }
    try { return py::call(t, name, pos, kw); }
    catch (const py::type_error& e) { fail("%s.%s with %zu arguments, %zu of them by name: %s", t.name.c_str(), name, args.size(), args.size() - np, e.what()); }
    catch (const py::attribute_error& e) { fail("%s", e.what()); }
}
static const py::type_entry& cls(const char* n) { auto it = module().classes.find(n); if (it == module().classes.end()) fail("the module has no class %s", n); return *it->second; }
static const py::type_entry& typeOf(const O& o) { auto it = py::registered().find(o.type); if (o.kind != O::INST || it == py::registered().end()) fail("a value of a type unknown to Python"); return *it->second; }
static O make(Src& s, const char* c, const std::vector<Arg>& a = {}, size_t optional = 0) { return callOn(s, cls(c), "__init__", {}, a, optional); }
static O on(Src& s, const O& self, const char* m, const std::vector<Arg>& a = {}, size_t optional = 0) { return callOn(s, typeOf(self), m, {self}, a, optional); }
static O attr(const O& o, const char* n)
{
    const py::type_entry& t = typeOf(o); auto it = t.attributes.find(n); if (it == t.attributes.end()) fail("%s has no attribute %s", t.name.c_str(), n);
    try { return it->second.get(o); } catch (const py::type_error& e) { fail("%s.%s: %s", t.name.c_str(), n, e.what()); }
}
static void put(const O& o, const char* n, const O& v)
{
    const py::type_entry& t = typeOf(o); auto it = t.attributes.find(n); if (it == t.attributes.end()) fail("%s has no attribute %s", t.name.c_str(), n);
    if (!it->second.set) fail("%s.%s cannot be assigned", t.name.c_str(), n);
    if (!it->second.set(o, v)) fail("%s.%s does not take the value", t.name.c_str(), n);
}
template <class T> static T& as(const O& o, const char* what) { if (o.kind != O::INST || o.type != std::type_index(typeid(T))) fail("%s is not of the type expected", what); return *(T*) o.ptr; }
static void sameNum(const O& o, double want, const char* what)
{
    double g; if (o.kind == O::FLOAT) g = o.d; else if (o.kind == O::INT || o.kind == O::BOOL) g = (double) o.i; else fail("%s is not a number", what);
    if (hashd(g) != hashd(want) && g != want) fail("%s is %.17g from Python, %.17g from C++", what, g, want);
}
static void attrNum(const O& o, const char* n, double want) { sameNum(attr(o, n), want, n); }
static void attrCoord(const O& o, const char* n, const Coord& c) { O q = attr(o, n); as<Coord>(q, n); attrNum(q, "x", c.x); attrNum(q, "y", c.y); }
template <class T> static void attrVec(const O& o, const char* n, const std::vector<T>& want) { O q = attr(o, n); if (!(as<std::vector<T>>(q, n) == want)) fail("%s.%s differs from the C++ vector", typeOf(o).name.c_str(), n); }
static void attrVec(const O& o, const char* n, const Vec& want) { O q = attr(o, n); if (!same(as<Vec>(q, n), want)) fail("%s.%s differs from the C++ vector", typeOf(o).name.c_str(), n); }
static O item(Src& s, const O& v, size_t i) { return on(s, v, "__getitem__", {{"i", py::cast((long) i)}}); }

static void samePoint(Src&, const O& p, const BoundaryPoint& c)
{
    attrCoord(p, "coord", c.coord); attrCoord(p, "normal", c.normal); attrNum(p, "length", c.length); attrNum(p, "velocity", c.velocity); attrNum(p, "negativeLimit", c.negativeLimit);
    attrNum(p, "positiveLimit", c.positiveLimit); attrNum(p, "isDomain", c.isDomain); attrNum(p, "isFixed", c.isFixed); attrNum(p, "nSegments", c.nSegments); attrNum(p, "nNeighbours", c.nNeighbours);
    attrVec(p, "segments", c.segments); attrVec(p, "neighbours", c.neighbours); attrVec(p, "sensitivities", c.sensitivities);
}
// raw comparison of points (velocities and so on) without the attribute table
static void requirePoints(const std::vector<BoundaryPoint>& a, const std::vector<BoundaryPoint>& b, const char* op)
{
    REQUIRE(a.size() == b.size(), "%s: %zu boundary points from Python, %zu from C++", op, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) {
        const BoundaryPoint &p = a[i], &q = b[i]; double u[] = {p.coord.x, p.coord.y, p.normal.x, p.normal.y, p.length, p.velocity, p.negativeLimit, p.positiveLimit}, v[] = {q.coord.x, q.coord.y, q.normal.x, q.normal.y, q.length, q.velocity, q.negativeLimit, q.positiveLimit};
        static const char* n[] = {"x", "y", "normal x", "normal y", "length", "velocity", "negative limit", "positive limit"};
        for (int k = 0; k < 8; k++) if (hashd(u[k]) != hashd(v[k])) fail("%s: %s of boundary point %zu is %.17g from Python, %.17g from C++", op, n[k], i, u[k], v[k]);
        REQUIRE(p.isDomain == q.isDomain && p.isFixed == q.isFixed && p.segments == q.segments && p.neighbours == q.neighbours && same(p.sensitivities, q.sensitivities), "%s: boundary point %zu differs", op, i);
    }
}

static O vecHoles(Src& s, const std::vector<Hole>& v)
{
    bool app = s.chance(1, 2); OS l; O r; if (app) r = make(s, "VectorHole");
    for (auto& h : v) {
        O q = s.chance(1, 2) ? make(s, "Hole", {{"x", num(s, h.coord.x)}, {"y", num(s, h.coord.y)}, {"r", num(s, h.r)}}) : make(s, "Hole", {{"coord", make(s, "Coord", {{"x", num(s, h.coord.x)}, {"y", num(s, h.coord.y)}})}, {"r", num(s, h.r)}});
        if (s.chance(1, 6)) { q = make(s, "Hole"); O c = make(s, "Coord"); put(c, "y", num(s, h.coord.y)); put(c, "x", num(s, h.coord.x)); put(q, "r", num(s, h.r)); put(q, "coord", c); }
        attrCoord(q, "coord", h.coord); attrNum(q, "r", h.r);
        if (app) on(s, r, "append", {{"x", q}}); else l.push_back(q);
    }
    return app ? r : make(s, "VectorHole", {{"x", list(l)}});
}
static O vecCoords(Src& s, const std::vector<Coord>& v)
{
    bool app = s.chance(1, 2); OS l; O r; if (app) r = make(s, "VectorCoord");
    for (auto& h : v) { O q = make(s, "Coord", {{"x", num(s, h.x)}, {"y", num(s, h.y)}}); attrNum(q, "x", h.x); attrNum(q, "y", h.y); if (app) on(s, r, "append", {{"x", q}}); else l.push_back(q); }
    return app ? r : make(s, "VectorCoord", {{"x", list(l)}});
}
static O vecDoubles(Src& s, const Vec& v)
{
    if (v.empty() && s.chance(1, 2)) return make(s, "VectorDouble");
    OS l; for (double d : v) l.push_back(num(s, d));
    return make(s, "VectorDouble", {{"x", list(l)}});
}

struct World {
    O pl; LevelSet* l; LS c; O pb; Boundary* pbp; Boundary b; bool have = false; int w, h; O prng; MersenneTwister rng; MersenneTwister* prngp;
};

static void construct(Src& s, World& t)
{
    static const double mls[] = {0.5, 0.1, 0.25, 0.75, 0.9}; static const unsigned bands[] = {6, 3, 4, 5, 8};
    double ml = s.pick(std::vector<double>(mls, mls + 5)); unsigned band = bands[s.draw(5)]; bool fx = s.chance(1, 3); int given = (int) s.weighted({1, 1, 1, 2});
    unsigned kind = s.weighted({3, 3, 2, 2, 2, 0}); if (s.chance(1, 300)) kind = 5;
    bool cw; std::vector<Hole> h1 = genHoles(s, t.w, t.h), h2 = genHoles(s, t.w, t.h); std::vector<Coord> p1 = genPolygon(s, t.w, t.h, cw), p2 = genPolygon(s, t.w, t.h, cw);
    if (kind == 5) { t.w = (int) s.range(75, 90); t.h = (int) s.range(75, 90); }
    std::vector<Arg> a = {{"width", py::cast(t.w)}, {"height", py::cast(t.h)}};
    switch (kind) {
        case 0: a.push_back({"holes", vecHoles(s, h1)}); break;
        case 1: a.push_back({"points", vecCoords(s, p1)}); break;
        case 2: a.push_back({"initialHoles", vecHoles(s, h1)}); a.push_back({"targetHoles", vecHoles(s, h2)}); break;
        case 3: a.push_back({"initialHoles", vecHoles(s, h1)}); a.push_back({"targetPoints", vecCoords(s, p2)}); break;
        case 4: a.push_back({"initialPoints", vecCoords(s, p1)}); a.push_back({"targetPoints", vecCoords(s, p2)}); break;
    }
    static const char* kn[] = {"from holes", "from points", "holes to holes", "holes to points", "points to points", "default holes"}; s.label(kn[kind]); s.desc("%dx%d %s, %d optional arguments", t.w, t.h, kn[kind], given);
    if (given > 0) a.push_back({"moveLimit", py::cast(ml)}); if (given > 1) a.push_back({"bandWidth", py::cast(band)}); if (given > 2) a.push_back({"isFixedDomain", py::cast(fx)});
    // an argument of the middle may be left out when those behind it are named
    int drop = -1; if (given == 3 && s.chance(1, 3)) { drop = (int) s.draw(2); if (drop == 0) ml = 0.5; else band = 6; }
    if (drop >= 0) {
        size_t base = a.size() - 3; OS pos; py::kwargs kw; for (size_t k = 0; k < base; k++) pos.push_back(a[k].v); for (size_t k = base; k < a.size(); k++) if ((int) (k - base) != drop) kw[a[k].name] = a[k].v;
        const py::type_entry& ty = cls("LevelSet"); bool known = false; for (auto& o : ty.methods.at("__init__")) { size_t f = 0; for (auto& x : o.args) if (kw.count(x.name)) f++; if (f == kw.size()) known = true; }
        if (!known) fail("LevelSet does not take the arguments after the %dth by name", (int) base); { s.label("an argument in the middle left at its default"); fancy++; calls++; try { t.pl = py::call(ty, "__init__", pos, kw); } catch (const py::type_error& e) { fail("LevelSet with named arguments: %s", e.what()); } }
    }
    if (drop < 0) t.pl = make(s, "LevelSet", a, 3 - given);
    t.l = &as<LevelSet>(t.pl, "LevelSet"); unsigned W = t.w, H = t.h;
#define GIVE(...) given == 0 ? new LevelSet(__VA_ARGS__) : given == 1 ? new LevelSet(__VA_ARGS__, ml) : given == 2 ? new LevelSet(__VA_ARGS__, ml, band) : new LevelSet(__VA_ARGS__, ml, band, fx)
    t.c.reset(kind == 0 ? (GIVE(W, H, h1)) : kind == 1 ? (GIVE(W, H, p1)) : kind == 2 ? (GIVE(W, H, h1, h2)) : kind == 3 ? (GIVE(W, H, h1, p2)) : kind == 4 ? (GIVE(W, H, p1, p2)) : (GIVE(W, H)));
    attrNum(t.pl, "moveLimit", t.c->moveLimit);
}

static void compare(World& t, const char* op)
{
    requireSame(Snapshot(*t.l), Snapshot(*t.c), K_ALL, op);
    REQUIRE(t.l->area == t.c->area || (t.l->area != t.l->area), "%s: area %.17g from Python, %.17g from C++", op, t.l->area, t.c->area);
    if (t.have) {
        requirePoints(t.pbp->points, t.b.points, op);
        REQUIRE(t.pbp->segments.size() == t.b.segments.size() && t.pbp->length == t.b.length, "%s: the boundary's segments differ", op);
        for (size_t e = 0; e < t.c->mesh.elements.size(); e++) REQUIRE(t.l->mesh.elements[e].status == t.c->mesh.elements[e].status && hashd(t.l->mesh.elements[e].area) == hashd(t.c->mesh.elements[e].area), "%s: element %zu differs", op, e);
    }
}

static bool discretise(Src& s, World& t)
{
    if (!hasInterface(ref::Grid(t.w, t.h), t.c->signedDistance)) return false;
    if (!t.pbp || s.chance(1, 4)) { t.pb = make(s, "Boundary"); t.pbp = &as<Boundary>(t.pb, "Boundary"); t.b = Boundary(); }
    bool tgt = t.c->target.size() == t.c->signedDistance.size() && s.chance(1, 8), dflt = !tgt && s.chance(1, 2);
    std::vector<Arg> a = {{"levelSet", t.pl}}; if (!dflt) a.push_back({"isTarget", py::cast(tgt)});
    on(s, t.pb, "discretise", a, dflt);
    if (dflt) t.b.discretise(*t.c); else t.b.discretise(*t.c, tgt);
    t.have = true; compare(t, "discretise");
    return !t.b.points.empty() && !tgt;
}

static void velocities(Src& s, World& t)
{
    genVelocities(s, t.b); O v = attr(t.pb, "points"); as<std::vector<BoundaryPoint>>(v, "points");
    for (size_t i = 0; i < t.b.points.size(); i++) { put(item(s, v, i), "velocity", py::cast(t.b.points[i].velocity)); }
    calls -= (int) t.b.points.size();
    requirePoints(t.pbp->points, t.b.points, "assigning velocities");
}

static std::string number(unsigned v) { return io::number(v); }

static void fileOp(Src& s, World& t, const io::Dir& dir)
{
    static const char* names[] = {"saveLevelSetVTK", "saveLevelSetTXT", "saveLevelSetBIN", "saveBoundaryPointsTXT", "saveBoundarySegmentsTXT", "saveAreaFractionsVTK", "saveAreaFractionsTXT", "loadLevelSetTXT", "loadLevelSetBIN"};
    unsigned op = (unsigned) s.draw(9); if ((op == 3 || op == 4) && !t.have) op = 0;
    bool numbered = s.chance(1, 2), xy = s.chance(1, 2), vel = s.chance(1, 2), grad = s.chance(1, 2); unsigned dp = (unsigned) s.range(0, 12000); std::string sub = s.chance(1, 2) ? "out" : "", name = s.chance(1, 2) ? "some file" : "x.bin"; int given = (int) s.draw(3);
    s.label(names[op]); s.desc("%s %s", names[op], numbered ? "numbered" : "named");
    O f = make(s, "InputOutput"); slsm::InputOutput c; const char* nm = names[op]; size_t optional = 0;
    mkdir("py", 0700); mkdir("py/out", 0700); mkdir("cpp", 0700); mkdir("cpp/out", 0700);
    O P = py::cast(dp), N = py::cast(name), L = t.pl, B = t.pb, S = py::cast(sub), XY = py::cast(xy), V = py::cast(vel), G = py::cast(grad); std::vector<Arg> a; std::function<void()> run; LevelSet& ls = *t.c; Boundary& b = t.b;
    Vec keep = ls.signedDistance;
    if (op >= 7) {      // something different to load, made by C++
        for (double& v : ls.signedDistance) v *= 0.75;
        for (const char* d : {"py", "cpp"}) {
            if (chdir((dir.path + "/" + d).c_str())) abort();
            if (op == 7) { if (numbered) c.saveLevelSetTXT(dp, ls, sub, xy); else c.saveLevelSetTXT(name, ls, xy); } else { if (numbered) c.saveLevelSetBIN(dp, ls, sub); else c.saveLevelSetBIN(name, ls); }
        }
        ls.signedDistance = keep;
    }
    if (numbered) {
        a = {{"datapoint", P}};
        switch (op) {
            case 0: a.push_back({"levelSet", L}); { Arg o[] = {{"isVelocity", V}, {"isGradient", G}, {"outputDirectory", S}}; given = (int) s.draw(4); if (given < 3) sub = ""; for (int k = 0; k < given; k++) a.push_back(o[k]); optional = 3 - given; }
                run = [&]() { if (given == 0) c.saveLevelSetVTK(dp, ls); else if (given == 1) c.saveLevelSetVTK(dp, ls, vel); else if (given == 2) c.saveLevelSetVTK(dp, ls, vel, grad); else c.saveLevelSetVTK(dp, ls, vel, grad, sub); }; break;
            case 1: case 7: a.push_back({"levelSet", L}); if (op == 7) given = 2; { Arg o[] = {{"outputDirectory", S}, {"isXY", XY}}; for (int k = 0; k < given; k++) a.push_back(o[k]); optional = 2 - given; }
                if (op == 1) run = [&]() { if (given == 0) c.saveLevelSetTXT(dp, ls); else if (given == 1) c.saveLevelSetTXT(dp, ls, sub); else c.saveLevelSetTXT(dp, ls, sub, xy); };
                else run = [&]() { c.loadLevelSetTXT(dp, ls, sub, xy); };
                if (op == 7 && !xy && s.chance(1, 2)) { a.pop_back(); optional++; if (sub.empty() && s.chance(1, 2)) { a.pop_back(); optional++; } } break;
            case 2: case 8: a.push_back({"levelSet", L}); given = sub.empty() ? given % 2 : 1; if (given) a.push_back({"outputDirectory", S}); optional = 1 - given;
                if (op == 2) run = [&]() { c.saveLevelSetBIN(dp, ls, sub); }; else run = [&]() { c.loadLevelSetBIN(dp, ls, sub); }; break;
            case 3: case 4: a.push_back({"boundary", B}); given = sub.empty() ? given % 2 : 1; if (given) a.push_back({"outputDirectory", S}); optional = 1 - given;
                if (op == 3) run = [&]() { c.saveBoundaryPointsTXT(dp, b, sub); }; else run = [&]() { c.saveBoundarySegmentsTXT(dp, b, sub); }; break;
            case 5: a.push_back({"mesh", attr(t.pl, "mesh")}); given = sub.empty() ? given % 2 : 1; if (given) a.push_back({"outputDirectory", S}); optional = 1 - given; run = [&]() { c.saveAreaFractionsVTK(dp, ls.mesh, sub); }; break;
            default: a.push_back({"mesh", attr(t.pl, "mesh")}); { Arg o[] = {{"outputDirectory", S}, {"isXY", XY}}; for (int k = 0; k < given; k++) a.push_back(o[k]); optional = 2 - given; }
                run = [&]() { if (given == 0) c.saveAreaFractionsTXT(dp, ls.mesh); else if (given == 1) c.saveAreaFractionsTXT(dp, ls.mesh, sub); else c.saveAreaFractionsTXT(dp, ls.mesh, sub, xy); };
        }
    }
    else {
        const char* fn = op == 1 || op == 7 ? "filename" : "fileName"; a = {{fn, N}};
        switch (op) {
            case 0: a.push_back({"levelSet", L}); { Arg o[] = {{"isVelocity", V}, {"isGradient", G}}; for (int k = 0; k < given; k++) a.push_back(o[k]); optional = 2 - given; }
                run = [&]() { if (given == 0) c.saveLevelSetVTK(name, ls); else if (given == 1) c.saveLevelSetVTK(name, ls, vel); else c.saveLevelSetVTK(name, ls, vel, grad); }; break;
            case 1: case 7: a.push_back({"levelSet", L}); given = xy ? 1 : given % 2; if (given) a.push_back({"isXY", XY}); optional = 1 - given; if (op == 1) run = [&]() { c.saveLevelSetTXT(name, ls, xy); }; else run = [&]() { c.loadLevelSetTXT(name, ls, xy); }; break;
            case 2: a.push_back({"levelSet", L}); run = [&]() { c.saveLevelSetBIN(name, ls); }; break;
            case 8: a.push_back({"levelSet", L}); run = [&]() { c.loadLevelSetBIN(name, ls); }; break;
            case 3: a.push_back({"boundary", B}); run = [&]() { c.saveBoundaryPointsTXT(name, b); }; break;
            case 4: a.push_back({"boundary", B}); run = [&]() { c.saveBoundarySegmentsTXT(name, b); }; break;
            case 5: a.push_back({"mesh", attr(t.pl, "mesh")}); run = [&]() { c.saveAreaFractionsVTK(name, ls.mesh); }; break;
            default: a.push_back({"mesh", attr(t.pl, "mesh")}); given = xy ? 1 : given % 2; if (given) a.push_back({"isXY", XY}); optional = 1 - given; run = [&]() { c.saveAreaFractionsTXT(name, ls.mesh, xy); };
        }
    }
    if (chdir((dir.path + "/py").c_str())) abort();
    on(s, f, nm, a, optional);
    if (chdir((dir.path + "/cpp").c_str())) abort();
    run();
    if (chdir(dir.path.c_str())) abort();
    for (const char* d : {"/", "/out/"}) {
        io::Lines x = io::list("py" + std::string(d)), y = io::list("cpp" + std::string(d));
        if (x != y) { std::string r; for (auto& q : x) r += " " + q; r += " and"; for (auto& q : y) r += " " + q; fail("%s: files from Python and C++ are named%s", nm, r.c_str()); }
        for (auto& q : x) if (q != "out") REQUIRE(io::slurp("py" + (d + q)) == io::slurp("cpp" + (d + q)), "%s writes another file from Python than from C++", nm);
    }
    if (op >= 7) { compare(t, nm); on(s, t.pl, "reinitialise"); t.c->reinitialise(); }
    io::Dir::clear(dir.path + "/py"); io::Dir::clear(dir.path + "/cpp"); rmdir("py"); rmdir("cpp");
    compare(t, nm);
}

static void attributes(Src& s, World& t)
{
    s.label("attributes read");
    attrVec(t.pl, "signedDistance", t.c->signedDistance); attrVec(t.pl, "velocity", t.c->velocity); attrVec(t.pl, "gradient", t.c->gradient); attrVec(t.pl, "target", t.c->target); attrNum(t.pl, "moveLimit", t.c->moveLimit);
    if (t.c->area == t.c->area && t.have) { double a = t.l->area; if (a == a) attrNum(t.pl, "area", a); }
    O m = attr(t.pl, "mesh"); as<Mesh>(m, "mesh"); attrNum(m, "width", t.w); attrNum(m, "height", t.h); attrNum(m, "nElements", t.w * t.h); attrNum(m, "nNodes", (t.w + 1) * (t.h + 1));
    O nodes = attr(m, "nodes"), els = attr(m, "elements"); as<std::vector<slsm::Node>>(nodes, "nodes"); as<std::vector<slsm::Element>>(els, "elements");
    sameNum(on(s, nodes, "__len__"), (t.w + 1) * (t.h + 1), "len(nodes)"); sameNum(on(s, els, "__len__"), t.w * t.h, "len(elements)");
    for (int k = 0; k < 4; k++) {
        size_t i = s.draw(t.c->mesh.nodes.size()), e = s.draw(t.c->mesh.elements.size()); O n = item(s, nodes, i), q = item(s, els, e);
        attrCoord(n, "coord", t.c->mesh.nodes[i].coord); attrVec(n, "neighbours", t.c->mesh.nodes[i].neighbours);
        attrCoord(q, "coord", t.c->mesh.elements[e].coord); double a = t.l->mesh.elements[e].area; if (a == a) attrNum(q, "area", a);
    }
    if (!t.have) return;
    attrNum(t.pb, "nPoints", t.b.nPoints); attrNum(t.pb, "nSegments", t.b.nSegments); attrNum(t.pb, "length", t.b.length);
    O p = attr(t.pb, "points"), g = attr(t.pb, "segments"); as<std::vector<BoundaryPoint>>(p, "points"); as<std::vector<BoundarySegment>>(g, "segments");
    sameNum(on(s, p, "__len__"), t.b.points.size(), "len(points)"); sameNum(on(s, g, "__len__"), t.b.segments.size(), "len(segments)");
    for (int k = 0; k < 4 && !t.b.points.empty(); k++) { size_t i = s.draw(t.b.points.size()); samePoint(s, item(s, p, i), t.b.points[i]); }
    for (int k = 0; k < 4 && !t.b.segments.empty(); k++) {
        size_t i = s.draw(t.b.segments.size()); O q = item(s, g, i); const BoundarySegment& c = t.b.segments[i];
        attrNum(q, "start", c.start); attrNum(q, "end", c.end); attrNum(q, "element", c.element); attrNum(q, "length", c.length); attrNum(q, "weight", c.weight);
    }
}

static void assign(Src& s, World& t)
{
    s.label("attributes assigned");
    size_t i = s.draw(t.c->signedDistance.size()); double v = s.real(-2, 2); unsigned k = (unsigned) s.draw(6);
    if (k == 0) { on(s, attr(t.pl, "velocity"), "__setitem__", {{"i", py::cast((long) i)}, {"x", num(s, v)}}); t.c->velocity[i] = v; }
    else if (k == 1) { on(s, attr(t.pl, "gradient"), "__setitem__", {{"i", py::cast((long) i)}, {"x", num(s, v)}}); t.c->gradient[i] = v; }
    else if (k == 2) { double q = t.c->signedDistance[i] * 0.9; on(s, attr(t.pl, "signedDistance"), "__setitem__", {{"i", py::cast((long) i)}, {"x", py::cast(q)}}); t.c->signedDistance[i] = q; }
    else if (k == 3 && !t.c->target.empty()) { on(s, attr(t.pl, "target"), "__setitem__", {{"i", py::cast((long) i)}, {"x", num(s, v)}}); t.c->target[i] = v; }
    else if (k == 4) { Vec f = t.c->signedDistance; put(t.pl, "target", vecDoubles(s, f)); t.c->target = f; put(t.pl, "velocity", vecDoubles(s, f)); t.c->velocity = f; put(t.pl, "gradient", vecDoubles(s, f)); t.c->gradient = f; put(t.pl, "signedDistance", vecDoubles(s, f)); }
    else if (t.have && !t.b.points.empty()) {
        size_t j = s.draw(t.b.points.size()); O p = item(s, attr(t.pb, "points"), j); BoundaryPoint& c = t.b.points[j]; double r = s.real(0, 0.3);
        put(p, "negativeLimit", num(s, -r)); c.negativeLimit = -r; put(p, "positiveLimit", num(s, r)); c.positiveLimit = r; put(p, "velocity", num(s, v)); c.velocity = v;
        bool d = s.chance(1, 2); put(p, "isDomain", py::cast(d)); c.isDomain = d; d = s.chance(1, 2); put(p, "isFixed", py::cast(d)); c.isFixed = d;
        if (s.chance(1, 2) && c.sensitivities.size() > 1) { on(s, attr(p, "sensitivities"), "__setitem__", {{"i", py::cast(1)}, {"x", num(s, v)}}); c.sensitivities[1] = v; on(s, attr(p, "sensitivities"), "__setitem__", {{"i", py::cast(0)}, {"x", num(s, -v)}}); c.sensitivities[0] = -v; }
        else { put(p, "sensitivities", vecDoubles(s, {v, 2, -1})); c.sensitivities = {v, 2, -1}; }
    }
    compare(t, "assigning attributes");
}

static void optimise(Src& s)
{
    s.label("Optimise");
    opt::Problem p = opt::gen(s, true); double steer = s.uniform(-1, 1);
    nlopt::stub_solver = [&](nlopt::opt& o, std::vector<double>& x, double& f) -> nlopt::result {
        Vec g(o.n, 0); f = o.objective.f(x, g, o.objective.data);
        for (unsigned j = 0; j < o.n; j++) { double d = (o.ub[j] - o.lb[j]) * 0.3; x[j] = std::min(o.ub[j], std::max(o.lb[j], x[j] + (g[j] > 0 ? d : -d) * (o.maximise ? 1 : -1) + steer * d * (o.order.size() > j && o.order[j] ? 1 : -0.5))); }
        Vec none; f = o.objective.f(x, none, o.objective.data); return nlopt::XTOL_REACHED; };
    int given = p.defaultEq ? (int) s.draw(3) : 3, solves = s.chance(1, 5) ? 2 : 1; double dt = s.real(0, 2);
    O pts = make(s, "VectorBoundaryPoint"), eq = make(s, "VectorBool"); for (auto& q : p.pts) { on(s, pts, "append", {{"x", py::cast(q)}}); } for (bool e : p.eq) on(s, eq, "append", {{"x", py::cast(e)}});
    O dist = vecDoubles(s, p.dist), lam = vecDoubles(s, p.lambda0), step = make(s, "MutableFloat", {{"value", num(s, dt)}});
    if (s.chance(1, 3)) { step = make(s, "MutableFloat"); attrNum(step, "value", 0); put(step, "value", num(s, dt)); }
    // a bool vector may also be built from a list
    if (s.chance(1, 2)) { OS l; for (bool e : p.eq) l.push_back(py::cast(e)); eq = make(s, "VectorBool", {{"x", list(l)}}); }
    calls = 0;
    std::vector<Arg> a = {{"boundaryPoints", pts}, {"constraindDistances", dist}, {"lambdas", lam}, {"timeStep", step}}; Arg o[] = {{"maxDisplacement", py::cast(p.ml)}, {"isMax", py::cast(p.isMax)}, {"isEquality", eq}};
    for (int k = 0; k < given; k++) a.push_back(o[k]);
    s.desc("%d optional arguments, %d solves", given, solves);
    std::vector<BoundaryPoint> cp = p.pts; Vec cl = p.lambda0; double cdt = dt; std::string printed; double want = plain_optimise(&cp, p.dist, cl, cdt, given, p.ml, p.isMax, p.eq, solves, printed), got = 0;
    O f = make(s, "Optimise", a, 3 - given);
    for (int k = 0; k < solves; k++) { O r = on(s, f, "solve"); sameNum(r, r.d, "the value solve returns"); got = r.d; }
    REQUIRE(hashd(got) == hashd(want), "solve returns %.17g from Python, %.17g from C++", got, want);
    std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{old};
    on(s, f, "queryReturnCode"); REQUIRE(os.str() == printed, "queryReturnCode prints '%s' from Python, '%s' from C++", os.str().c_str(), printed.c_str());
    requirePoints(as<std::vector<BoundaryPoint>>(pts, "points"), cp, "Optimise"); REQUIRE(same(as<Vec>(lam, "lambdas"), cl), "Optimise: the multipliers differ");
    attrNum(step, "value", cdt);
    REQUIRE(same(as<Vec>(dist, "distances"), p.dist), "Optimise changed the constraint distances");
    s.nontrivial(fancy > 0);
}

static void twister(Src& s)
{
    s.label("MersenneTwister"); O g = make(s, "MersenneTwister"); MersenneTwister c; calls = 0; fancy = 0;
    as<MersenneTwister>(g, "MersenneTwister");
    // the seed drawn at construction reproduces the sequence
    if (s.chance(1, 2)) { O q = on(s, g, "getSeed"); REQUIRE(q.kind == O::INT && q.i >= 0, "getSeed does not return a non-negative integer"); c.setSeed((unsigned) q.i); s.label("seeded by the device"); }
    else { unsigned v = (unsigned) s.draw(0xffffffffull); on(s, g, "setSeed", {{"", py::cast(v)}}); c.setSeed(v); sameNum(on(s, g, "getSeed"), v, "getSeed"); }
    int n = (int) s.range(2, 12); long lo = s.range(-50, 50), hi = lo + s.range(0, 1000); double m = s.real(-3, 3), sd = s.real(0.1, 4);
    for (int k = 0; k < n; k++) switch (s.draw(5)) {
        case 0: sameNum(on(s, g, "__call__"), c(), "a uniform draw"); break;
        case 1: sameNum(on(s, g, "integer", {{"lower", py::cast(lo)}, {"upper", py::cast(hi)}}), c.integer((int) lo, (int) hi), "an integer draw"); fancy++; break;
        case 2: sameNum(on(s, g, "normal"), c.normal(), "a normal draw"); break;
        case 3: sameNum(on(s, g, "normal", {{"mean", num(s, m)}, {"variance", num(s, sd)}}), c.normal(m, sd), "a normal draw with parameters"); fancy++; break;
        default: { unsigned v = (unsigned) s.draw(100000); on(s, g, "setSeed", {{"", py::cast(v)}}); c.setSeed(v); }
    }
    s.nontrivial(calls >= 4 && fancy > 0);
}

// the plain records, made from Python, changed and put into their containers
static void records(Src& s)
{
    s.label("records"); static const char* kinds[][2] = {{"BoundaryPoint", "VectorBoundaryPoint"}, {"BoundarySegment", "VectorBoundarySegment"}, {"Element", "VectorElement"}, {"Node", "VectorNode"}, {"Coord", "VectorCoord"}, {"Hole", "VectorHole"}};
    static const char* fields[] = {"velocity", "negativeLimit", "positiveLimit"};
    for (auto& k : kinds) {
        O v = make(s, k[1]); long n = s.range(1, 3); std::vector<OS> want;
        for (long i = 0; i < n; i++) {
            O r = make(s, k[0]); if (r.kind != O::INST || r.type != cls(k[0]).type) fail("%s() makes something else", k[0]);
            if (&k == &kinds[0]) {
                BoundaryPoint& q = as<BoundaryPoint>(r, k[0]); for (const char* f : fields) { double a = s.uniform(-1, 1); put(r, f, num(s, a)); attrNum(r, f, a); }
                for (const char* f : {"isDomain", "isFixed"}) { bool b = s.chance(1, 2); put(r, f, py::cast(b)); attrNum(r, f, b); }
                Vec sens; for (int j = (int) s.range(0, 3); j >= 0; j--) sens.push_back(s.uniform(-1, 1)); put(r, "sensitivities", vecDoubles(s, sens)); attrVec(r, "sensitivities", sens); REQUIRE(same(q.sensitivities, sens), "sensitivities assigned from Python do not arrive");
            }
            if (&k == &kinds[4]) { double a = s.uniform(-9, 9), b = s.uniform(-9, 9); put(r, "x", num(s, a)); put(r, "y", num(s, b)); attrNum(r, "x", a); attrNum(r, "y", b); }
            on(s, v, "append", {{"x", r}}); O back = item(s, v, (size_t) i); if (back.kind != O::INST || back.type != r.type) fail("%s gives back something else", k[1]);
            if (&k == &kinds[0]) for (const char* f : fields) attrNum(back, f, f == fields[0] ? as<BoundaryPoint>(r, f).velocity : f == fields[1] ? as<BoundaryPoint>(r, f).negativeLimit : as<BoundaryPoint>(r, f).positiveLimit);
        }
        sameNum(on(s, v, "__len__"), n, "__len__");
    }
    s.nontrivial(true);
}

static void meshes(Src& s)
{
    if (s.chance(1, 3)) return records(s);
    s.label("Mesh"); Dims d = genDims(s, 1, 30); O m = make(s, "Mesh", {{"width", py::cast(d.w)}, {"height", py::cast(d.h)}}); Mesh c(d.w, d.h); as<Mesh>(m, "Mesh"); s.desc("%dx%d", d.w, d.h);
    attrNum(m, "width", d.w); attrNum(m, "height", d.h); attrNum(m, "nNodes", c.nNodes); attrNum(m, "nElements", c.nElements);
    for (int k = 0; k < 5; k++) {
        double x = s.real(0, d.w), y = s.real(0, d.h); bool cl = s.chance(1, 2), co = s.chance(1, 2); const char* n = cl ? "getClosestNode" : "getElement";
        O r = co ? on(s, m, n, {{"coord", make(s, "Coord", {{"x", num(s, x)}, {"y", num(s, y)}})}}) : on(s, m, n, {{"x", num(s, x)}, {"y", num(s, y)}});
        sameNum(r, cl ? c.getClosestNode(x, y) : c.getElement(x, y), n);
    }
    s.nontrivial(fancy > 0 && d.w != d.h);
}

void property(Src& s)
{
    try { module(); } catch (const Failure&) { throw; } catch (const std::exception& e) { fail("importing the module: %s", e.what()); }
    calls = fancy = 0;
    unsigned what = s.weighted({8, 2, 1, 1}); if (what == 1) return optimise(s); if (what == 2) return twister(s); if (what == 3) return meshes(s);
    io::Dir dir; World t; Dims d = genDims(s, 4, 16); t.w = d.w; t.h = d.h; t.l = nullptr; t.pbp = nullptr; t.prngp = nullptr;
    construct(s, t); compare(t, "construction"); ref::Grid g(t.w, t.h);
    discard_unless(hasInterface(g, t.c->signedDistance));
    t.prng = make(s, "MersenneTwister"); t.prngp = &as<MersenneTwister>(t.prng, "MersenneTwister"); unsigned seed = (unsigned) s.draw(100000); on(s, t.prng, "setSeed", {{"", py::cast(seed)}}); t.rng.setSeed(seed);
    calls = 0; bool fresh = false, vel = false; int n = (int) s.range(2, 9);
    for (int k = 0; k < n; k++) {
        if (!hasInterface(g, t.c->signedDistance)) break;
        unsigned op = s.weighted({4, 1, 1, 3, 2, 2, 2, 2, 3, 3, 2, 2, 2, 1});
        if (!fresh && (op >= 3 && op <= 8 && op != 6)) { if (!discretise(s, t)) continue; fresh = true; vel = false; }
        switch (op) {
            case 0: fresh = discretise(s, t); vel = false; break;
            case 1: on(s, t.pl, "reinitialise"); t.c->reinitialise(); fresh = vel = false; s.label("reinitialise"); compare(t, "reinitialise"); break;
            case 2: {
                Mask m = genMask(s, t.w, t.h); Vec f = t.c->signedDistance; bool pos = false;
                for (int i = 0; i < g.n(); i++) { int q = m.covers(g.X(i), g.Y(i)); if (q != 0) f[i] = -1e-6; else if (f[i] > 1e-6) pos = true; }
                if (!pos || !hasInterface(g, f)) break;
                if (m.kind == 0) on(s, t.pl, "mask", {{"holes", vecHoles(s, m.holes)}}); else on(s, t.pl, "mask", {{"points", vecCoords(s, m.points)}});
                m.apply(*t.c); fresh = vel = false; s.label("mask"); compare(t, "mask"); break; }
            case 3: {   // deterministic velocities
                velocities(s, t); on(s, t.pl, "computeVelocities", {{"boundaryPoints", attr(t.pb, "points")}}); t.c->computeVelocities(t.b.points); vel = true; s.label("computeVelocities"); compare(t, "computeVelocities"); break; }
            case 4: {   // thermal velocities: only the bindings' overload takes a MutableFloat
                velocities(s, t); double dt = s.real(0.05, 2), T = s.chance(1, 5) ? 0 : s.real(0.01, 2); O step = make(s, "MutableFloat", {{"value", num(s, dt)}});
                O r = on(s, t.pl, "computeVelocities", {{"boundaryPoints", attr(t.pb, "points")}, {"timeStep", step}, {"temperature", num(s, T)}, {"rng", t.prng}});
                double want = plain_velocities(t.c.get(), &t.b.points, dt, T, &t.rng); sameNum(r, want, "the time step scaling"); attrNum(step, "value", dt); vel = true; s.label("thermal velocities"); compare(t, "computeVelocities with noise"); break; }
            case 5: on(s, t.pb, "computeNormalVectors", {{"levelSet", t.pl}}); t.b.computeNormalVectors(*t.c); s.label("computeNormalVectors"); compare(t, "computeNormalVectors"); break;
            case 6: attributes(s, t); break;
            case 7: {   // areas
                O r = on(s, t.pl, "computeAreaFractions", {{"boundary", t.pb}}); double want = t.c->computeAreaFractions(t.b); sameNum(r, want, "the area"); attrNum(t.pl, "area", want); s.label("computeAreaFractions"); compare(t, "computeAreaFractions"); break; }
            case 8: {   // sensitivities
                size_t i = s.draw(t.b.points.size()); O p = item(s, attr(t.pb, "points"), i); bool dflt = s.chance(1, 2); double delta = s.real(1e-4, 0.4), kx = s.real(-2, 2), ky = s.real(-2, 2);
                O f = make(s, "Sensitivity", dflt ? std::vector<Arg>() : std::vector<Arg>{{"delta", num(s, delta)}}, dflt); std::unique_ptr<slsm::Sensitivity> c(dflt ? new slsm::Sensitivity() : new slsm::Sensitivity(delta));
                unsigned k2 = (unsigned) s.draw(4);
                if (k2 == 0) { O r = on(s, t.pb, "computePerimeter", {{"point", p}}); sameNum(r, t.b.computePerimeter(t.b.points[i]), "computePerimeter"); s.label("computePerimeter"); break; }
                if (k2 == 1 || s.chance(1, 2)) { on(s, t.pb, "computeNormalVectors", {{"levelSet", t.pl}}); t.b.computeNormalVectors(*t.c); }
                if (k2 == 1 || k2 == 2) {
                    auto fn = [kx, ky](const BoundaryPoint& q) { return kx * q.coord.x * q.coord.x + ky * q.coord.y * q.coord.x + q.length * q.coord.y; };
                    O pf; pf.kind = O::FUNC; pf.f = [fn](const OS& a) { return py::cast(fn(as<BoundaryPoint>(a.at(0), "the callback's argument"))); };
                    slsm::SensitivityCallback cb = fn; O h = make(s, "Callback"); put(h, "callback", pf);
                    if (s.chance(1, 2)) pf = attr(h, "callback");
                    O r = on(s, f, "computeSensitivity", {{"point", p}, {"callback", pf}}); double want = c->computeSensitivity(t.b.points[i], cb); sameNum(r, want, "computeSensitivity"); s.label("computeSensitivity");
                    for (size_t j = 0; j < t.b.points.size(); j++) if (t.b.points[j].sensitivities.empty()) break;
                    compare(t, "computeSensitivity"); break;
                }
                on(s, t.pb, "computeNormalVectors", {{"levelSet", t.pl}}); t.b.computeNormalVectors(*t.c);
                double T = s.real(0.01, 2); for (size_t j = 0; j < t.b.points.size(); j++) { double v = s.uniform(-1, 1); t.b.points[j].sensitivities[0] = v; put(item(s, attr(t.pb, "points"), j), "sensitivities", vecDoubles(s, t.b.points[j].sensitivities)); }
                if (s.chance(1, 2)) { on(s, f, "itoCorrection", {{"boundary", t.pb}, {"levelSet", t.pl}, {"temperature", num(s, T)}}); c->itoCorrection(t.b, *t.c, T); }
                else { on(s, f, "itoCorrection", {{"boundary", t.pb}, {"temperature", num(s, T)}}); c->itoCorrection(t.b, T); }
                s.label("itoCorrection"); compare(t, "itoCorrection"); break; }
            case 9: {   // an update
                if (!fresh || !vel) { if (!fresh && !discretise(s, t)) break; velocities(s, t); on(s, t.pl, "computeVelocities", {{"boundaryPoints", attr(t.pb, "points")}}); t.c->computeVelocities(t.b.points); }
                on(s, t.pl, "computeGradients"); t.c->computeGradients(); compare(t, "computeGradients"); double dt = s.real(0.05, 1);
                O r = on(s, t.pl, "update", {{"timeStep", num(s, dt)}}); sameNum(r, t.c->update(dt), "what update returns"); fresh = vel = false; s.label("update"); compare(t, "update"); break; }
            case 10: {  // fast marching
                bool dflt = s.chance(1, 2), test = !dflt && s.chance(1, 3), two = s.chance(1, 2); Vec f = t.c->signedDistance, v(f.size()); for (double& q : v) q = s.uniform(-1, 1); if (test) for (double& q : f) q *= 3;
                if (!hasInterface(g, f)) break; O pf = vecDoubles(s, f), pv = vecDoubles(s, v);
                if (test && two) two = false;
                O m = make(s, "FastMarchingMethod", dflt ? std::vector<Arg>{{"mesh", attr(t.pl, "mesh")}} : std::vector<Arg>{{"mesh", attr(t.pl, "mesh")}, {"isTest", py::cast(test)}}, dflt);
                std::unique_ptr<slsm::FastMarchingMethod> c(dflt ? new slsm::FastMarchingMethod(t.c->mesh) : new slsm::FastMarchingMethod(t.c->mesh, test));
                if (two) { on(s, m, "march", {{"signedDistance", pf}, {"velocity", pv}}); c->march(f, v); } else { on(s, m, "march", {{"signedDistance", pf}}); c->march(f); }
                REQUIRE(same(as<Vec>(pf, "signedDistance"), f), "march gives another distance from Python than from C++"); REQUIRE(same(as<Vec>(pv, "velocity"), v), "march gives other velocities from Python than from C++"); s.label("march"); break; }
            case 11: case 12: fileOp(s, t, dir); fresh = vel = false; break;
            case 13: assign(s, t); fresh = vel = false; on(s, t.pl, "reinitialise"); t.c->reinitialise(); compare(t, "reinitialise"); break;
        }
    }
    s.nontrivial(calls >= 4 && fancy > 0);
}
