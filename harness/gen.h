// Generators of meshes, structures and level-set states, and small helpers
// shared by the properties.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H

#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <sstream>

#include "Boundary.h"
#include "FastMarchingMethod.h"
#include "Heap.h"
#include "Hole.h"
#include "InputOutput.h"
#include "LevelSet.h"
#include "MersenneTwister.h"
#include "Mesh.h"
#include "Sensitivity.h"

#include "engine.h"
#include "ref.h"

using slsm::Boundary; using slsm::BoundaryPoint; using slsm::BoundarySegment; using slsm::Coord;
using slsm::Hole; using slsm::LevelSet; using slsm::Mesh; using slsm::MersenneTwister;
typedef std::unique_ptr<LevelSet> LS;
typedef std::vector<double> Vec;

inline uint64_t hashd(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
inline bool fin(double d) { return std::isfinite(d); }
inline bool close(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }

struct Dims { int w, h; };

inline Dims genDims(Src& s, int lo, int hi)
{
    Dims d;
    unsigned k = s.weighted({4, 3, 2, 1});
    if (k == 0) { d.w = (int) s.range(lo, std::min(hi, lo + 12)); d.h = (int) s.range(lo, std::min(hi, lo + 12)); }
    else if (k == 1) { d.w = (int) s.range(lo, hi); d.h = (int) s.range(lo, hi); }
    else if (k == 2) { d.w = (int) s.range(lo, hi); d.h = (int) s.range(lo, std::min(hi, lo + 3)); if (s.chance(1, 2)) std::swap(d.w, d.h); }
    else { d.w = d.h = (int) s.range(lo, hi); }
    return d;
}

inline std::vector<Hole> genHoles(Src& s, int w, int h, int maxn = 6, int minn = 1)
{
    std::vector<Hole> v; int n = (int) s.range(minn, maxn);
    for (int i = 0; i < n; i++) {
        double x, y, r;
        unsigned k = s.weighted({5, 2, 1});
        double rmax = std::max(1.5, 0.45 * std::min(w, h));
        if (k == 1) {       // integer positions and radii: tangent and symmetric configurations
            x = s.range(0, w); y = s.range(0, h); r = s.range(1, std::max(1, (int) rmax));
        }
        else if (k == 2) {  // crossing or outside the domain edge
            x = s.real(-3, w + 3); y = s.real(-3, h + 3); r = s.real(0.3, rmax);
        }
        else { x = s.real(0, w); y = s.real(0, h); r = s.real(0.3, rmax); }
        v.push_back(Hole(x, y, r));
    }
    return v;
}

// A closed polygon (first point repeated).  clockwise as documented unless anti.
inline std::vector<Coord> genPolygon(Src& s, int w, int h, bool& clockwise)
{
    std::vector<Coord> p; clockwise = !s.chance(1, 3);
    unsigned k = s.weighted({3, 2, 2});
    if (k == 0) {           // star-shaped about a centre: any number of vertices, non-convex
        double cx = s.real(0.3 * w, 0.7 * w), cy = s.real(0.3 * h, 0.7 * h), R = 0.29 * std::min(w, h);
        int n = (int) s.range(3, 10);
        for (int i = 0; i < n; i++) {
            double a = 2 * M_PI * (i + 0.8 * s.uniform(0, 1)) / n, r = R * s.uniform(0.3, 1);
            p.push_back(Coord(cx + r * cos(a), cy + r * sin(a)));
        }
    }
    else if (k == 1) {      // axis-aligned rectangle, often on nodes
        double x0 = s.real(0, w - 1), x1 = s.real(x0 + 0.5, w), y0 = s.real(0, h - 1), y1 = s.real(y0 + 0.5, h);
        p = {Coord(x0, y0), Coord(x1, y0), Coord(x1, y1), Coord(x0, y1)};
    }
    else {                  // L shape
        int x0 = (int) s.range(0, w - 2), y0 = (int) s.range(0, h - 2);
        double x2 = s.real(x0 + 2, w), y2 = s.real(y0 + 2, h), x1 = s.real(x0 + 0.7, x2 - 0.7), y1 = s.real(y0 + 0.7, y2 - 0.7);
        p = {Coord(x0, y0), Coord(x2, y0), Coord(x2, y1), Coord(x1, y1), Coord(x1, y2), Coord(x0, y2)};
    }
    // generated anticlockwise
    if (clockwise) std::reverse(p.begin(), p.end());
    int rot = (int) s.range(0, (long) p.size() - 1);
    std::rotate(p.begin(), p.begin() + rot, p.end());
    p.push_back(p[0]);
    return p;
}

inline std::vector<ref::P> toP(const std::vector<Coord>& c) { std::vector<ref::P> v; for (auto& q : c) v.push_back({q.x, q.y}); return v; }

// How the structure of a level set was produced.
enum StateKind { S_HOLES, S_POLY, S_SMOOTH, S_NOISE, S_PLANE, S_EMPTY, S_LATTICE };

struct GenOpt {
    int lo = 4, hi = 24;
    bool fields = true;       // allow arbitrary signed fields, not only constructed structures
    bool physical = true;     // domain-edge values are kept at or below zero (reachable states)
    bool reinit = true;       // reinitialise the field before use (distance function)
    bool fixed = true;        // allow a fixed domain
    bool allowRaw = false;    // sometimes skip the reinitialisation
    bool zeros = true;        // allow exact zeros in fields
    int force = -1;           // a particular StateKind
};

struct State { LS ls; Dims d; StateKind kind; unsigned band; double ml; bool fixed; bool reinitialised; };

// An arbitrary field with both signs.
inline Vec genField(Src& s, int w, int h, StateKind kind, bool physical, bool zeros)
{
    ref::Grid g(w, h); Vec f(g.n());
    if (kind == S_SMOOTH) {
        double a = s.uniform(0.1, 1.2), b = s.uniform(0.1, 1.2), c = s.uniform(0, 6), d = s.uniform(0, 6), o = s.uniform(-0.8, 0.8), A = s.real(0.5, 4);
        for (int i = 0; i < g.n(); i++) f[i] = A * (sin(a * g.X(i) + c) * cos(b * g.Y(i) + d) + o);
    }
    else if (kind == S_NOISE) {
        double A = s.real(0.2, 5); bool ints = s.chance(1, 4); int den = (int) s.range(2, 6);
        for (int i = 0; i < g.n(); i++) {
            if (ints) f[i] = (double) s.range(-3, 3);
            else f[i] = (double) ((long) s.draw(2001) - 1000) / 1000.0 * A;
            if (s.draw(den) != 0) f[i] = -std::fabs(f[i]) ;
        }
    }
    else if (kind == S_LATTICE) { // few distinct values: crossings half way along edges, zeros, equal corners
        static const double v[] = {-1, 1, -0.5, 0.5, 0, -2, 2, -1.5, 1.5, 0, -0.25, 0.25};
        unsigned n = (unsigned) s.range(2, 12);
        for (int i = 0; i < g.n(); i++) f[i] = v[s.draw(n)];
    }
    else { // plane
        double t = s.chance(1, 4) ? s.range(0, 7) * M_PI / 4 : s.uniform(0, 2 * M_PI), px = s.real(1, w - 1), py = s.real(1, h - 1);
        for (int i = 0; i < g.n(); i++) f[i] = (g.X(i) - px) * cos(t) + (g.Y(i) - py) * sin(t);
    }
    if (kind != S_PLANE && s.chance(1, 6)) // an interface passing close to many nodes
        for (int i = 0; i < g.n(); i++) if (s.draw(5) == 0) f[i] *= std::pow(10.0, -s.uniform(0.5, 4));
    for (int i = 0; i < g.n(); i++) {
        if (physical && g.edge(i) && f[i] > 0) f[i] = 0;
        if (!zeros && std::fabs(f[i]) < 1e-3) f[i] = f[i] < 0 || (physical && g.edge(i)) ? -1e-3 : 1e-3;
        else if (f[i] != 0 && std::fabs(f[i]) < 1e-5) f[i] = 0;
    }
    return f;
}

inline bool hasInterface(const ref::Grid& g, const Vec& f)
{
    for (int i = 0; i < g.n(); i++) {
        if (f[i] == 0) return true;
        for (int d = 0; d < 4; d++) { int k = g.nb(i, d); if (k >= 0 && f[i] * f[k] < 0) return true; }
    }
    return false;
}

inline State genState(Src& s, const GenOpt& o)
{
    State st;
    st.d = genDims(s, o.lo, o.hi);
    int w = st.d.w, h = st.d.h;
    static const double mls[] = {0.5, 0.1, 0.25, 0.75, 0.9};
    st.ml = mls[s.weighted({4, 1, 1, 1, 1})];
    static const unsigned bands[] = {6, 3, 4, 5, 8, 12, 40};
    st.band = bands[s.weighted({4, 2, 2, 1, 1, 1, 1})];
    st.fixed = o.fixed && s.chance(1, 4);
    unsigned k = o.fields ? s.weighted({5, 3, 2, 1, 2, 1, 1}) : s.weighted({5, 3, 0, 0, 0, 1});
    if (o.force >= 0) k = o.force;
    st.kind = (StateKind) k;
    st.reinitialised = o.reinit && !(o.allowRaw && s.chance(1, 3));
    if (st.kind == S_HOLES) {
        std::vector<Hole> hs = genHoles(s, w, h);
        st.ls.reset(new LevelSet(w, h, hs, st.ml, st.band, st.fixed));
        std::ostringstream os; for (auto& q : hs) os << "(" << q.coord.x << "," << q.coord.y << ",r" << q.r << ")";
        s.desc("%dx%d holes %s band %u limit %g%s", w, h, os.str().c_str(), st.band, st.ml, st.fixed ? " fixed" : "");
        s.label("structure:holes");
    }
    else if (st.kind == S_POLY) {
        bool cw; std::vector<Coord> p = genPolygon(s, w, h, cw);
        st.ls.reset(new LevelSet(w, h, p, st.ml, st.band, st.fixed));
        std::ostringstream os; for (auto& q : p) os << "(" << q.x << "," << q.y << ")";
        s.desc("%dx%d polygon %s band %u limit %g%s", w, h, os.str().c_str(), st.band, st.ml, st.fixed ? " fixed" : "");
        s.label("structure:polygon");
    }
    else {
        st.ls.reset(new LevelSet(w, h, std::vector<Hole>(), st.ml, st.band, st.fixed));
        if (st.kind != S_EMPTY) {
            Vec f = genField(s, w, h, st.kind, o.physical, o.zeros);
            ref::Grid g(w, h);
            if (!hasInterface(g, f)) throw Discard();
            st.ls->signedDistance = f;
        }
        static const char* n[] = {"", "", "structure:smooth field", "structure:noise field", "structure:plane", "structure:empty", "structure:lattice values"};
        s.label(n[st.kind]);
        s.desc("%dx%d %s band %u limit %g%s", w, h, n[st.kind], st.band, st.ml, st.fixed ? " fixed" : "");
        if (st.kind != S_EMPTY) st.reinitialised = true; // narrow band must follow the new field
    }
    ref::Grid g(w, h);
    if (!hasInterface(g, st.ls->signedDistance)) throw Discard();
    if (st.reinitialised) st.ls->reinitialise();
    return st;
}

inline void describe(Src& s, const ref::Grid& g, const Vec& f, const char* name)
{
    if (!s.verbose() || g.n() > 400) return;
    for (int y = g.h; y >= 0; y--) {
        std::string l; char b[32];
        for (int x = 0; x <= g.w; x++) { snprintf(b, sizeof b, "%9.5f ", f[g.id(x, y)]); l += b; }
        s.note("%s y=%d: %s", name, y, l.c_str());
    }
}

// A masked region: circles, a rectangle (two corners) or a polygon.
struct Mask {
    int kind = 0; std::vector<Hole> holes; std::vector<Coord> points;
    void apply(LevelSet& ls) const { if (kind == 0) ls.mask(holes); else ls.mask(points); }
    // 1 inside, 0 outside, -1 too close to the edge of the region to say
    int covers(double x, double y) const {
        double m = 1e300; bool in = false;
        if (kind == 0) {
            for (auto& q : holes) { double d = q.r - std::hypot(q.coord.x - x, q.coord.y - y); if (d > 0) in = true; m = std::min(m, std::fabs(d)); }
            for (auto& q : holes) if (q.r - std::hypot(q.coord.x - x, q.coord.y - y) > 1e-9) return 1;
        }
        else if (kind == 1) {
            double a = std::min(x - points[0].x, points[1].x - x), b = std::min(y - points[0].y, points[1].y - y);
            in = std::min(a, b) > 0; return in; // exact comparisons
        }
        else {
            std::vector<ref::P> v = toP(points);
            for (size_t i = 0; i + 1 < v.size(); i++) m = std::min(m, ref::segDist(v[i], v[i + 1], {x, y}));
            if (m > 1e-9) in = ref::winding(v, {x, y}) != 0;
        }
        return m <= 1e-9 ? -1 : in;
    }
};

inline Mask genMask(Src& s, int w, int h)
{
    Mask m; m.kind = (int) s.weighted({3, 2, 2});
    std::ostringstream os;
    if (m.kind == 0) { m.holes = genHoles(s, w, h, 3); for (auto& q : m.holes) os << " (" << q.coord.x << "," << q.coord.y << ",r" << q.r << ")"; }
    else if (m.kind == 1) {
        double x0 = s.real(-1, w - 1), y0 = s.real(-1, h - 1);
        m.points = {Coord(x0, y0), Coord(s.real(x0, w + 1), s.real(y0, h + 1))};
    }
    else { bool cw; m.points = genPolygon(s, w, h, cw); }
    for (auto& q : m.points) os << " (" << q.x << "," << q.y << ")";
    s.desc("mask%s", os.str().c_str());
    return m;
}

// Applies the mask unless it would leave no structure.  Returns whether it was applied.
inline bool applyMask(Src& s, State& st, const Mask& m)
{
    ref::Grid g(st.d.w, st.d.h); Vec f = st.ls->signedDistance;
    bool pos = false;
    for (int i = 0; i < g.n(); i++) if (f[i] > 1e-6 && m.covers(g.X(i), g.Y(i)) == 0) pos = true;
    if (!pos) return false;
    for (int i = 0; i < g.n(); i++) if (m.covers(g.X(i), g.Y(i)) == 1) f[i] = -1e-6;
    if (!hasInterface(g, f)) return false;
    m.apply(*st.ls); s.label("masked");
    return true;
}

// Everything a level set publishes, for detecting unwanted changes.
struct Snapshot {
    Vec phi, vel, grad, target; std::vector<unsigned> band, mines; std::vector<int> flags; unsigned nb, nm; double ml;
    Snapshot(const LevelSet& l) : phi(l.signedDistance), vel(l.velocity), grad(l.gradient), target(l.target),
        band(l.narrowBand.begin(), l.narrowBand.begin() + l.nNarrowBand), mines(l.mines.begin(), l.mines.begin() + l.nMines), nb(l.nNarrowBand), nm(l.nMines), ml(l.moveLimit)
    { for (auto& n : l.mesh.nodes) flags.push_back((n.isActive ? 1 : 0) | (n.isDomain ? 2 : 0) | (n.isMasked ? 4 : 0) | (n.isMine ? 8 : 0)); }
};
inline bool same(const Vec& a, const Vec& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (hashd(a[i]) != hashd(b[i])) return false;
    return true;
}
enum { K_PHI = 1, K_VEL = 2, K_GRAD = 4, K_BAND = 8, K_TARGET = 16, K_ALL = 31 };
inline void requireSame(const Snapshot& a, const Snapshot& b, int what, const char* op)
{
    if (what & K_PHI) REQUIRE(same(a.phi, b.phi), "%s changed the signed distance", op);
    if (what & K_VEL) REQUIRE(same(a.vel, b.vel), "%s changed the nodal velocities", op);
    if (what & K_GRAD) REQUIRE(same(a.grad, b.grad), "%s changed the gradients", op);
    if (what & K_TARGET) REQUIRE(same(a.target, b.target), "%s changed the target", op);
    if (what & K_BAND) REQUIRE(a.band == b.band && a.mines == b.mines && a.flags == b.flags && a.ml == b.ml, "%s changed the narrow band, the mines or node flags", op);
}

// Velocities for boundary points; returns a description of the kind.
inline const char* genVelocities(Src& s, Boundary& b)
{
    unsigned k = s.weighted({4, 2, 1, 2, 1});
    double A = s.real(0.1, 2), v0 = s.uniform(-A, A); size_t hot = b.points.empty() ? 0 : s.draw(b.points.size());
    double kx = s.uniform(0.1, 1), ky = s.uniform(0.1, 1);
    for (size_t i = 0; i < b.points.size(); i++) {
        double& v = b.points[i].velocity;
        switch (k) {
            case 0: v = s.uniform(-A, A); break;
            case 1: v = v0; break;
            case 2: v = i == hot ? A : 0; break;
            case 3: v = A * sin(kx * b.points[i].coord.x + ky * b.points[i].coord.y); break;
            default: v = s.chance(1, 2) ? A : -A;
        }
    }
    static const char* n[] = {"velocity:random", "velocity:uniform", "velocity:one-hot", "velocity:smooth", "velocity:two-valued"};
    s.label(n[k]); return n[k];
}

// One discretise / velocity / gradient round with generated boundary velocities.
// Returns false when there is no boundary.
inline bool drive(Src& s, LevelSet& ls, Boundary& b)
{
    b.discretise(ls);
    if (b.points.empty()) return false;
    genVelocities(s, b);
    ls.computeVelocities(b.points);
    ls.computeGradients();
    return true;
}

// The field an update must produce before any reinitialisation, and whether a
// reinitialisation is due (-1: too close to call).
inline Vec advected(const ref::Grid& g, const LevelSet& ls, double dt, int& due)
{
    Vec f = ls.signedDistance; due = 0;
    for (int i = 0; i < g.n(); i++) if (ls.mesh.nodes[i].isActive) {
        f[i] -= dt * ls.gradient[i] * ls.velocity[i];
        if (g.edge(i) && f[i] > 0) f[i] = 0;
    }
    for (unsigned k = 0; k < ls.nMines; k++) {
        double a = std::fabs(f[ls.mines[k]]);
        if (a < 1 - 1e-11) due = 1;
        else if (a < 1 + 1e-11 && due == 0) due = -1;
    }
    return f;
}

// A state for the boundary properties: structure or field, masks, optionally evolved, and the field to discretise.
struct BState { State st; bool target; const Vec& field() const { return target ? st.ls->target : st.ls->signedDistance; } };

inline bool may(const LevelSet& ls, bool target, int a, int b)
{
    const auto &p = ls.mesh.nodes[a], &q = ls.mesh.nodes[b];
    return target || p.isActive || p.isMasked || q.isActive || q.isMasked;
}

inline BState genBState(Src& s, int hi, bool evolve = true, bool targets = true, int lo = 4, bool unphysical = true)
{
    BState b; b.target = false;
    GenOpt o; o.lo = s.chance(1, 8) ? 1 : lo; if (o.lo > lo) o.lo = lo; if (lo >= 4 && !targets) o.lo = lo; o.hi = hi; o.allowRaw = true; o.physical = !s.chance(1, 5) || !unphysical;
    if (unphysical && targets && s.chance(1, 12)) { o.lo = 1; o.hi = 3; o.physical = false; o.force = S_LATTICE; s.label("tiny lattice"); }
    b.st = genState(s, o);
    LevelSet& ls = *b.st.ls; ref::Grid g(b.st.d.w, b.st.d.h);
    if (s.chance(1, 4)) { Mask m = genMask(s, b.st.d.w, b.st.d.h); applyMask(s, b.st, m); }
    if (evolve && b.st.d.w >= 4 && b.st.d.h >= 4 && s.chance(1, 3)) {
        Boundary bd; int n = (int) s.range(1, 4); double dt = s.real(0.1, 1);
        for (int k = 0; k < n; k++) {
            if (!drive(s, ls, bd)) break;
            int due; Vec f = advected(g, ls, dt, due);
            if (!hasInterface(g, f)) break;
            ls.update(dt); s.label("evolved");
        }
        if (!hasInterface(g, ls.signedDistance)) throw Discard();
        // sign changes must lie inside the band for the boundary to be complete
        for (int i = 0; i < g.n(); i++) for (int d = 1; d < 4; d += 2) {
            int k = g.nb(i, d); if (k < 0) continue;
            if (ls.signedDistance[i] * ls.signedDistance[k] < 0 && !may(ls, false, i, k)) throw Discard();
        }
    }
    if (targets && s.chance(1, 6)) {
        Vec f = genField(s, b.st.d.w, b.st.d.h, std::vector<StateKind>{S_SMOOTH, S_NOISE, S_LATTICE}[s.draw(3)], o.physical, true);
        ls.target = f; b.target = true; s.label("target discretised");
    }
    for (double v : b.field()) if (v != 0 && std::fabs(std::fabs(v) - 1e-6) < 1e-8) throw Discard();
    return b;
}

inline std::vector<ref::Cell> cells(Src& s, const BState& b)
{
    ref::Grid g(b.st.d.w, b.st.d.h); const LevelSet& ls = *b.st.ls; std::vector<ref::Cell> v;
    for (int e = 0; e < g.w * g.h; e++) {
        v.push_back(ref::cell(g, b.field(), e, [&](int p, int q) { return may(ls, b.target, p, q); }));
        if (v.back().delicate) { s.label("within rounding of a threshold"); throw Discard(); }
        if (v.back().unresolved) { s.label("sign change excluded from the discretisation"); throw Discard(); }
    }
    return v;
}

inline bool at(const Coord& c, const ref::P& p, double tol = 1e-9) { return std::fabs(c.x - p.x) < tol && std::fabs(c.y - p.y) < tol; }

#endif
