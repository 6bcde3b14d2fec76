// Histories of operations on one level set, and a machine that takes a level set through one, leaving a trace.
#ifndef VERIF_SCRIPT_H
#define VERIF_SCRIPT_H
#include "gen.h"
#include <memory>
#include <new>

struct Op { int k; double a, b; unsigned n; Mask m; };
struct Script {
    int w, h, ctor; double ml; unsigned band; bool fixed; std::vector<Hole> holes, holes2; std::vector<Coord> pts, pts2; std::vector<Op> ops;
};

inline Script genScript(Src& s, int hi, int maxops)
{
    Script c; Dims d = genDims(s, 4, hi); c.w = d.w; c.h = d.h; bool cw;
    c.ctor = (int) s.weighted({4, 2, 1, 1, 1}); static const double mls[] = {0.5, 0.25, 0.9}; c.ml = mls[s.weighted({4, 1, 1})];
    static const unsigned bands[] = {6, 3, 4, 12}; c.band = bands[s.weighted({4, 2, 1, 1})]; c.fixed = s.chance(1, 4);
    c.holes = genHoles(s, c.w, c.h, 4); if (c.ctor == 2) c.holes2 = genHoles(s, c.w, c.h, 2);
    if (c.ctor == 1 || c.ctor == 3 || c.ctor == 4) c.pts = genPolygon(s, c.w, c.h, cw);
    if (c.ctor == 4) c.pts2 = genPolygon(s, c.w, c.h, cw);
    static const char* names[] = {"holes", "points", "holes, target holes", "holes, target points", "points, target points"};
    int n = (int) s.range(1, maxops); s.desc("%dx%d (%s) band %u%s, %d operations", c.w, c.h, names[c.ctor], c.band, c.fixed ? " fixed" : "", n);
    for (int i = 0; i < n; i++) {
        Op o; o.k = (int) s.weighted({5, 2, 4, 1, 1, 1, 2, 1}); o.a = s.real(0.05, 1); o.b = s.uniform(0, 3); o.n = (unsigned) s.draw(1000);
        if (o.k == 4) o.m = genMask(s, c.w, c.h);
        c.ops.push_back(o);
    }
    return c;
}

inline LevelSet* construct(const Script& c)
{
    switch (c.ctor) {
        case 0: return new LevelSet(c.w, c.h, c.holes, c.ml, c.band, c.fixed);
        case 1: return new LevelSet(c.w, c.h, c.pts, c.ml, c.band, c.fixed);
        case 2: return new LevelSet(c.w, c.h, c.holes, c.holes2, c.ml, c.band, c.fixed);
        case 3: return new LevelSet(c.w, c.h, c.holes, c.pts, c.ml, c.band, c.fixed);
        default: return new LevelSet(c.w, c.h, c.pts, c.pts2, c.ml, c.band, c.fixed);
    }
}

inline bool constructible(const Script& c)
{
    // a target needs an interface
    ref::Grid g(c.w, c.h);
    if (c.ctor == 2) { LevelSet t(c.w, c.h, c.holes2); return hasInterface(g, t.signedDistance); }
    if (c.ctor == 3) { LevelSet t(c.w, c.h, c.pts); return hasInterface(g, t.signedDistance); }
    if (c.ctor == 4) { LevelSet t(c.w, c.h, c.pts2); return hasInterface(g, t.signedDistance); }
    return true;
}

struct Hash {
    uint64_t h = 1469598103934665603ULL;
    void u(uint64_t v) { h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 29; }
    void d(double v) { u(v == 0 ? 0 : hashd(v)); }
    void v(const Vec& x) { u(x.size()); for (double a : x) d(a); }
};

// One level set being taken through a script.
struct Machine {
    const Script* c; LevelSet* ls; Boundary b; size_t at = 0; std::vector<uint64_t> trace; bool reuse, haveB = false, normals = false, area = false; int done = 0;
    Machine(const Script& s, bool reuse_) : c(&s), ls(construct(s)), reuse(reuse_) { trace.reserve(2 * s.ops.size() + 2); record(); }
    // the copy owns a copy of the level set
    Machine(const Machine& m) : c(m.c), ls(new LevelSet(*m.ls)), b(m.b), at(m.at), reuse(m.reuse), haveB(m.haveB), normals(m.normals), area(m.area), done(m.done) { trace.reserve(2 * c->ops.size() + 2); trace = m.trace; }
    Machine& operator=(const Machine&) = delete;
    ~Machine() { delete ls; }
    void record()
    {
        Hash h; const LevelSet& l = *ls; h.v(l.signedDistance); h.v(l.velocity); h.v(l.gradient); h.v(l.target);
        h.u(l.nNarrowBand); h.u(l.nMines); for (unsigned i = 0; i < l.nNarrowBand; i++) h.u(l.narrowBand[i]); for (unsigned i = 0; i < l.nMines; i++) h.u(l.mines[i]);
        for (auto& n : l.mesh.nodes) {
            h.u(n.isActive); h.u(n.isDomain); h.u(n.isMasked); h.u(n.isMine);
            if (haveB) { h.u(n.status); h.u(n.nBoundaryPoints); for (unsigned i = 0; i < n.nBoundaryPoints; i++) h.u(n.boundaryPoints[i]); }
        }
        if (haveB) {
            for (auto& e : l.mesh.elements) { h.u(e.status); h.u(e.nBoundarySegments); for (unsigned i = 0; i < e.nBoundarySegments; i++) h.u(e.boundarySegments[i]); if (area) h.d(e.area); }
            if (area) h.d(l.area);
            h.u(b.nPoints); h.u(b.nSegments); h.d(b.length);
            for (auto& p : b.points) {
                h.d(p.coord.x); h.d(p.coord.y); h.d(p.length); h.d(p.velocity); h.d(p.negativeLimit); h.d(p.positiveLimit); h.u(p.isDomain); h.u(p.isFixed); h.v(p.sensitivities);
                if (normals) { h.d(p.normal.x); h.d(p.normal.y); }
                h.u(p.nSegments); for (unsigned i = 0; i < p.nSegments; i++) h.u(p.segments[i]);
                h.u(p.nNeighbours); for (unsigned i = 0; i < p.nNeighbours; i++) h.u(p.neighbours[i]);
            }
            for (auto& q : b.segments) { h.u(q.start); h.u(q.end); h.u(q.element); h.d(q.length); h.d(q.weight); }
        }
        trace.push_back(h.h);
    }
    bool more() const { return at < c->ops.size(); }
    void bd(bool target = false) { if (reuse) b.discretise(*ls, target); else { b.~Boundary(); new (&b) Boundary(); b.discretise(*ls, target); } haveB = true; normals = area = false; }
    void velocities(const Op& o)
    {
        for (size_t i = 0; i < b.points.size(); i++) { auto& p = b.points[i]; p.velocity = o.n % 5 == 0 ? o.a : sin(o.b * p.coord.x + 0.7 * o.b * p.coord.y + o.n); p.sensitivities[0] = 0.1 * o.n; }
    }
    void step()
    {
        const Op& o = c->ops[at++]; ref::Grid g(c->w, c->h); LevelSet& l = *ls;
        switch (o.k) {
            case 0: case 1: { // a round of evolution, deterministic or noisy
                if (!hasInterface(g, l.signedDistance)) break;
                bd(); if (b.points.empty()) break; velocities(o); double dt = 0.5 * o.a;
                if (o.k == 0) l.computeVelocities(b.points);
                else { MersenneTwister rng; rng.setSeed(o.n); double r = l.computeVelocities(b.points, dt, 0.02 * o.b, rng); Hash h; h.d(r); h.d(dt); trace.push_back(h.h); }
                l.computeGradients(); record();
                int due; Vec f = advected(g, l, dt, due); if (!hasInterface(g, f)) break;
                l.update(dt); haveB = false; done++; break;
            }
            case 2: if (!hasInterface(g, l.signedDistance)) break; l.reinitialise(); done++; break;
            case 3: bd(); b.computeNormalVectors(l); normals = true; if (!b.points.empty()) { slsm::Sensitivity t; t.itoCorrection(b, l, o.a); done++; } break;
            case 4: {
                Vec f = l.signedDistance; bool in = false;
                for (int i = 0; i < g.n(); i++) { int v = o.m.covers(g.X(i), g.Y(i)); if (v < 0) { in = false; f.clear(); break; } if (v) f[i] = -1e-6; else if (f[i] > 0) in = true; }
                if (!in || f.empty() || !hasInterface(g, f)) break;
                o.m.apply(l); done++; break;
            }
            case 5: if (l.target.empty()) break; bd(true); done++; break;
            case 6: bd(); { Hash h; h.d(l.computeAreaFractions(b)); trace.push_back(h.h); } area = true; done++; break;
            default: { slsm::FastMarchingMethod fm(l.mesh, false); if (!hasInterface(g, l.signedDistance)) break; fm.march(l.signedDistance); done++; }
        }
        record();
    }
};

#endif
