// The optimisation problem, generated, and its solution worked out independently.
#ifndef VERIF_OPTIM_H
#define VERIF_OPTIM_H
#include "gen.h"
#include "Optimise.h"

namespace opt {

struct Problem {
    std::vector<BoundaryPoint> pts; int m;  // m constraints
    Vec dist; std::vector<bool> eq; Vec lambda0; double ml; bool isMax, defaultEq, domain; int flat = 0; // flat: a constraint no move can change
    double s(size_t i, int k) const { return pts[i].sensitivities[k]; }
    Vec maxSens;
};

inline bool finish(Problem& p)
{
    p.maxSens.assign(p.m + 1, 0);
    for (int k = 0; k <= p.m; k++) for (size_t i = 0; i < p.pts.size(); i++) if (!p.pts[i].isFixed) p.maxSens[k] = std::max(p.maxSens[k], std::fabs(p.s(i, k)));
    for (int k = 0; k <= p.m; k++) if (!(p.maxSens[k] > 1e-6) && !(k && k == p.flat && p.maxSens[k] == 0)) return false;
    p.domain = false; for (auto& q : p.pts) if (q.isDomain && !q.isFixed) p.domain = true;
    return true;
}

// clamps: whether points with side limits may occur
inline Problem gen(Src& s, bool clamps, int maxm = 3)
{
    Problem p; p.m = (int) s.range(0, maxm); static const double mls[] = {0.5, 0.1, 0.25, 0.75, 0.9}; p.ml = mls[s.weighted({4, 1, 1, 1, 1})]; p.isMax = s.chance(1, 2); 
    bool real = s.chance(1, 4);
    if (real) {
        int w = (int) s.range(4, 12), h = (int) s.range(4, 12); std::vector<Hole> hs = genHoles(s, w, h, 3); LevelSet ls(w, h, hs, p.ml); ls.reinitialise(); Boundary b; b.discretise(ls);
        p.pts = b.points; if (!clamps) for (auto& q : p.pts) q.isDomain = false;
        if (p.pts.size() < 2) throw Discard(); s.label("points of a discretised boundary");
    }
    else {
        int n = s.chance(1, 4) ? (int) s.range(1, 3) : (int) s.range(2, 14); p.pts.resize(n);
        for (auto& q : p.pts) {
            q.coord = Coord(s.real(0, 20), s.real(0, 20)); q.length = s.chance(1, 3) ? 1 : s.real(0.05, 1.4); q.velocity = s.uniform(-1, 1); q.nSegments = q.nNeighbours = 0;
            q.negativeLimit = -p.ml; q.positiveLimit = p.ml; q.isDomain = q.isFixed = false;
            if (s.chance(1, 8)) { q.isFixed = true; s.label("fixed point"); }
            if (clamps && s.chance(1, 3)) { q.isDomain = true; q.negativeLimit = s.chance(1, 2) ? 0.0 : -9e-7 * s.uniform(0, 1); } // as discretisation sets it
            else if (clamps && s.chance(1, 5)) q.negativeLimit = -p.ml * s.uniform(0, 1);
        }
    }
    unsigned style = s.weighted({4, 2, 1}); double big = s.chance(1, 4) ? std::pow(10.0, s.uniform(-3, 3)) : 1;
    for (auto& q : p.pts) { q.sensitivities.assign(std::max(2, p.m + 1), 0); for (int k = 0; k <= p.m; k++) q.sensitivities[k] = style == 0 ? s.uniform(-1, 1) : style == 1 ? s.uniform(0.2, 1) : (double) s.range(-2, 2); for (int k = 0; k <= p.m; k++) if (k % 2) q.sensitivities[k] *= big; }
    if (p.m >= 1 && s.chance(1, 5)) { for (auto& q : p.pts) q.sensitivities[1] = -1; s.label("area constraint"); }
    // distances relative to what can be reached at first
    p.defaultEq = s.chance(1, 2); for (int k = 0; k < p.m; k++) p.eq.push_back(!p.defaultEq && s.chance(1, 3));
    for (int k = 1; k <= p.m; k++) {
        double reach = 0; for (size_t i = 0; i < p.pts.size(); i++) if (!p.pts[i].isFixed) reach += p.ml * std::fabs(p.s(i, k)) * p.pts[i].length;
        unsigned c = s.weighted({3, 2, 2, 2, 1}); double f = c == 0 ? s.uniform(-0.6, 0.6) : c == 1 ? s.uniform(1, 8) : c == 2 ? -s.uniform(0.6, 8) : c == 3 ? s.uniform(-0.05, 0.05) : 0;
        p.dist.push_back(f * reach);
    }
    if (p.m >= 1 && s.chance(1, 12)) { // a constraint that depends on no point free to move
        p.flat = (int) s.range(1, p.m); for (auto& q : p.pts) if (!q.isFixed || s.chance(1, 2)) q.sensitivities[p.flat] = 0;
        p.dist[p.flat - 1] = s.uniform(-3, 3); s.label("constraint no move can change");
    }
    for (int k = 0; k <= p.m; k++) p.lambda0.push_back(s.chance(1, 3) ? (p.isMax ? 0.3 : -0.3) : s.uniform(-2, 2));
    if (!finish(p)) throw Discard();
    s.desc("%zu points, %d constraints, limit %g, %s%s", p.pts.size(), p.m, p.ml, p.isMax ? "maximise" : "minimise", p.domain ? ", side limits" : "");
    for (int k = 0; k < p.m; k++) s.desc("distance %.6g%s", p.dist[k], p.eq[k] ? " equality" : "");
    return p;
}

// displacement of every point for multipliers lambda (unscaled) of the functions act (act[0] = 0, the objective)
inline Vec displacement(const Problem& p, const std::vector<int>& act, const Vec& lambda, bool* clamped = nullptr)
{
    Vec z(p.pts.size(), 0); if (clamped) *clamped = false;
    for (size_t i = 0; i < z.size(); i++) if (!p.pts[i].isFixed) {
        for (size_t j = 0; j < act.size(); j++) z[i] += lambda[j] * p.s(i, act[j]);
        if (p.pts[i].isDomain && z[i] < p.pts[i].negativeLimit) { z[i] = p.pts[i].negativeLimit; if (clamped) *clamped = true; }
    }
    return z;
}
inline double change(const Problem& p, const Vec& z, int k) { double f = 0; for (size_t i = 0; i < z.size(); i++) if (!p.pts[i].isFixed) f += z[i] * p.s(i, k) * p.pts[i].length; return f; }
inline double bound(const Problem& p, int k) { return p.maxSens[k] > 0 ? p.ml / p.maxSens[k] : p.ml; }

// Which constraints take part, and the change each of them is asked to stay below (or meet).
struct Active { std::vector<int> act; Vec target; bool delicate = false, dropped = false, reduced = false; };
inline Active active(const Problem& p)
{
    Active a; a.act.push_back(0); for (int k = 1; k <= p.m; k++) a.act.push_back(k);
    for (;;) {
        std::vector<int> keep = {0}; a.target.clear(); a.reduced = false; size_t n = a.act.size();
        for (size_t j = 1; j < n; j++) {
            double mn = 1e300, mx = -1e300;
            for (unsigned v = 0; v < (1u << n); v++) { Vec l; for (size_t q = 0; q < n; q++) l.push_back((v >> q & 1 ? 1 : -1) * bound(p, a.act[q])); double c = change(p, displacement(p, a.act, l), a.act[j]); mn = std::min(mn, c); mx = std::max(mx, c); }
            mn *= 0.99; mx *= 0.99; double d = p.dist[a.act[j] - 1], t = d, sc = std::fabs(mn) + std::fabs(mx) + 1e-12; bool drop = false;
            if (d < 0) { if (std::fabs(d - mn) < 1e-7 * sc) a.delicate = true; if (d < mn) { t = mn; a.reduced = true; } }
            else { if (std::fabs(d - mx) < 1e-7 * sc) a.delicate = true; if (d > mx) { if (p.eq[a.act[j] - 1]) { t = mx; a.reduced = true; } else drop = true; } }
            if (drop) a.dropped = true; else { keep.push_back(a.act[j]); a.target.push_back(t); }
        }
        if (keep.size() == n || keep.size() == 1) { a.act = keep; return a; }
        a.act = keep;
    }
}

// A linear programme: optimise c.x with lo <= x <= hi, A x <= b (or = b), by enumeration of vertices.
struct LP { Vec c, lo, hi; std::vector<Vec> A; Vec b; std::vector<bool> eq; bool isMax; };
inline bool solveSquare(std::vector<Vec> M, Vec r, Vec& x)
{
    size_t n = r.size();
    for (size_t i = 0; i < n; i++) {
        size_t pv = i; for (size_t k = i + 1; k < n; k++) if (std::fabs(M[k][i]) > std::fabs(M[pv][i])) pv = k;
        if (std::fabs(M[pv][i]) < 1e-11) return false;
        std::swap(M[pv], M[i]); std::swap(r[pv], r[i]);
        for (size_t k = 0; k < n; k++) if (k != i) { double f = M[k][i] / M[i][i]; for (size_t q = i; q < n; q++) M[k][q] -= f * M[i][q]; r[k] -= f * r[i]; }
    }
    x.resize(n); for (size_t i = 0; i < n; i++) x[i] = r[i] / M[i][i];
    return true;
}
// rows are expected to be of order one.  second: the best value at a vertex elsewhere
inline bool solve(const LP& p, Vec& x, double& f, double tol, double* second = nullptr)
{
    size_t n = p.c.size(), rows = 2 * n + p.A.size(); bool found = false; std::vector<std::pair<double, Vec>> all;
    std::vector<size_t> pick(n);
    std::function<void(size_t, size_t)> rec = [&](size_t k, size_t from) {
        if (k == n) {
            std::vector<Vec> M; Vec r;
            for (size_t q : pick) { Vec row(n, 0); if (q < n) { row[q] = 1; r.push_back(p.lo[q]); } else if (q < 2 * n) { row[q - n] = 1; r.push_back(p.hi[q - n]); } else { row = p.A[q - 2 * n]; r.push_back(p.b[q - 2 * n]); } M.push_back(row); }
            Vec y; if (!solveSquare(M, r, y)) return;
            for (size_t i = 0; i < n; i++) { double d = tol * (p.hi[i] - p.lo[i]); if (y[i] < p.lo[i] - d || y[i] > p.hi[i] + d) return; y[i] = std::min(p.hi[i], std::max(p.lo[i], y[i])); }
            for (size_t j = 0; j < p.A.size(); j++) { double v = -p.b[j]; for (size_t i = 0; i < n; i++) v += p.A[j][i] * y[i]; if (v > tol || (p.eq[j] && v < -tol)) return; }
            double v = 0; for (size_t i = 0; i < n; i++) v += p.c[i] * y[i];
            all.push_back({p.isMax ? -v : v, y}); found = true; return;
        }
        for (size_t q = from; q < rows; q++) { pick[k] = q; rec(k + 1, q + 1); }
    };
    rec(0, 0);
    if (!found) return false;
    std::sort(all.begin(), all.end(), [](const std::pair<double, Vec>& a, const std::pair<double, Vec>& b) { return a.first < b.first; });
    x = all[0].second; f = p.isMax ? -all[0].first : all[0].first;
    if (second) { *second = 1e300; for (auto& q : all) { double d = 0; for (size_t i = 0; i < n; i++) d = std::max(d, std::fabs(q.second[i] - x[i]) / (p.hi[i] - p.lo[i])); if (d > 1e-6) { *second = q.first - all[0].first; break; } } }
    return true;
}

// Stands in for the external solver: an exact solver of the problem it is shown, linear functions given
// by value and gradient.
inline int& attempts() { static int n = 0; return n; }
inline nlopt::result exactSolver(nlopt::opt& o, std::vector<double>& x, double& f)
{
    attempts()++;
    LP lp; size_t n = o.n; lp.isMax = o.maximise; Vec half(n);
    for (size_t i = 0; i < n; i++) { half[i] = 0.5 * (o.ub[i] - o.lb[i]); lp.lo.push_back(-1); lp.hi.push_back(1); }
    Vec mid(n); for (size_t i = 0; i < n; i++) mid[i] = 0.5 * (o.ub[i] + o.lb[i]);
    auto row = [&](const nlopt::opt::Func& q, Vec& g, double& v) { g.assign(n, 0); v = q.f(mid, g, q.data); REQUIRE(g.size() == n, "a gradient of %zu components for %zu variables", g.size(), n); double m = 0; for (size_t i = 0; i < n; i++) { g[i] *= half[i]; m = std::max(m, std::fabs(g[i])); } if (m > 0) { for (double& a : g) a /= m; v /= m; } };
    double v; row(o.objective, lp.c, v);
    for (auto& q : o.inequality) { Vec g; row(q, g, v); lp.A.push_back(g); lp.b.push_back(-v); lp.eq.push_back(false); }
    for (auto& q : o.equality) { Vec g; row(q, g, v); lp.A.push_back(g); lp.b.push_back(-v); lp.eq.push_back(true); }
    Vec y; double best;
    bool ok = solve(lp, y, best, 1e-9);
    if (!ok) { Vec none; f = o.objective.f(x, none, o.objective.data); throw nlopt::roundoff_limited(); }
    for (size_t i = 0; i < n; i++) x[i] = std::min(o.ub[i], std::max(o.lb[i], mid[i] + half[i] * y[i]));
    Vec none; f = o.objective.f(x, none, o.objective.data);
    return nlopt::XTOL_REACHED;
}

}
#endif
