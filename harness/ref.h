// Independent reference model, written from the documented semantics.
// Works on plain arrays; uses only the public interface of the library for input.
#ifndef VERIF_REF_H
#define VERIF_REF_H

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <set>
#include <utility>
#include <vector>

namespace ref {

struct P { double x, y; };
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }

struct Grid {
    int w, h;
    Grid(int w_, int h_) : w(w_), h(h_) {}
    int n() const { return (w + 1) * (h + 1); }
    int id(int x, int y) const { return y * (w + 1) + x; }
    int X(int i) const { return i % (w + 1); }
    int Y(int i) const { return i / (w + 1); }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x <= w && y <= h; }
    // direction: 0 left, 1 right, 2 down, 3 up; -1 outside
    int nb(int i, int d) const {
        static const int dx[4] = {-1, 1, 0, 0}, dy[4] = {0, 0, -1, 1};
        int x = X(i) + dx[d], y = Y(i) + dy[d];
        return in(x, y) ? id(x, y) : -1;
    }
    bool edge(int i) const { int x = X(i), y = Y(i); return x == 0 || y == 0 || x == w || y == h; }
};

struct Opt {
    double noise = 0;      // relative perturbation of every computed estimate
    double bias = 0;       // shifts the comparison that admits a second-order point (per comparison, random sign)
    double tie = 0;        // estimates closer than this are accepted together
    int reversed = 0;      // preference between equal neighbours, one bit per dimension (random when shuffling)
    bool shuffle = false;  // order among ties
    uint64_t rng = 1;
    double r() { rng = rng * 6364136223846793005ULL + 1442695040888963407ULL; return (double) (rng >> 11) / 9007199254740992.0 * 2 - 1; }
};

struct March {
    std::vector<double> phi, vel;
    std::vector<char> border;       // frozen from the start
    std::vector<char> reached;      // accepted at some point
    std::vector<char> kept;         // accepted value is the prior estimate (no real solution)
    std::vector<char> garbage;      // accepted without ever having been solved for
    bool anyFrozen = false;
    bool badVelocity = false;       // zero denominators encountered
};

// Second-order fast marching.  In velocity mode only active nodes are marched.
inline March march(const Grid& g, const std::vector<double>& phi0, Opt o,
                   const std::vector<double>* vel0 = nullptr, const std::vector<char>* active = nullptr)
{
    const int N = g.n();
    March m; m.phi = phi0; m.border.assign(N, 0); m.reached.assign(N, 0); m.kept.assign(N, 0);
    if (vel0) m.vel = *vel0;
    enum { NONE, TRIAL, FROZEN };
    std::vector<char> st(N, NONE);
    std::vector<double>& phi = m.phi;
    for (int i = 0; i < N; i++) if (std::fabs(phi0[i]) <= std::numeric_limits<double>::epsilon()) st[i] = FROZEN;
    for (int i = 0; i < N; i++) {
        if (st[i] != NONE) continue;
        double best[2] = {0, 0};
        for (int d = 0; d < 4; d++) {
            int k = g.nb(i, d); if (k < 0) continue;
            if (phi0[i] * phi0[k] < 0) {
                double f = phi0[i] / (phi0[i] - phi0[k]);
                double& b = best[d / 2];
                if (b == 0 || f < b) b = f;
            }
        }
        if (best[0] > 0 || best[1] > 0) {
            double s = 0; for (double b : best) if (b > 0) s += 1 / (b * b);
            phi[i] = (phi0[i] < 0 ? -1 : 1) * std::sqrt(1 / s);
            m.border[i] = 1;
        }
    }
    for (int i = 0; i < N; i++) if (m.border[i]) st[i] = FROZEN;
    for (int i = 0; i < N; i++) if (st[i] == FROZEN) { m.border[i] = 1; m.reached[i] = 1; m.anyFrozen = true; }
    if (!m.anyFrozen) return m;

    std::vector<char> kept(N, 0), solved(N, 0); m.garbage.assign(N, 0);
    auto estimate = [&](int i) -> double {
        double a = 0, b = 0, c = -1, one = 0; bool have = false; double sg = phi0[i] > 0 ? 1 : -1;
        auto cand = [&](double v) { if (!have || std::fabs(v) < std::fabs(one)) one = v; have = true; };
        for (int dim = 0; dim < 2; dim++) {
            int pick = -1, dir = -1; bool rev = o.shuffle ? o.r() > 0 : (o.reversed >> dim) & 1;
            for (int q = 0; q < 2; q++) {
                int d = 2 * dim + (rev ? 1 - q : q);
                int k = g.nb(i, d);
                if (k < 0 || st[k] != FROZEN) continue;
                if (pick < 0 || std::fabs(phi[k]) < std::fabs(phi[pick]) + (o.bias && o.shuffle ? o.bias * o.r() : 0)) { pick = k; dir = d; }
            }
            if (pick < 0) continue;
            int k2 = g.nb(pick, dir);
            double bias = o.bias ? (o.shuffle ? o.bias * o.r() : o.bias) : 0;
            if (k2 >= 0 && st[k2] == FROZEN && std::fabs(phi[k2]) <= std::fabs(phi[pick]) + bias) {
                double t = (4 * phi[pick] - phi[k2]) / 3.0;
                a += 2.25; b -= 4.5 * t; c += 2.25 * t * t; cand(t + sg * 2.0 / 3);
            }
            else { double t = phi[pick]; a += 1; b -= 2 * t; c += t * t; cand(t + sg); }
        }
        double disc = b * b - 4 * a * c;
        if (o.noise) disc += o.noise * o.r() * (b * b + 4);
        if (!(disc > 0)) { kept[i] = 1; return have ? one : phi[i]; }
        kept[i] = 0; solved[i] = 1;
        double s = std::sqrt(disc);
        double v = phi0[i] > 0 ? (-b + s) / (2 * a) : (-b - s) / (2 * a);
        if (o.noise) v *= 1 + o.noise * o.r();
        return v;
    };
    typedef std::pair<std::pair<double, double>, int> Key;
    std::set<Key> q; std::vector<Key> where(N);
    auto put = [&](int i, double v) { where[i] = Key(std::make_pair(std::fabs(v), o.shuffle ? o.r() : 0.0), i); q.insert(where[i]); };
    auto may = [&](int i) { return !active || (*active)[i]; };
    for (int i = 0; i < N; i++) {
        if (st[i] != NONE) continue;
        bool next = false;
        for (int d = 0; d < 4; d++) { int k = g.nb(i, d); if (k >= 0 && st[k] == FROZEN) next = true; }
        if (next && may(i)) { st[i] = TRIAL; phi[i] = estimate(i); put(i, phi[i]); }
    }
    auto finalise = [&](int i) {
        m.reached[i] = 1; m.kept[i] = kept[i]; m.garbage[i] = kept[i] && !solved[i];
        if (!vel0) return;
        double num = 0, den = 0;
        for (int dim = 0; dim < 2; dim++) {
            int pick = -1; bool rev = o.shuffle ? o.r() > 0 : (o.reversed >> dim) & 1;
            for (int p = 0; p < 2; p++) {
                int d = 2 * dim + (rev ? 1 - p : p);
                int k = g.nb(i, d); if (k < 0 || st[k] != FROZEN) continue;
                if (pick < 0 || std::fabs(phi[k]) < std::fabs(phi[pick])) pick = k;
            }
            if (pick < 0) continue;
            double wgt = std::fabs(phi[i] - phi[pick]);
            num += wgt * m.vel[pick]; den += wgt;
        }
        if (den == 0) { m.badVelocity = true; return; }
        m.vel[i] = num / den;
    };
    while (!q.empty()) {
        std::vector<int> group;
        double v = q.begin()->first.first;
        while (!q.empty() && q.begin()->first.first <= v + o.tie) {
            int i = q.begin()->second; q.erase(q.begin());
            st[i] = FROZEN; finalise(i); group.push_back(i);
        }
        for (int i : group) for (int d = 0; d < 4; d++) {
            int k = g.nb(i, d); if (k < 0 || st[k] == FROZEN) continue;
            double e = estimate(k); phi[k] = e;
            if (st[k] == TRIAL) { q.erase(where[k]); put(k, e); }
            else if (may(k)) { st[k] = TRIAL; put(k, e); }
            int k2 = g.nb(k, d);
            if (k2 >= 0 && st[k2] == TRIAL) { double e2 = estimate(k2); phi[k2] = e2; q.erase(where[k2]); put(k2, e2); }
        }
    }
    return m;
}

// Reference result plus, per node, whether it is insensitive to rounding and
// to the order of (near-)ties: only stable nodes are compared exactly.
struct StableMarch {
    March m; std::vector<char> stable; int nStable = 0;
    Grid g; std::vector<double> phi0, vel0; std::vector<char> active; bool hasVel = false; double tol = 1e-9, vtol = 1e-9;
    uint64_t seq = 1; bool anyUnstable = false;
    StableMarch() : g(1, 1) {}
    March run(const Opt& o) const { return march(g, phi0, o, hasVel ? &vel0 : nullptr, hasVel ? &active : nullptr); }
    void perturb(int t) {
        Opt p; p.rng = 7919 * (seq++) + 13;
        p.noise = t == 0 || t == 1 ? 0 : 3e-13;
        p.tie = (t & 1) ? 1e-11 : 0;
        p.bias = t == 0 ? 1e-11 : t == 1 ? -1e-11 : (t % 3 ? 2e-11 : 0);
        p.reversed = t == 0 ? 1 : t == 1 ? 2 : 3; p.shuffle = t >= 2;
        March q = run(p);
        for (int i = 0; i < g.n(); i++) {
            bool ok = std::fabs(q.phi[i] - m.phi[i]) <= tol && q.reached[i] == m.reached[i] && q.kept[i] == m.kept[i];
            if (ok && hasVel) ok = std::fabs(q.vel[i] - m.vel[i]) <= vtol;
            if (!ok) stable[i] = 0;
        }
        if (q.badVelocity) m.badVelocity = true;
    }
    // call before reporting a mismatch at node i: many more perturbed runs
    bool confirm(int i) { for (int t = 2; t < 130 && stable[i]; t++) perturb(t); return stable[i]; }
};

inline StableMarch stableMarch(const Grid& g, const std::vector<double>& phi0,
                               const std::vector<double>* vel0 = nullptr, const std::vector<char>* active = nullptr, double tol = 1e-9, double vscale = 1)
{
    StableMarch s; s.g = g; s.phi0 = phi0; s.tol = tol; s.vtol = 1e-9 * vscale;
    if (vel0) { s.vel0 = *vel0; s.active = *active; s.hasVel = true; }
    s.m = s.run(Opt());
    s.stable.assign(g.n(), 1);
    for (int t = 0; t < 6; t++) s.perturb(t);
    for (char c : s.stable) { s.nStable += c; if (!c) s.anyUnstable = true; }
    return s;
}

// ------------------------------------------------------------- geometry

inline double segDist(P a, P b, P p)
{
    double dx = b.x - a.x, dy = b.y - a.y, r2 = dx * dx + dy * dy;
    double t = r2 > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / r2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    return std::hypot(a.x + t * dx - p.x, a.y + t * dy - p.y);
}

// Angle-sum winding number, independent of crossing rules (undefined on the boundary).
inline int winding(const std::vector<P>& v, P p)
{
    double s = 0;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        P a = v[i] - p, b = v[i + 1] - p;
        s += std::atan2(a.x * b.y - a.y * b.x, a.x * b.x + a.y * b.y);
    }
    return (int) std::lround(s / (2 * M_PI));
}

inline double domainDist(const Grid& g, double x, double y)
{
    return std::min(std::min(x, g.w - x), std::min(y, g.h - y));
}

inline double shoelace(const std::vector<P>& v)
{
    double a = 0; size_t n = v.size();
    for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; a += v[i].x * v[j].y - v[j].x * v[i].y; }
    return 0.5 * a;
}

// ------------------------------------------------------------- gradient

// Fifth-order WENO combination of five consecutive differences.
inline double weno(double a, double b, double c, double d, double e)
{
    auto sq = [](double x) { return x * x; };
    double s1 = 13.0 / 12 * sq(a - 2 * b + c) + 0.25 * sq(a - 4 * b + 3 * c);
    double s2 = 13.0 / 12 * sq(b - 2 * c + d) + 0.25 * sq(b - d);
    double s3 = 13.0 / 12 * sq(c - 2 * d + e) + 0.25 * sq(3 * c - 4 * d + e);
    double w1 = 0.1 / sq(s1 + 1e-6), w2 = 0.6 / sq(s2 + 1e-6), w3 = 0.3 / sq(s3 + 1e-6);
    double q1 = a / 3 - 7 * b / 6 + 11 * c / 6;
    double q2 = -b / 6 + 5 * c / 6 + d / 3;
    double q3 = c / 3 + 5 * d / 6 - e / 6;
    return (w1 * q1 + w2 * q2 + w3 * q3) / (w1 + w2 + w3);
}

// One-sided upwind derivatives along one grid line f[0..n]; differences beyond
// the ends repeat the last available one.
inline void oneSided(const std::vector<double>& f, int i, double& minus, double& plus)
{
    int n = (int) f.size() - 1;
    auto D = [&](int k) { k = std::max(0, std::min(n - 1, k)); return f[k + 1] - f[k]; };
    minus = weno(D(i - 3), D(i - 2), D(i - 1), D(i), D(i + 1));
    plus = weno(D(i + 2), D(i + 1), D(i), D(i - 1), D(i - 2));
}

// returns upwind gradient modulus; 'edge' is set when a branch decision is within tol of flipping
inline double gradient(const Grid& g, const std::vector<double>& phi, int i, double velocity, bool& delicate)
{
    int x = g.X(i), y = g.Y(i);
    delicate = false;
    if ((x == 0 || x == g.w) && (y == 0 || y == g.h)) {
        int x1 = x == 0 ? 1 : x - 1, y1 = y == 0 ? 1 : y - 1;
        double d1 = std::fabs(phi[g.id(x1, y)] - phi[i]), d2 = std::fabs(phi[g.id(x, y1)] - phi[i]);
        if (std::fabs(d1 - 1e-6) < 1e-9 || std::fabs(d2 - 1e-6) < 1e-9) delicate = true;
        if (d1 < 1e-6 && d2 < 1e-6) return std::sqrt(2.0) * std::fabs(phi[i] - phi[g.id(x1, y1)]);
    }
    std::vector<double> row(g.w + 1), col(g.h + 1);
    for (int k = 0; k <= g.w; k++) row[k] = phi[g.id(k, y)];
    for (int k = 0; k <= g.h; k++) col[k] = phi[g.id(x, k)];
    double xm, xp, ym, yp;
    oneSided(row, x, xm, xp); oneSided(col, y, ym, yp);
    double s = velocity < 0 ? -1 : 1, r = 0;
    xm *= s; xp *= s; ym *= s; yp *= s;
    if (xm > 0) r += xm * xm;
    if (xp < 0) r += xp * xp;
    if (ym > 0) r += ym * ym;
    if (yp < 0) r += yp * yp;
    return std::sqrt(r);
}

// ------------------------------------------------------------- marching squares

enum Side { IN, OUT, ON };
inline Side side(double v) { return std::fabs(v) < 1e-6 ? ON : v < 0 ? OUT : IN; }

struct Seg { P a, b; int element; };

// Corner k of element e, anticlockwise from bottom-left.
inline int corner(const Grid& g, int e, int k)
{
    int ex = e % g.w, ey = e / g.w;
    static const int cx[4] = {0, 1, 1, 0}, cy[4] = {0, 0, 1, 1};
    return g.id(ex + cx[k], ey + cy[k]);
}
inline P pos(const Grid& g, int i) { return {(double) g.X(i), (double) g.Y(i)}; }

inline P cut(const Grid& g, const std::vector<double>& f, int a, int b)
{
    double d = f[a] / (f[a] - f[b]);
    P p = pos(g, a), q = pos(g, b);
    return {p.x + d * (q.x - p.x), p.y + d * (q.y - p.y)};
}

// What the discretised boundary must look like inside one cell.
struct Cell {
    bool inside = false, outside = false;   // wholly inside / outside
    bool saddle = false, tie = false;       // ambiguous corner pattern; mean value zero
    bool unresolved = false;                // a sign change on an edge excluded from the discretisation
    bool delicate = false;                  // within rounding of a threshold
    std::vector<std::pair<P, P>> segs;      // expected segments
    std::vector<std::pair<P, P>> alt;       // the other choice for an ambiguous pattern
    double area = 0, altArea = 0;
};

// may(a,b): the edge between these nodes takes part in the discretisation
template <class May>
inline Cell cell(const Grid& g, const std::vector<double>& f, int e, May may)
{
    Cell c; int n[4]; Side s[4]; int in = 0, out = 0;
    for (int k = 0; k < 4; k++) {
        n[k] = corner(g, e, k); s[k] = side(f[n[k]]);
        if (s[k] == IN) in++;
        if (s[k] == OUT) out++;
        if (std::fabs(std::fabs(f[n[k]]) - 1e-6) < 1e-9) c.delicate = true;
    }
    if (out == 0) { c.inside = true; c.area = 1; }
    else if (in == 0) { c.outside = true; c.area = 0; return c; }
    for (int k = 0; k < 4; k++) {
        int l = (k + 1) & 3;
        if (s[k] == ON && s[l] == ON && may(n[k], n[l])) c.segs.push_back({pos(g, n[k]), pos(g, n[l])});
        if ((s[k] == IN && s[l] == OUT) || (s[k] == OUT && s[l] == IN)) {
            double d = std::fabs(f[n[k]]) / (std::fabs(f[n[k]]) + std::fabs(f[n[l]]));
            if (d < 3e-6 || d > 1 - 3e-6) c.delicate = true;
            if (!may(n[k], n[l])) c.unresolved = true;
        }
    }
    if (c.inside) return c;
    // walk round the cell: the contour crosses the perimeter where inside gives way to outside,
    // at a cut edge or at the zero corner nearest to the outside
    struct T { P p; bool leaving; int at; };        // leaving: from inside to outside going anticlockwise
    std::vector<T> t;
    int first = 0; while (s[first] == ON) first++;
    Side cur = s[first];
    for (int q = 1; q <= 4; q++) {
        int k = (first + q) & 3;
        if (s[k] == ON || s[k] == cur) continue;
        int b = (k + 3) & 3; P p;                   // previous corner
        if (s[b] != ON) p = cut(g, f, n[b], n[k]);
        else if (s[k] == OUT) p = pos(g, n[b]);
        else { int a = b; while (s[(a + 3) & 3] == ON) a = (a + 3) & 3; p = pos(g, n[a]); }
        t.push_back({p, s[k] == OUT, k}); cur = s[k];
    }
    if (t.size() == 2) {
        c.segs.push_back({t[0].p, t[1].p});
        // inside polygon: from the entering crossing over the corners that are not outside to the leaving crossing
        int a = t[0].leaving ? 1 : 0; std::vector<P> poly; poly.push_back(t[a].p);
        // start at the first corner after the entering crossing
        int k = t[a].at; { int b = (k + 3) & 3; while (s[b] == ON && dist(pos(g, n[b]), t[a].p) > 1e-12) { k = b; b = (k + 3) & 3; } }
        for (int q = 0; q < 4; q++) {
            int m = (k + q) & 3; if (s[m] == OUT) break;
            P p = pos(g, n[m]);
            if (dist(p, poly.back()) > 1e-12) poly.push_back(p);
        }
        if (dist(poly.back(), t[1 - a].p) > 1e-12) poly.push_back(t[1 - a].p);
        c.area = std::fabs(shoelace(poly));
    }
    else if (t.size() == 4) {
        c.saddle = true; double sum = 0; for (int k = 0; k < 4; k++) sum += f[n[k]];
        c.tie = std::fabs(sum) < 1e-9;
        // segments around the corners on side w, and the area cut off by them
        auto around = [&](Side w, std::vector<std::pair<P, P>>& v) {
            double a = 0;
            for (int k = 0; k < 4; k++) if (s[k] == w) {
                P p = cut(g, f, n[(k + 3) & 3], n[k]), q = cut(g, f, n[k], n[(k + 1) & 3]);
                v.push_back({p, q}); a += std::fabs(shoelace({p, pos(g, n[k]), q}));
            }
            return a;
        };
        std::vector<std::pair<P, P>> base = c.segs; c.alt = base;
        double ao = 1 - around(OUT, sum > 0 ? c.segs : c.alt), ai = around(IN, sum > 0 ? c.alt : c.segs);
        c.area = sum > 0 ? ao : ai; c.altArea = sum > 0 ? ai : ao;
    }
    return c;
}

} // namespace ref
#endif
