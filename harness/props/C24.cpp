#include "optim.h"
const char* PROP_ID = "C24";
const char* PROP_RULE = "at least one constraint and at least three free points, and the result compared with the optimum of the linear programme";
const unsigned long QUICK_CASES = 14000, THOROUGH_CASES = 250000;

namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }

struct Result { Vec lambda; double dt, value; std::vector<BoundaryPoint> pts; int tries; };
static Result run(const opt::Problem& p)
{
    Result r; r.lambda = p.lambda0; r.pts = p.pts; r.dt = -1; nlopt::stub_solver = opt::exactSolver; opt::attempts() = 0;
    slsm::Optimise o(r.pts, p.dist, r.lambda, r.dt, p.ml, p.isMax, p.defaultEq ? std::vector<bool>() : p.eq);
    r.value = o.solve(); r.tries = opt::attempts(); return r;
}

void property(Src& s)
{
    opt::Problem p = opt::gen(s, s.chance(1, 4)); opt::Active a = opt::active(p);
    if (a.delicate) { s.label("constraint at the limit of reach"); throw Discard(); }
    Result r = run(p); size_t n = a.act.size();
    REQUIRE(r.lambda.size() == (size_t) p.m + 1, "%zu multipliers returned for %d functions", r.lambda.size(), p.m + 1);
    for (double v : r.lambda) REQUIRE(fin(v), "multiplier %g", v);
    for (int k = 1; k <= p.m; k++) if (std::find(a.act.begin(), a.act.end(), k) == a.act.end()) REQUIRE(r.lambda[k] == 0, "constraint %d cannot become active, yet its multiplier is %.9g", k, r.lambda[k]);
    // a constraint no move can change asks for nothing
    for (size_t j = 1; j < n; j++) if (a.act[j] == p.flat) { a.act.erase(a.act.begin() + j); a.target.erase(a.target.begin() + j - 1); n--; break; }
    for (int k = 0; k <= p.m; k++) if (!k || k != p.flat) REQUIRE(std::fabs(r.lambda[k]) <= opt::bound(p, k) * (1 + 1e-9), "multiplier %d is %.9g, outside +-%.9g", k, r.lambda[k], opt::bound(p, k));
    REQUIRE(r.dt == std::fabs(r.lambda[0]), "time step %.12g, objective multiplier %.12g", r.dt, r.lambda[0]);
    if (r.dt < 1e-7 * opt::bound(p, 0)) { s.label("no objective component: velocities undefined"); throw Discard(); }
    std::vector<int> all; for (int k = 0; k <= p.m; k++) all.push_back(k);
    bool clamped; Vec z = opt::displacement(p, all, r.lambda, &clamped); double zmax = 0;
    for (size_t i = 0; i < z.size(); i++) {
        const BoundaryPoint &q = r.pts[i], &q0 = p.pts[i]; double d = q.velocity * r.dt; zmax = std::max(zmax, std::fabs(d));
        REQUIRE(std::fabs(d - z[i]) <= 1e-9 * p.ml, "point %zu moves by %.12g in the time step, the multipliers give %.12g", i, d, z[i]);
        REQUIRE(std::fabs(d) <= p.ml * (1 + 1e-9), "point %zu moves by %.12g, the limit is %g", i, d, p.ml);
        if (q0.isFixed) REQUIRE(q.velocity == 0, "fixed point %zu has velocity %.9g", i, q.velocity);
        if (q0.isDomain && !q0.isFixed) REQUIRE(d >= q0.negativeLimit - 1e-12, "point %zu on the domain edge moves outwards by %.9g, its limit is %.9g", i, d, q0.negativeLimit);
        REQUIRE(q.coord.x == q0.coord.x && q.coord.y == q0.coord.y && q.length == q0.length && same(q.sensitivities, q0.sensitivities) && q.negativeLimit == q0.negativeLimit && q.positiveLimit == q0.positiveLimit && q.isFixed == q0.isFixed && q.isDomain == q0.isDomain, "point %zu changed by more than its velocity", i);
    }
    bool rescaled = zmax > p.ml * (1 - 1e-9); double scale0 = 0; for (size_t i = 0; i < z.size(); i++) scale0 += std::fabs(p.s(i, 0)) * p.pts[i].length * p.ml;
    { double want = opt::change(p, z, 0), tol = p.domain ? 1e-6 / p.ml : 1e-8; REQUIRE(std::fabs(r.value - want) <= tol * scale0, "predicted objective change %.12g, the displacements give %.12g", r.value, want); }
    if (a.dropped) s.label("constraint dropped"); if (a.reduced) s.label("constraint target reduced"); if (rescaled) s.label("displacements rescaled"); if (clamped) s.label("side limit active");
    if (p.domain) { s.label("side limits"); return; }
    // optimum of the linear programme in multipliers relative to their bounds
    opt::LP lp; lp.isMax = p.isMax; Vec norm;
    auto coef = [&](int k, Vec& g) { g.clear(); for (int j : a.act) { double v = 0; for (size_t i = 0; i < z.size(); i++) if (!p.pts[i].isFixed) v += p.s(i, k) * p.s(i, j) * p.pts[i].length; g.push_back(v * opt::bound(p, j)); } double m = 0; for (double v : g) m = std::max(m, std::fabs(v)); if (m > 0) for (double& v : g) v /= m; return m; };
    double m0 = coef(0, lp.c); lp.lo.assign(n, -1); lp.hi.assign(n, 1); Vec rows;
    for (size_t j = 1; j < n; j++) { Vec g; double m = coef(a.act[j], g); rows.push_back(m); lp.A.push_back(g); lp.eq.push_back(p.eq[a.act[j] - 1]); }
    Vec y; double best = 0, gap = 0; int tries = 0; bool found = false;
    for (; tries < 25 && !found; tries++) {
        lp.b.clear(); for (size_t j = 1; j < n; j++) lp.b.push_back(a.target[j - 1] * std::pow(0.7, tries) / rows[j - 1]);
        found = opt::solve(lp, y, best, 1e-9, &gap);
        Vec u; double v; bool loose = opt::solve(lp, u, v, 1e-5); opt::LP t = lp; for (size_t i = 0; i < n; i++) { t.lo[i] = -1 + 1e-5; t.hi[i] = 1 - 1e-5; } for (size_t j = 0; j < t.b.size(); j++) if (!t.eq[j]) t.b[j] -= 1e-5; bool tight = opt::solve(t, u, v, 1e-9);
        if (loose != found || (tight != found)) { s.label("feasibility within rounding"); throw Discard(); }
    }
    if (!found) { s.label("constraints contradict each other"); return; }
    REQUIRE(r.tries == tries, "%d attempts at the problem, %d are needed", r.tries, tries);
    if (tries > 1) s.label("retried with tighter sides");
    Vec l; for (size_t j = 0; j < n; j++) l.push_back(y[j] * opt::bound(p, a.act[j]));
    Vec zs = opt::displacement(p, a.act, l); double zm = 0; for (double v : zs) zm = std::max(zm, std::fabs(v)); double t = zm > p.ml ? p.ml / zm : 1; 
    if (gap > 1e-5) {
        REQUIRE(std::fabs(r.value - t * best * m0) <= 1e-6 * scale0, "predicted objective change %.9g, the best feasible one is %.9g", r.value, t * best * m0);
        for (size_t i = 0; i < z.size(); i++) REQUIRE(std::fabs(r.pts[i].velocity * r.dt - t * zs[i]) <= 1e-5 * p.ml, "point %zu moves by %.9g, by %.9g in the best feasible move", i, r.pts[i].velocity * r.dt, t * zs[i]);
        s.label("compared with the optimum");
    }
    else s.label("several optimal moves");
    // feasibility of the move before the common rescaling
    { double tt = rescaled && zm > p.ml ? t : 1; if (gap > 1e-5) for (size_t j = 1; j < n; j++) { double c = opt::change(p, z, a.act[j]) / tt, target = a.target[j - 1] * std::pow(0.7, tries - 1); REQUIRE(c <= target + 1e-6 * rows[j - 1], "constraint %d changes by %.9g, allowed %.9g", a.act[j], c, target); if (lp.eq[j - 1]) REQUIRE(c >= target - 1e-6 * rows[j - 1], "equality constraint %d changes by %.9g, required %.9g", a.act[j], c, target); } }
    // a constraint that cannot become active makes no difference
    if (a.dropped && gap > 1e-5) {
        opt::Problem q = p; int k = p.m; while (std::find(a.act.begin(), a.act.end(), k) != a.act.end()) k--;
        q.m--; q.dist.erase(q.dist.begin() + k - 1); q.eq.erase(q.eq.begin() + k - 1); q.lambda0.erase(q.lambda0.begin() + k); for (auto& x : q.pts) x.sensitivities.erase(x.sensitivities.begin() + k);
        opt::finish(q); opt::Active b = opt::active(q);
        if (!b.delicate && b.act.size() == a.act.size()) {
            Result r2 = run(q); for (size_t i = 0; i < z.size(); i++) REQUIRE(std::fabs(r.pts[i].velocity * r.dt - r2.pts[i].velocity * r2.dt) <= 1e-6 * p.ml, "constraint %d cannot become active, but leaving it out changes the move of point %zu from %.9g to %.9g", k, i, r.pts[i].velocity * r.dt, r2.pts[i].velocity * r2.dt);
            s.label("compared with the constraint left out");
        }
    }
    int freePts = 0; for (auto& q : p.pts) if (!q.isFixed) freePts++;
    s.nontrivial(p.m >= 1 && freePts >= 3 && gap > 1e-5);
}
