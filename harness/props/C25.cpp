#include "optim.h"
#include <iostream>
const char* PROP_ID = "C25";
const char* PROP_RULE = "at least one constraint, and at least twenty probes of values and gradients compared with the reference";
const unsigned long QUICK_CASES = 120000, THOROUGH_CASES = 500000;

namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }

// What the solver does on each call: 0 succeed, 1 round-off failure, 2 invalid arguments, 3 general failure, 4 out of memory
enum { OK, ROUNDOFF, INVALID, FAILED, NOMEM };

void property(Src& s)
{
    opt::Problem p = opt::gen(s, s.chance(1, 2)); bool flat0 = s.chance(1, 25); // an objective no move can change
    if (flat0) { for (auto& q : p.pts) q.sensitivities[0] = 0; p.maxSens[0] = 0; s.label("objective no move can change"); }
    auto isFlat = [&](int k) { return k ? k == p.flat : flat0; };
    opt::Active a = opt::active(p);
    if (a.delicate) { s.label("constraint at the limit of reach"); throw Discard(); }
    // wider side limits than discretisation sets: the functions handed over must still be those of the clamped moves
    if (s.chance(1, 2)) { bool any = false; for (auto& q : p.pts) if (q.isDomain && !q.isFixed) { q.negativeLimit = -p.ml * s.uniform(0, 1); any = true; } if (any) { a = opt::active(p); if (a.delicate) throw Discard(); } }
    size_t n = a.act.size(); std::vector<int> plan; int ending = (int) s.weighted({12, 1, 1, 1, 1}); int fails = (int) s.weighted({6, 2, 1, 1}); if (fails == 3) fails = (int) s.range(3, 12);
    bool forever = ending == OK && s.chance(1, 40); if (s.chance(1, 3)) fails = 0;
    int calls = 0, probes = 0; static const nlopt::result codes[] = {nlopt::XTOL_REACHED, nlopt::SUCCESS, nlopt::FTOL_REACHED, nlopt::MAXEVAL_REACHED, nlopt::STOPVAL_REACHED, nlopt::MAXTIME_REACHED};
    nlopt::result code = codes[s.weighted({4, 1, 1, 1, 1, 1})]; Vec final, scaleVar, scaleFun(n, 0); std::string why; double fval = 0; bool clampSeen = false;
    s.desc("%d round-off failures then %s", fails, forever ? "more of them for ever" : ending == OK ? "success" : ending == INVALID ? "invalid arguments" : ending == ROUNDOFF ? "success" : "another failure");
    if (ending == ROUNDOFF) ending = OK;
    nlopt::stub_solver = [&](nlopt::opt& o, std::vector<double>& x, double& f) -> nlopt::result {
        calls++; if (calls > 5000) fail("the optimisation is retried without end");
        REQUIRE(o.n == n, "%u variables for %zu functions", o.n, n); REQUIRE(o.maximise == p.isMax, "%s asked for, %s wanted", o.maximise ? "maximum" : "minimum", p.isMax ? "maximum" : "minimum");
        // functions in the order of the variables
        std::vector<nlopt::opt::Func> fn = {o.objective}; size_t ie = 0, ii = 0;
        REQUIRE(o.order.size() == n - 1, "%zu constraints handed over, %zu are active", o.order.size(), n - 1);
        for (size_t j = 0; j + 1 < n; j++) { REQUIRE((o.order[j] == 1) == p.eq[a.act[j + 1] - 1], "constraint %d is handed over as an %s", a.act[j + 1], o.order[j] ? "equality" : "inequality"); fn.push_back(o.order[j] ? o.equality[ie++] : o.inequality[ii++]); }
        scaleVar.clear(); for (size_t j = 0; j < n; j++) { REQUIRE(o.ub[j] > 0 && std::fabs(o.lb[j] + o.ub[j]) <= 1e-12 * o.ub[j], "bounds [%.9g,%.9g] of variable %zu", o.lb[j], o.ub[j], j); scaleVar.push_back(opt::bound(p, a.act[j]) / o.ub[j]); }
        for (size_t j = 0; j < n; j++) REQUIRE(x[j] >= o.lb[j] && x[j] <= o.ub[j], "starting value %.9g of variable %zu is outside its bounds", x[j], j);
        if (calls == 1) for (size_t j = 0; j < n; j++) if (!isFlat(a.act[j])) {
            double given = p.lambda0[a.act[j]], got = x[j] * scaleVar[j], lim = opt::bound(p, a.act[j]);
            if (std::fabs(given) < lim * (1 - 1e-9)) REQUIRE(std::fabs(got - given) <= 1e-9 * lim, "the solver starts from %.12g for the multiplier of function %d, given %.12g", got, a.act[j], given);
            else if (std::fabs(given) > lim * (1 + 1e-9)) REQUIRE(got * given > 0 && std::fabs(got) >= 0.1 * lim, "the solver starts from %.12g for the multiplier of function %d, given %.12g (limit %.9g)", got, a.act[j], given, lim);
        }
        auto probe = [&](const Vec& q, size_t k, bool wantGrad) {
            Vec l; for (size_t j = 0; j < n; j++) l.push_back(q[j] * scaleVar[j]);
            bool cl; Vec z = opt::displacement(p, a.act, l, &cl); if (cl) clampSeen = true;
            double want = opt::change(p, z, a.act[k]), size = 0; for (size_t i = 0; i < z.size(); i++) size += p.ml * std::fabs(p.s(i, a.act[k])) * p.pts[i].length; 
            if (k > 0) { double t = a.target[k - 1] * std::pow(0.7, calls - 1); want -= t; size += std::fabs(t); }
            Vec g; if (wantGrad) { g.assign(n, 777); } Vec q2 = q; double v = fn[k].f(q2, g, fn[k].data); probes++;
            REQUIRE(same(q, q2), "evaluating function %d changed the multipliers", a.act[k]);
            REQUIRE(g.size() == (wantGrad ? n : 0), "a gradient of %zu components for %zu variables", g.size(), n);
            REQUIRE(fin(v), "function %d is %g", a.act[k], v);
            for (double d : g) REQUIRE(fin(d), "a derivative of function %d is %g", a.act[k], d);
            // values are handed over in units of the solver's own choosing, one positive factor per function
            if (scaleFun[k] == 0) { if (std::fabs(want) <= 1e-3 * size) return; scaleFun[k] = v / want; REQUIRE(scaleFun[k] > 0, "function %d has the wrong sign: %.9g handed over, %.9g expected", a.act[k], v, want); }
            REQUIRE(std::fabs(v / scaleFun[k] - want) <= 1e-8 * size, "function %d at the multipliers probed is %.12g, the clamped displacements give %.12g (call %d)", a.act[k], v / scaleFun[k], want, calls);
            if (wantGrad) for (size_t j = 0; j < n; j++) {
                double w = 0, sz = 0; for (size_t i = 0; i < z.size(); i++) if (!p.pts[i].isFixed) { double t = p.s(i, a.act[k]) * p.s(i, a.act[j]) * p.pts[i].length; w += t; sz += std::fabs(t); }
                double got = g[j] / scaleFun[k] / scaleVar[j];
                if (!cl) REQUIRE(std::fabs(got - w) <= 1e-8 * sz + 1e-300, "derivative of function %d by the multiplier of function %d is %.12g, expected %.12g", a.act[k], a.act[j], got, w);
            }
        };
        // calibrate, then probe in any order
        for (size_t k = 0; k < n; k++) if (scaleFun[k] == 0) for (int sg = -1; sg <= 1 && scaleFun[k] == 0; sg += 2) { Vec q(n, 0); q[k] = sg * o.ub[k] * 0.9; probe(q, k, false); q[0] = sg * o.ub[0] * 0.7; probe(q, k, false); }
        int np = calls <= 2 ? (int) s.range(4, 24) : 2; Vec last = x;
        for (int t = 0; t < np; t++) {
            Vec q(n); unsigned how = s.weighted({4, 2, 2, 1}); for (size_t j = 0; j < n; j++) q[j] = how == 0 ? o.ub[j] * s.uniform(-1, 1) : how == 1 ? (s.chance(1, 2) ? o.ub[j] : o.lb[j]) : how == 2 ? 1e-3 * o.ub[j] * s.uniform(-1, 1) : s.chance(1, 2) ? 0 : o.ub[j] * s.uniform(-1, 1);
            bool all = s.chance(1, 2); if (all) for (size_t k = 0; k < n; k++) probe(q, k, s.chance(3, 4)); else probe(q, (size_t) s.draw(n), s.chance(3, 4));
            last = q;
        }
        bool more = forever || calls <= fails; Vec none;
        if (last[0] == 0) last[0] = 0.5 * o.ub[0];
        x = last; f = fval = fn[0].f(x, none, fn[0].data);
        if (more) throw nlopt::roundoff_limited();
        if (ending == INVALID) throw std::invalid_argument("nlopt invalid argument"); if (ending == FAILED) throw std::runtime_error("nlopt failure"); if (ending == NOMEM) throw std::bad_alloc();
        final.clear(); for (size_t j = 0; j < n; j++) final.push_back(x[j] * scaleVar[j]);
        return code;
    };
    Vec lambda = p.lambda0; std::vector<BoundaryPoint> pts = p.pts; double dt = -1; 
    slsm::Optimise o(pts, p.dist, lambda, dt, p.ml, p.isMax, p.defaultEq ? std::vector<bool>() : p.eq);
    auto status = [&]() { std::ostringstream os; std::streambuf* b = std::cout.rdbuf(os.rdbuf()); o.queryReturnCode(); std::cout.rdbuf(b); return os.str(); };
    if (s.chance(1, 4)) REQUIRE(status().find("No optimisation") != std::string::npos, "before any optimisation the status is '%s'", status().c_str());
    int rounds = s.chance(1, 4) ? (int) s.range(2, 3) : 1;
    for (int round = 0; round < rounds; round++) {
        if (round && s.chance(1, 2)) { // the boundary has moved on: other points, the same functions
            opt::Problem q = opt::gen(s, s.chance(1, 2)); for (auto& r : q.pts) { r.sensitivities.resize(std::max(2, p.m + 1), 0); for (int k = q.m + 1; k <= p.m; k++) r.sensitivities[k] = s.uniform(-1, 1); r.negativeLimit = std::max(r.negativeLimit, -p.ml); }
            p.pts = q.pts; p.flat = q.flat <= p.m ? q.flat : 0; flat0 = false; if (!opt::finish(p)) return; for (double& v : p.lambda0) v = s.uniform(-2, 2);
            a = opt::active(p); if (a.delicate) return; n = a.act.size(); pts = p.pts; s.label("solved again with another boundary");
        }
        calls = 0; scaleFun.assign(n, 0); if (round) { lambda = p.lambda0; s.label("solved twice"); }
        bool thrown = false; double value = 0; std::string what;
        try { value = o.solve(); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::runtime_error& e) { thrown = true; what = e.what(); }
        for (size_t i = 0; i < pts.size(); i++) { const BoundaryPoint &q = pts[i], &q0 = p.pts[i]; REQUIRE(same(q.sensitivities, q0.sensitivities) && q.coord.x == q0.coord.x && q.length == q0.length && q.isFixed == q0.isFixed && q.isDomain == q0.isDomain && q.negativeLimit == q0.negativeLimit, "point %zu changed by more than its velocity", i); }
        if (ending == FAILED || ending == NOMEM) { REQUIRE(thrown || lambda.size() == (size_t) p.m + 1, "multipliers lost"); s.label("solver failure passed on"); if (!forever) return; }
        REQUIRE(lambda.size() == (size_t) p.m + 1, "%zu multipliers returned for %d functions", lambda.size(), p.m + 1);
        for (double v : lambda) REQUIRE(fin(v), "multiplier %g", v);
        for (int k = 1; k <= p.m; k++) if (std::find(a.act.begin(), a.act.end(), k) == a.act.end()) REQUIRE(lambda[k] == 0, "constraint %d was dropped, yet its multiplier is %.9g", k, lambda[k]);
        std::string st = status();
        if (forever) { REQUIRE(calls > 1, "a round-off failure was not retried"); REQUIRE(st.find("roundoff") != std::string::npos, "after round-off failures the status is '%s'", st.c_str()); s.label("round-off failures for ever"); continue; }
        if (ending == INVALID) { REQUIRE(st.find("Invalid arguments") != std::string::npos, "after an argument failure the status is '%s'", st.c_str()); s.label("argument failure"); continue; }
        REQUIRE(calls == fails + 1, "%d attempts after %d round-off failures", calls, fails);
        static const char* texts[] = {"", "Generic success", "stopval", "ftol", "xtol", "maxeval", "maxtime"};
        REQUIRE(st.find(texts[code]) != std::string::npos, "the solver reported code %d, the status is '%s'", (int) code, st.c_str());
        if (fails) s.label("round-off failures, then success");
        // the result is what the solver returned, scaled back to the displacement limit
        Vec z = opt::displacement(p, a.act, final); double zm = 0; for (double v : z) zm = std::max(zm, std::fabs(v)); double t = zm > p.ml ? p.ml / zm : 1; if (std::fabs(zm / p.ml - 1) < 1e-12) continue;
        for (size_t j = 0; j < n; j++) if (!isFlat(a.act[j])) REQUIRE(std::fabs(lambda[a.act[j]] - t * final[j]) <= 1e-9 * opt::bound(p, a.act[j]), "multiplier of function %d is %.12g, the solver chose %.12g (rescaled by %.9g)", a.act[j], lambda[a.act[j]], final[j], t);
        if (flat0) REQUIRE(value == 0 && dt == std::fabs(lambda[0]), "no move changes the objective: change %.9g, time step %.9g, multiplier %.9g", value, dt, lambda[0]);
        else REQUIRE(std::fabs(dt - std::fabs(t * final[0])) <= 1e-9 * opt::bound(p, 0), "time step %.12g, expected %.12g", dt, std::fabs(t * final[0]));
        double f0 = t * fval / scaleFun[0]; if (scaleFun[0] > 0) REQUIRE(std::fabs(value - f0) <= 1e-9 * (std::fabs(f0) + 1e-12) + 1e-15, "objective change returned %.12g, the solver reported %.12g", value, f0);
        Vec l; for (double v : final) l.push_back(v * t); z = opt::displacement(p, a.act, l);
        for (size_t i = 0; i < z.size(); i++) REQUIRE(std::fabs(pts[i].velocity * dt - z[i]) <= 1e-8 * p.ml, "point %zu moves by %.12g, expected %.12g", i, pts[i].velocity * dt, z[i]);
    }
    if (a.dropped) s.label("constraint dropped"); if (clampSeen) s.label("probed where side limits act"); s.maximise("probes in a case", probes);
    s.nontrivial(p.m >= 1 && probes >= 20);
}
