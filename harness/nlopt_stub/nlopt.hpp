// A stand-in for NLopt's C++ interface (the real library is not installed).
// It records the problem it is given and hands it to a solver chosen by the
// check, which probes the callbacks, reports a solution or a failure.
#ifndef VERIF_NLOPT_STUB_HPP
#define VERIF_NLOPT_STUB_HPP

#include <cmath>
#include <functional>
#include <limits>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace nlopt {

enum algorithm {
    GN_DIRECT = 0, GN_DIRECT_L, GN_DIRECT_L_RAND, GN_DIRECT_NOSCAL, GN_DIRECT_L_NOSCAL, GN_DIRECT_L_RAND_NOSCAL, GN_ORIG_DIRECT, GN_ORIG_DIRECT_L,
    GD_STOGO, GD_STOGO_RAND, LD_LBFGS_NOCEDAL, LD_LBFGS, LN_PRAXIS, LD_VAR1, LD_VAR2, LD_TNEWTON, LD_TNEWTON_RESTART, LD_TNEWTON_PRECOND, LD_TNEWTON_PRECOND_RESTART,
    GN_CRS2_LM, GN_MLSL, GD_MLSL, GN_MLSL_LDS, GD_MLSL_LDS, LD_MMA, LN_COBYLA, LN_NEWUOA, LN_NEWUOA_BOUND, LN_NELDERMEAD, LN_SBPLX, LN_AUGLAG, LD_AUGLAG,
    LN_AUGLAG_EQ, LD_AUGLAG_EQ, LN_BOBYQA, GN_ISRES, AUGLAG, AUGLAG_EQ, G_MLSL, G_MLSL_LDS, LD_SLSQP, LD_CCSAQ, GN_ESCH, NUM_ALGORITHMS
};
enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
    SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };

class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };

typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);

class opt;
// The solver used by opt::optimize.  Defined by the check.
extern std::function<result(opt&, std::vector<double>&, double&)> stub_solver;

class opt {
public:
    struct Func { vfunc f; void* data; double tol; };
    opt() : algo(LD_SLSQP), n(0) {}
    opt(algorithm a, unsigned n_) : algo(a), n(n_), lb(n_, -HUGE_VAL), ub(n_, HUGE_VAL) {}
    algorithm get_algorithm() const { return algo; }
    const char* get_algorithm_name() const { return "stub"; }
    unsigned get_dimension() const { return n; }
    void set_lower_bounds(const std::vector<double>& v) { size(v); lb = v; }
    void set_lower_bounds(double v) { lb.assign(n, v); }
    void set_upper_bounds(const std::vector<double>& v) { size(v); ub = v; }
    void set_upper_bounds(double v) { ub.assign(n, v); }
    std::vector<double> get_lower_bounds() const { return lb; }
    std::vector<double> get_upper_bounds() const { return ub; }
    void set_min_objective(vfunc f, void* d) { objective = Func{f, d, 0}; hasObjective = true; maximise = false; }
    void set_max_objective(vfunc f, void* d) { objective = Func{f, d, 0}; hasObjective = true; maximise = true; }
    void add_inequality_constraint(vfunc f, void* d, double tol = 0) { inequality.push_back(Func{f, d, tol}); order.push_back(0); }
    void add_equality_constraint(vfunc f, void* d, double tol = 0) { equality.push_back(Func{f, d, tol}); order.push_back(1); }
    void remove_inequality_constraints() { inequality.clear(); strip(0); }
    void remove_equality_constraints() { equality.clear(); strip(1); }
    void set_stopval(double) {} void set_ftol_rel(double) {} void set_ftol_abs(double) {} void set_xtol_rel(double) {}
    void set_xtol_abs(double) {} void set_xtol_abs(const std::vector<double>&) {} void set_maxeval(int) {} void set_maxtime(double) {}
    void set_initial_step(double) {} void set_initial_step(const std::vector<double>&) {}
    result optimize(std::vector<double>& x, double& f)
    {
        if (x.size() != n) throw std::invalid_argument("dimension mismatch");
        if (!hasObjective) throw std::invalid_argument("no objective");
        for (unsigned i = 0; i < n; i++) if (!(lb[i] <= ub[i]) || !(x[i] >= lb[i]) || !(x[i] <= ub[i])) throw std::invalid_argument("bounds");
        result r = stub_solver(*this, x, f); last = r; lastValue = f; return r;
    }
    std::vector<double> optimize(const std::vector<double>& x0) { std::vector<double> x(x0); double f; optimize(x, f); return x; }
    result last_optimize_result() const { return last; }
    double last_optimum_value() const { return lastValue; }

    algorithm algo; unsigned n; std::vector<double> lb, ub; Func objective; bool hasObjective = false, maximise = false;
    std::vector<Func> inequality, equality; std::vector<int> order; // order in which constraints were added (1: equality)
private:
    void size(const std::vector<double>& v) { if (v.size() != n) throw std::invalid_argument("dimension mismatch"); }
    void strip(int k) { std::vector<int> o; for (int v : order) if (v != k) o.push_back(v); order = o; }
    result last = FAILURE; double lastValue = 0;
};

}
#endif
