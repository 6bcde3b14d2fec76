// Linked to each demonstration program: the solver it uses, which ends the program after a given number of solves.
#include "optim.h"
#include <unistd.h>
#include <iostream>
#include <cstdarg>
#include <unistd.h>
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> stub_solver; }
void fail(const char* f, ...) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); fflush(stdout); _exit(96); }
static long solves = 0, limit = 0;
static nlopt::result solve(nlopt::opt& o, std::vector<double>& x, double& f)
{
    if (solves++ >= limit) { fflush(stdout); std::cout.flush(); _exit(43); }
    return opt::exactSolver(o, x, f);
}
static struct Init { Init() { const char* e = getenv("VERIF_SOLVES"); limit = e ? atol(e) : 1000000; nlopt::stub_solver = solve; } } init;
double demoTime(double t) { const char* e = getenv("VERIF_TIME"); return e && atof(e) > 0 ? atof(e) : t; }
