// The library as C++ users get it (no PYBIND), compiled in a namespace of its own so that both
// variants fit in one program: the reference for the overloads that only the bindings use.
#define slsm slsm_plain
#include "LevelSet.h"
#include "Boundary.h"
#include "MersenneTwister.h"
#include "Optimise.h"
#include <iostream>
#include <memory>
#include <sstream>
using namespace slsm;
double plain_velocities(void* ls, void* points, double& dt, double T, void* rng) { return ((LevelSet*) ls)->computeVelocities(*(std::vector<BoundaryPoint>*) points, dt, T, *(MersenneTwister*) rng); }
double plain_optimise(void* points, std::vector<double> dist, std::vector<double>& lambdas, double& dt, int given, double limit, bool isMax, const std::vector<bool>& eq, int solves, std::string& printed)
{
    std::vector<BoundaryPoint>& p = *(std::vector<BoundaryPoint>*) points;
    std::unique_ptr<Optimise> o(given == 0 ? new Optimise(p, dist, lambdas, dt) : given == 1 ? new Optimise(p, dist, lambdas, dt, limit) : given == 2 ? new Optimise(p, dist, lambdas, dt, limit, isMax) : new Optimise(p, dist, lambdas, dt, limit, isMax, eq));
    double r = 0; for (int i = 0; i < solves; i++) r = o->solve();
    std::ostringstream s; std::streambuf* old = std::cout.rdbuf(s.rdbuf()); o->queryReturnCode(); std::cout.rdbuf(old); printed = s.str();
    return r;
}
