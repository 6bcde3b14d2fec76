// Shared helpers for the demonstrations: FAIL if a requirement does not hold.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "Common.h"
#include "Mesh.h"
#include "Heap.h"
#include "Hole.h"
#include "MersenneTwister.h"
#include "FastMarchingMethod.h"
#include "LevelSet.h"
#include "Boundary.h"
#include "InputOutput.h"
#include "Sensitivity.h"
#define REQUIRE(c) do { if (!(c)) { std::printf("FAIL line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
inline bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol; }
// Run f in a child process; true if it finished normally with exit code 0.
template <class F> bool survives(F f)
{
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) { std::freopen("/dev/null", "w", stderr); f(); std::_Exit(0); }
    int st = 0; waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// Run f in a child process; true if it exited cleanly with EXIT_FAILURE.
template <class F> bool rejects(F f)
{
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) { std::freopen("/dev/null", "w", stderr); f(); std::_Exit(0); }
    int st = 0; waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE;
}
