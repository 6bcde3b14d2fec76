#include "gen.h"
#include <climits>
const char* PROP_ID = "C23";
const char* PROP_RULE = "a history of at least six draws of at least two kinds was replayed, or a sample of at least 2000 draws was tested";
const unsigned long QUICK_CASES = 240000, THOROUGH_CASES = 600000;

struct Op { int kind; int a, b; double m, sd; unsigned seed; };

static Op genOp(Src& s, bool seeding)
{
    Op o; o.kind = (int) s.weighted(seeding ? std::vector<unsigned>{3, 3, 4, 3, 1, 1} : std::vector<unsigned>{3, 3, 4, 3, 0, 1});
    unsigned k = s.weighted({4, 1, 1, 1});
    o.a = k == 0 ? (int) s.range(-20, 20) : k == 1 ? INT_MIN : k == 2 ? INT_MAX - (int) s.range(0, 3) : (int) s.range(-2000000000L, 2000000000L);
    o.b = k == 1 ? (s.chance(1, 2) ? INT_MAX : INT_MIN + (int) s.range(0, 3)) : k == 2 ? INT_MAX : (int) std::min<long>(INT_MAX, o.a + s.range(0, k == 0 ? 12 : 3000000000L));
    o.m = s.real(-10, 10); o.sd = s.real(0.01, 5); o.seed = s.chance(1, 3) ? (unsigned) s.range(0, 3) : (unsigned) s.draw(1ULL << 32);
    return o;
}

static double apply(MersenneTwister& r, const Op& o)
{
    switch (o.kind) {
        case 0: { double v = r(); REQUIRE(v >= 0 && v < 1, "uniform draw %.17g is outside [0,1)", v); return v; }
        case 1: { int v = r.integer(o.a, o.b); REQUIRE(v >= o.a && v <= o.b, "integer draw %d is outside [%d,%d]", v, o.a, o.b); return v; }
        case 2: { double v = r.normal(); REQUIRE(fin(v), "normal draw %.17g", v); return v; }
        case 3: { double v = r.normal(o.m, o.sd); REQUIRE(fin(v), "normal draw %.17g", v); return v; }
        case 4: r.setSeed(o.seed); REQUIRE(r.getSeed() == o.seed, "seed %u reads back as %u", o.seed, r.getSeed()); return 0;
        default: return r.getSeed();
    }
}

static void moments(Src& s)
{
    MersenneTwister r; unsigned seed = (unsigned) s.draw(1ULL << 32); r.setSeed(seed); unsigned kind = s.weighted({2, 3, 3, 3, 2}); const int n = s.chance(1, 8) ? 40000 : 4000; const double N = n;
    double s1 = 0, s2 = 0, s3 = 0, s4 = 0, lag = 0, prev = 0; std::vector<int> cnt;
    if (kind == 1) {
        int a = (int) s.range(-20, 20), k = (int) s.range(1, 12); cnt.assign(k, 0); s.desc("%d integer draws in [%d,%d]", n, a, a + k - 1);
        for (int i = 0; i < n; i++) { int v = r.integer(a, a + k - 1); REQUIRE(v >= a && v < a + k, "integer draw %d is outside [%d,%d]", v, a, a + k - 1); cnt[v - a]++; }
        double p = 1.0 / k; for (int i = 0; i < k; i++) REQUIRE(std::fabs(cnt[i] - N * p) <= 7 * std::sqrt(N * p * (1 - p)) + 1e-9, "%d of %d integer draws in [%d,%d] gave %d", cnt[i], n, a, a + k - 1, a + i);
        s.label("integer frequencies");
    }
    else if (kind == 4) { // wide ranges: evenly spread, odd and even alike
        int a = s.chance(1, 3) ? INT_MIN : (int) s.range(-2147483648L, 2147480000L), b = s.chance(1, 4) ? INT_MAX : (int) s.range((long) a + 3000 < INT_MAX ? a + 3000L : INT_MAX, INT_MAX); double wide = (double) b - a + 1; s.desc("%d integer draws in [%d,%d]", n, a, b);
        Vec z; long odd = 0; for (int i = 0; i < n; i++) { int v = r.integer(a, b); REQUIRE(v >= a && v <= b, "integer draw %d is outside [%d,%d]", v, a, b); z.push_back(((double) v - a + 0.5) / wide); if (v & 1) odd++; }
        std::sort(z.begin(), z.end()); double D = 0; for (int i = 0; i < n; i++) D = std::max(D, std::max(std::fabs(z[i] - i / N), std::fabs((i + 1) / N - z[i])));
        REQUIRE(D * std::sqrt(N) < 3.5 + std::sqrt(N) / wide, "integer draws in [%d,%d]: distance to the even distribution %.4g", a, b, D);
        REQUIRE(std::fabs(odd / N - 0.5) < 3.5 / std::sqrt(N) + 1 / wide, "integer draws in [%d,%d]: %ld of %d are odd", a, b, odd, n);
        s.label("integers of a wide range");
    }
    else {
        double m = s.real(-10, 10), sd = s.real(0.01, 5); if (kind == 0) { m = 0.5; sd = std::sqrt(1.0 / 12); } if (kind == 2) { m = 0; sd = 1; }
        static const char* nn[] = {"uniform", "", "standard normal", "normal"}; s.desc("%d %s draws, mean %g sd %g", n, nn[kind], m, sd);
        Vec z; for (int i = 0; i < n; i++) { double v = kind == 0 ? r() : kind == 2 ? r.normal() : r.normal(m, sd); if (kind == 0) REQUIRE(v >= 0 && v < 1, "uniform draw %.17g is outside [0,1)", v); z.push_back((v - m) / sd); }
        for (int i = 0; i < n; i++) { double x = z[i]; s1 += x; s2 += x * x; s3 += x * x * x; s4 += x * x * x * x; if (i) lag += x * prev; prev = x; }
        double k4 = kind == 0 ? 1.8 : 3, v2 = kind == 0 ? 0.8 : 2, v3 = kind == 0 ? 27.0 / 7 : 15, v4 = kind == 0 ? 9 - 3.24 : 96;
        REQUIRE(std::fabs(s1 / N) < 7 / std::sqrt(N), "%s draws: mean %.6g, expected %.6g", nn[kind], s1 / N * sd + m, m);
        REQUIRE(std::fabs(s2 / N - 1) < 7 * std::sqrt(v2 / N), "%s draws: variance is %.4g times the expected one", nn[kind], s2 / N);
        REQUIRE(std::fabs(s3 / N) < 7 * std::sqrt(v3 / N), "%s draws: normalised third moment %.4g", nn[kind], s3 / N);
        REQUIRE(std::fabs(s4 / N - k4) < 9 * std::sqrt(v4 / N), "%s draws: normalised fourth moment %.4g, expected %.4g", nn[kind], s4 / N, k4);
        REQUIRE(std::fabs(lag / N) < 7 / std::sqrt(N), "%s draws: correlation of consecutive draws %.4g", nn[kind], lag / N);
        if (kind) { int far = 0; double c = n > 4000 ? 3 : 2.5, q = std::erfc(c / std::sqrt(2.0)); for (double x : z) if (std::fabs(x) > c) far++; REQUIRE(std::fabs(far - N * q) < 7 * std::sqrt(N * q), "%s draws: %d of %d lie more than %g standard deviations away, %.3g are expected", nn[kind], far, n, c, N * q); }
        // Kolmogorov-Smirnov
        std::sort(z.begin(), z.end()); double D = 0;
        // a repeated value has a probability below 1e-6, unless the draws come in coarser steps than doubles allow
        int rep = 0; for (int i = 1; i < n; i++) if (z[i] == z[i - 1]) rep++; REQUIRE(rep <= 1, "%d of %d %s draws repeat another", rep, n, nn[kind]);
        for (int i = 0; i < n; i++) { double F = kind == 0 ? z[i] * sd + m : 0.5 * std::erfc(-z[i] / std::sqrt(2.0)); D = std::max(D, std::max(std::fabs(F - i / N), std::fabs((i + 1) / N - F))); }
        s.maximise("Kolmogorov-Smirnov statistic times sqrt(n)", D * std::sqrt(N));
        REQUIRE(D * std::sqrt(N) < 3.5, "%s draws: distance to the stated distribution %.4g", nn[kind], D);
        s.label(nn[kind]);
    }
    s.nontrivial();
}

void property(Src& s)
{
    if (s.chance(1, 25)) { moments(s); return; }
    std::vector<Op> h; int n = (int) s.range(1, 25); unsigned kinds = 0; for (int i = 0; i < n; i++) { h.push_back(genOp(s, true)); kinds |= 1u << h.back().kind; }
    unsigned seed = s.chance(1, 4) ? 0 : (unsigned) s.draw(1ULL << 32);
    MersenneTwister a; a.setSeed(seed); REQUIRE(a.getSeed() == seed, "seed %u reads back as %u", seed, a.getSeed());
    Vec want; for (auto& o : h) want.push_back(apply(a, o));
    int np = (int) s.range(0, 12); std::ostringstream os; for (auto& o : h) os << "uinNsg"[o.kind]; s.desc("seed %u, %d earlier draws, history %s", seed, np, os.str().c_str());
    // the same after other draws, and interleaved with other generators
    MersenneTwister b, other; if (s.chance(1, 2)) other.setSeed(s.chance(1, 2) ? seed : 5);
    for (int i = 0; i < np; i++) apply(b, genOp(s, true));
    b.setSeed(seed);
    bool inter = s.chance(1, 2); size_t copyAt = s.chance(1, 3) ? s.draw(h.size()) : h.size(); std::unique_ptr<MersenneTwister> copy; Vec cw;
    for (size_t i = 0; i < h.size(); i++) {
        if (inter) { int k = (int) s.range(0, 2); for (int q = 0; q < k; q++) apply(other, genOp(s, true)); }
        if (i == copyAt) copy.reset(new MersenneTwister(b));
        double v = apply(b, h[i]);
        REQUIRE(hashd(v) == hashd(want[i]), "draw %zu (%c) of the history gave %.17g, with the same seed but %d earlier draws%s it gave %.17g", i, "uinNsg"[h[i].kind], want[i], np, inter ? " and another generator in use" : "", v);
    }
    if (copy) { for (size_t i = copyAt; i < h.size(); i++) { double v = apply(*copy, h[i]); REQUIRE(hashd(v) == hashd(want[i]), "a copy diverges from its original at draw %zu", i); } s.label("copied generator"); }
    // reseeding restarts the sequence
    a.setSeed(seed); for (size_t i = 0; i < h.size(); i++) { double v = apply(a, h[i]); REQUIRE(hashd(v) == hashd(want[i]), "reseeding with %u does not restart the sequence: draw %zu (%c) gave %.17g, then %.17g", seed, i, "uinNsg"[h[i].kind], want[i], v); }
    // a generator seeded by itself reports the seed it uses
    if (s.chance(1, 4)) { MersenneTwister f, e; e.setSeed(f.getSeed()); for (int i = 0; i < 6; i++) REQUIRE(f() == e(), "the seed a new generator reports does not reproduce its draws"); s.label("self-seeded"); }
    // another seed gives another sequence
    { MersenneTwister x, y; x.setSeed(seed); y.setSeed(seed + 1); bool diff = false; for (int i = 0; i < 4; i++) if (x() != y()) diff = true; REQUIRE(diff, "seeds %u and %u give the same sequence", seed, seed + 1); }
    if (np) s.label("replayed after other draws"); if (inter) s.label("interleaved generators");
    int nk = 0; for (int i = 0; i < 5; i++) nk += kinds >> i & 1;
    s.nontrivial(n >= 6 && nk >= 2);
}
