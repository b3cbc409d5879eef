// Totals over layers with arbitrary results of the single layers (stub).
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/storage.h"
using namespace catima;
static Projectile P;
static Config C;
static int ncall;
static double f(const char* n, double lo, double hi, int layer, double T) { return vs_ufr(n, lo, hi, 2, double(layer), T); }
static Result layer_result(int i, double T) {
    Result r;
    r.Ein = T;
    r.Eout = f("Eout", 0, 1e4, i, T);
    r.Eloss = f("Eloss", 0, 1e5, i, T);
    r.range = f("range", 0, 100, i, T);
    r.dEdxi = f("dEdxi", 0, 100, i, T);
    r.dEdxo = f("dEdxo", 0, 100, i, T);
    r.sigma_E = f("sigma_E", 0, 100, i, T);
    r.sigma_a = f("sigma_a", 0, 1, i, T);
    r.sigma_r = f("sigma_r", 0, 100, i, T);
    r.sigma_x = f("sigma_x", 0, 100, i, T);
    r.cov = f("cov", -10, 10, i, T);
    r.tof = f("tof", 0, 100, i, T);
    r.sp = f("sp", -1, 1, i, T);
    return r;
}
namespace catima {
Result calculate(Projectile p, const Material& m, const Config& c) {
    ncall++;
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "layers are calculated for the given projectile");
    vs_check(c == C, "layers are calculated with the given configuration");
    return layer_result(m.get_element(0).Z, p.T);
}
}
static bool same(const Result& a, const Result& b) {
    return (a.Ein == b.Ein) & (a.Eout == b.Eout) & (a.Eloss == b.Eloss) & (a.range == b.range) & (a.dEdxi == b.dEdxi) & (a.dEdxo == b.dEdxo) & (a.sigma_E == b.sigma_E) & (a.sigma_a == b.sigma_a) & (a.sigma_r == b.sigma_r) &
           (a.sigma_x == b.sigma_x) & (a.cov == b.cov) & (a.tof == b.tof) & (a.sp == b.sp);
}
static const char* nT[] = {"th1", "th2", "th3"};
static const char* nR[] = {"rho1", "rho2", "rho3"};
#ifndef NL
#define NL 3
#endif
static double L[NL + 1];
static Layers stack(int n) {
    Layers l;
    for (int i = 1; i <= n; i++) {
        double th = vs_double(nT[i - 1], 0, 100, i), rho = vs_double(nR[i - 1], 0.1, 20, i);
        L[i] = th / rho;
        l.add(Material(12, i, rho, th));
    }
    return l;
}
static void spec(const MultiResult& r, int n, double T, double x, double a, double cov) {
    vs_check(r.results.size() == n, "one result for every layer");
    double e = T, de = 0, ve = 0, va = a * a, vx = x * x, cx = cov, t = 0, sp = 1;
    bool none = false;
    for (int i = 1; i <= n; i++) {
        Result q = layer_result(i, e);
        vs_check(same(r.results[i - 1], q), "results of the layers are those for the energy leaving the previous layer");
        e = q.Eout;
        de += q.Eloss;
        ve += q.sigma_E * q.sigma_E;
        t += q.tof;
        vx += 2 * L[i] * cx + L[i] * L[i] * va + q.sigma_x * q.sigma_x;
        cx += L[i] * va + q.cov;
        va += q.sigma_a * q.sigma_a;
        if (q.sp < 0) none = true;
        sp *= q.sp;
    }
    const Result& s = r.total_result;
    vs_check(s.Ein == T, "initial energy of the total");
    vs_check(s.Eout == e, "final energy of the total is that of the last layer");
    vs_close(s.Eloss, de, 1e-9, 1e-9, "energy losses add up");
    vs_close(s.tof, t, 1e-9, 1e-9, "times of flight add up");
    if (!none) vs_close(s.sp, sp, 1e-9, 1e-9, "survival probabilities multiply");
    vs_close(s.cov, cx, 1e-9, 1e-6, "covariance propagates through the layers");
    vs_assume(vx >= 0);
    vs_close(s.sigma_x * s.sigma_x, vx, 1e-9, 1e-6, "position variance propagates through the layers");
    vs_check(s.sigma_x >= 0 && s.sigma_a >= 0 && s.sigma_E >= 0, "spreads are not negative");
    if (e > Ezero) {
        vs_close(s.sigma_E * s.sigma_E, ve, 1e-9, 1e-6, "energy variances add up");
        vs_close(s.sigma_a * s.sigma_a, va, 1e-9, 1e-9, "angular variances add up");
    } else vs_check(s.sigma_E == 0 && s.sigma_a == 0, "no spread of energy and angle behind a stopping stack");
}
static void projectile() {
    P = Projectile(12, 6, 5, vs_double("T", 0, 1e7, 100));
    any_config(C);
}
VS_CASE(case_phasespace) {
    int n = vs_choice("n", 0, NL);
    projectile();
    Phasespace ps;
    ps.sigma_x = vs_double("x", 0, 10, 1);
    ps.sigma_a = vs_double("a", 0, 1, 0.1);
    ps.cov_x = vs_double("c", -10, 10, 0.5);
    Layers l = stack(n);
    MultiResult r = calculate(P, ps, l, C);
    vs_check(ncall == n, "every layer is calculated once");
    spec(r, n, P.T, ps.sigma_x, ps.sigma_a, ps.cov_x);
}
VS_CASE(case_point_beam) {
    int n = vs_choice("n", 0, 2);
    projectile();
    Layers l = stack(n);
    spec(calculate(P, l, C), n, P.T, 0, 0, 0);
    double T = vs_double("T2", 0, 1e7, 50);
    spec(calculate(P, T, l, C), n, T, 0, 0, 0);
}
