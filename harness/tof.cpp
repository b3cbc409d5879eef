// Time of flight: slowing-down integral of an arbitrary stopping power (stub).
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/integrator.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static double S(double e) { return vs_ufr("dedx", 0.01, 100, 1, e); }
namespace catima {
double dedx(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "stopping power is evaluated for the given projectile");
    vs_check(m == M, "stopping power is evaluated for the given material");
    vs_check(c == C, "stopping power is evaluated with the given configuration");
    return S(p.T);
}
}
static void setup(double rmin = 1e-8) {
    P = Projectile(vs_double("A", 1, 300, 12), 6, 5, vs_double("T", Ezero, 1e7, 100));
    M = Material({{12.011, 6, 1}, {1.008, 1, 4}}, 1.0);
    M.density(vs_double("rho", rmin, 100, 2));
    any_config(C);
}
static double f(double e) { return 1 / (S(e) * beta_from_T(e)); }
VS_CASE(case_tof) {
    setup();
    double T = P.T, X = vs_double("X", Ezero, 1e7, 50);
    vs_assume(X <= T);
    double r = calculate_tof_from_E(P, X, M, C);
    double i = integrator.integrate(f, X, T);
    vs_close(r, P.A * i / (c_light / 10 * M.density()), 1e-9, 0, "time of flight is the integral of mass over velocity and stopping power");
    Material q = M;
    double k = vs_double("k", 0.1, 10, 2);
    q.density(M.density() * k);
    double d0 = M.density();
    M.density(q.density());
    double s = calculate_tof_from_E(P, X, q, C);
    vs_close(s * k, r, 1e-9, 0, "time of flight is inversely proportional to the density");
    M.density(d0);
}
VS_CASE(case_sign) {
    setup();
    vs_check(calculate_tof_from_E(P, P.T, M, C) == 0, "no time is needed without energy loss");
    double E[] = {0.001, 0.9, 1, 40, 1000, 1010, 99000};
    int i = vs_choice("i", 0, 5);
    P.T = E[i + 1];
    double X = E[i];
    vs_check(calculate_tof_from_E(P, X, M, C) > 0, "time of flight is positive");
}
VS_CASE(case_table) {
    setup(1e-4);
    std::vector<double> v = calculate_tof(P, M, C);
    vs_check(v.size() == max_datapoints, "time of flight table has an entry for every energy");
    double s = 0;
    vs_close(v[0], 0, 0, 1e-6, "time of flight table starts at zero");
    for (int i = 1; i < max_datapoints; i++) {
        s += integrator.integrate(f, energy_table(i - 1), energy_table(i));
        vs_close(v[i], P.A * s / (c_light / 10 * M.density()), 1e-6, 1e-6, "time of flight table accumulates the integral");
    }
}
