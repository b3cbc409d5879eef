// Angular scattering: models and moments along the path for an arbitrary range curve (stub).
#include <cmath>
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/integrator.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static DataPoint D;
static double estop = 1e9, rfix = 0;
static double R(double e) { return rfix > 0 ? rfix : vs_ufm("range", 1e-6, 1e7, e); }
static double eout(double T, double th) { return th > estop ? 0 : T * vs_ufr("fraction", 1e-3, 0.999, 2, T, th); }
using Table = EnergyTable<max_datapoints>;
namespace catima {
static double value(const void* s, double e) { return s == &D.range_spline ? R(e) : vs_uf("other", 1, e); }
template <> double InterpolatorCSpline<Table>::operator()(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::eval(double e) const { return value(this, e); }
DataPoint& Data::Get(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "tables of the given projectile are used");
    vs_check(m == M, "tables of the given material are used");
    vs_check(c == C, "tables of the given configuration are used");
    return D;
}
double energy_out(double T, double th, const Interpolator& s) {
    const void* q = &s;
    vs_check(q == &D.range_spline, "the range is inverted");
    return eout(T, th);
}
}
static void setup(int scattering) {
    int Z = vs_choice("Z", 1, 2) * 40 - 39;
    P = Projectile(vs_double("A", 1, 300, 12), Z, Z, vs_double("T", Ezero, 1e7, 100));
    M = Material({{12.011, 6, 1}, {1.008, 1, 4}}, 1.0);
    M.density(vs_double("rho", 1e-6, 100, 2));
    M.thickness(vs_double("th", 1e-6, 1e4, 1));
    any_config(C, false);
    C.scattering = scattering == 3 ? int(scattering_types::atima_scattering) : scattering;
    C.scattering_factor = vs_double("factor", 0.1, 10, 1.5);
}
static bool wide(int s) { return s == scattering_types::dhighland || s == scattering_types::fermi_rossi; }
static double es2() { return wide(C.scattering) ? 2 * PI * electron_mass * electron_mass * 137.035999139 : 198.81; }
static double momentum_velocity(double e) { return P.A * e * (e + 2 * atomic_mass_unit) / (e + atomic_mass_unit); }
static double power(double e) {
    if (e <= 0) return 0;
    double q = momentum_velocity(e);
    return P.Z * P.Z / (q * q);
}
// ---------------------------------------------------------------- scattering power
VS_CASE(case_power) {
    setup(vs_choice("model", 0, 3));
    double T = P.T;
    double X0 = radiation_length(M), Es = vs_double("Es", 1, 1000, 200);
    vs_close(angular_scattering_power(P, M, Es), Es * power(T) / X0, 1e-8, 0, "scattering power of a material is inverse to radiation length and squared momentum times velocity");
    Target t{12.011, 6};
    t.A = vs_double("At", 1, 300, 12);
    t.Z = vs_choice("Zt", 5, 7);
    vs_close(angular_scattering_power(P, t, Es), Es * power(T) / radiation_length(t.Z, t.A), 1e-8, 0, "scattering power of an element is inverse to radiation length and squared momentum times velocity");
    vs_close(da2dx(P, M, C), C.scattering_factor * es2() * power(T) / X0, 1e-8, 0, "scattering power has the energy scale of the selected model");
    P.T = 0;
    vs_check(angular_scattering_power(P, M, Es) == 0 && angular_scattering_power(P, t, Es) == 0 && da2dx(P, M, C) == 0, "no scattering power at rest");
}
VS_CASE(case_power_xs) {
    setup(scattering_types::gottschalk);
    double E1 = vs_double("E1", Ezero, 1e7, 200), Es = vs_double("Es", 1, 1000, 200);
    double p1 = p_from_T(E1, P.A), b1 = p1 / ((E1 + atomic_mass_unit) * P.A);
    double q = momentum_velocity(P.T), q1 = momentum_velocity(E1);
    double l1 = std::log10(1 - q / q1 * (q / q1)), l2 = std::log10(q);
    double f = 0.5244 + 0.1975 * l1 + 0.2320 * l2 - 0.0098 * l2 * l1;
    double x = angular_scattering_power_xs(P, M, p1, b1, Es);
    vs_close(x * scattering_length(M) * q * q, f * Es * P.Z * P.Z, 1e-8, 1e-8, "differential Moliere scattering power uses scattering length and the initial momentum times velocity");
}
// ---------------------------------------------------------------- moments
static double L, T0;
static int N;
static double weight(double x) {
    double r = 1;
    for (int i = 0; i < N; i++) r *= L - x;
    return r;
}
static void path(bool fixed) {
    T0 = P.T;
    if (fixed) {
        double th[] = {1, 3, 0.01}, r[] = {100, 2, 0.011};
        int i = vs_choice("target", 0, 2);
        M.density(2.5);
        M.thickness(th[i]);
        rfix = r[i];
    }
    double a = R(T0) / M.density(), b = M.thickness() / M.density();
    if (!fixed) vs_assume(a != b);
    L = a < b ? a : b;
}
static void check_variance(double f, double x) {
    double v = angular_variance(P, M, C, N);
    double y = C.scattering_factor * M.density() * f * x;
    switch (N) {
    case 0: vs_close(v, y, 1e-7, 0, "angular variance is the integral of the scattering power along the path"); break;
    case 1: vs_close(v, y, 1e-7, 0, "covariance is the integral weighted with the remaining path"); break;
    default: vs_close(v, y, 1e-7, 0, "position variance is the integral weighted with the squared remaining path");
    }
}
static double g(double x) { return weight(x) * power(eout(T0, x * M.density())); }
VS_CASE(case_moments) {
    setup(vs_choice("model", 0, 1) ? scattering_types::fermi_rossi : scattering_types::atima_scattering);
    N = vs_choice("order", 0, 2);
    path(false);
    check_variance(es2() / radiation_length(M), integrator.integrate(g, 0, L));
}
static double X0;
static double gh(double x) {
    double l = std::log(x * M.density() / X0);
    return g(x) * 0.97 * (1 + l / 20.7) * (1 + l / 22.7);
}
VS_CASE(case_highland) {
    setup(scattering_types::dhighland);
    N = vs_choice("order", 0, 2);
    path(true);
    X0 = radiation_length(M);
    check_variance(es2() / radiation_length(M), integrator.integrate(gh, 0, L));
}
static double gg(double x) {
    Projectile p = P;
    p.T = eout(T0, x * M.density());
    double p1 = p_from_T(T0, P.A);
    return weight(x) * angular_scattering_power_xs(p, M, p1, p1 / ((T0 + atomic_mass_unit) * P.A));
}
VS_CASE(case_gottschalk) {
    setup(scattering_types::gottschalk);
    N = vs_choice("order", 0, 2);
    path(false);
    check_variance(1, integrator.integrate(gg, 0, L));
}
VS_CASE(case_stopped) {
    setup(scattering_types::atima_scattering);
    N = vs_choice("order", 0, 2);
    path(true);
    double f[] = {0, 0.01, 0.3, 0.6, 0.99};
    estop = f[vs_choice("stop", 0, 4)] * M.thickness();

    check_variance(es2() / radiation_length(M), integrator.integrate(g, 0, L));
}
