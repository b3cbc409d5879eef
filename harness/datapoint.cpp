// Tables precalculated for a combination: running integrals of arbitrary stopping power, variance and scattering power.
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/integrator.h"
using namespace catima;
static Projectile P;
static Config C;
static const Material* M;
static void same_input(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "integrands are evaluated for the given projectile");
    vs_check(m == *M, "integrands are evaluated for the given material");
    vs_check(c == C, "integrands are evaluated with the given configuration");
}
static double S(double e) { return vs_ufr("dedx", 0.01, 100, 1, e); }
static double W(double e) { return vs_ufr("omega", 0, 100, 1, e); }
static double A2(double e) { return vs_ufr("theta", 0, 100, 1, e); }
namespace catima {
double dedx(const Projectile& p, const Material& m, const Config& c) { same_input(p, m, c); return S(p.T); }
double domega2dx(const Projectile& p, const Material& m, const Config& c) { same_input(p, m, c); return W(p.T); }
double da2dx(const Projectile& p, const Material& m, const Config& c) { same_input(p, m, c); return A2(p.T); }
}
static DataPoint table(const Material& m) {
    P = Projectile(vs_double("A", 1, 300, 12), 6, 5);
    any_config(C);
    M = &m;
    return calculate_DataPoint(P, m, C);
}
VS_CASE(case_integrals) {
    Material m({{12.011, 6, 1}, {1.008, 1, 4}}, 0.5);
    DataPoint d = table(m);
    vs_check(d.range.size() == max_datapoints && d.range_straggling.size() == max_datapoints && d.angular_variance.size() == max_datapoints, "tables have an entry for every energy");
    vs_check(d.range[0] == 0 && d.range_straggling[0] == 0 && d.angular_variance[0] == 0, "tables start at zero");
    vs_check(d.p == P && d.m == m && d.config == C, "tables are labelled with the combination");
    auto fr = [](double e) { return 1 / S(e); };
    auto fw = [](double e) { return W(e) / (S(e) * S(e) * S(e)); };
    auto ft = [](double e) { return A2(e) / S(e); };
    for (int i = 1; i < max_datapoints; i++) {
        double a = energy_table(i - 1), b = energy_table(i);
        double r = integrator.integrate(fr, a, b);
        double w = integrator.integrate(fw, a, b);
        double t = integrator.integrate(ft, a, b);
        vs_close(d.range[i] - d.range[i - 1], P.A * r, 1e-6, 0, "range grows by the integral of the inverse stopping power");
        vs_close(d.range_straggling[i] - d.range_straggling[i - 1], P.A * w, 1e-6, 1e-12, "range variance grows by the integral of variance over cubed stopping power");
        vs_close(d.angular_variance[i] - d.angular_variance[i - 1], P.A * t, 1e-6, 1e-12, "angular variance grows by the integral of scattering power over stopping power");
    }
}
VS_CASE(case_monotone) {
    Material m({{12.011, 6, 1}, {1.008, 1, 4}}, 0.5);
    DataPoint d = table(m);
    for (int i = 1; i < max_datapoints; i++) {
        vs_check(d.range[i] > d.range[i - 1], "range increases with energy");
        vs_check(d.range_straggling[i] >= d.range_straggling[i - 1], "range variance does not decrease with energy");
        vs_check(d.angular_variance[i] >= d.angular_variance[i - 1], "angular variance does not decrease with energy");
    }
}
