// Quantities derived from the tables (arbitrary curves, stubs): array interfaces, magnification, straggling between energies.
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static DataPoint D;
static double TH;       // thickness expected by the angular moments
static void same_input(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "tables of the given projectile are used");
    vs_check(m == M, "tables of the given material are used");
    vs_check(c == C, "tables of the given configuration are used");
}
static double R(double e) { return vs_ufm("range", 0, 1e7, e); }
static double RD(double e) { return vs_ufr("range slope", 1e-6, 1e6, 1, e); }
static double S(double e) { return vs_ufm("variance", 0, 1e7, e); }
static double SD(double e) { return vs_ufr("variance slope", 0, 1e6, 1, e); }
static double emin = 0;
static double eout(double T, double th) { return vs_ufr("eout", emin, 1e7, 2, T, th); }
static double moment(double T, int k) { return vs_ufr("moment", 0, 100, 2, double(k), T); }
using Table = EnergyTable<max_datapoints>;
namespace catima {
static double value(const void* s, double e) { return s == &D.range_spline ? R(e) : s == &D.range_straggling_spline ? S(e) : vs_uf("other", 1, e); }
template <> double InterpolatorCSpline<Table>::operator()(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::eval(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::derivative(double e) const {
    const void* s = this;
    return s == &D.range_spline ? RD(e) : s == &D.range_straggling_spline ? SD(e) : vs_uf("other slope", 1, e);
}
DataPoint& Data::Get(const Projectile& p, const Material& m, const Config& c) {
    same_input(p, m, c);
    return D;
}
double energy_out(double T, double th, const Interpolator& s) {
    const void* q = &s;
    vs_check(q == &D.range_spline, "the range is inverted");
    return eout(T, th);
}
double angular_variance(Projectile p, const Material& m, const Config& c, int order) {
    same_input(p, m, c);
    vs_close(m.thickness(), TH, 1e-9, 1e-12, "angular straggling is that of the target with the corresponding thickness");
    return moment(p.T, order);
}
}
static void setup() {
    P = Projectile(vs_double("A", 1, 300, 12), 6, 5, vs_double("T", Ezero, 1e7, 100));
    M = Material(27, 13, 2.5);
    M.thickness(vs_double("th", 0, 100, 1));
    any_config(C);
}
static double Rt(double v) { return __builtin_sqrt(v); }
// ---------------------------------------------------------------- array interfaces
static const char* nE[] = {"E0", "E1", "E2", "E3"};
VS_CASE(case_vectors) {
    setup();
    int n = vs_choice("n", 0, 3);
    std::vector<double> e(n);
    for (int i = 0; i < n; i++) e[i] = vs_double(nE[i], 0, 1e7, 10 * i);
    std::vector<double> o = energy_out(P, e, M, C), d = dedx_from_range(P, e, M, C);
    vs_check(o.size() == n && d.size() == n, "one value for every energy");
    for (int i = 0; i < n; i++) {
        Projectile p = P;
        p.T = e[i];
        if (e[i] < Ezero) {
            vs_check(o[i] == 0, "no outgoing energy below the lowest energy");
            vs_check(d[i] == 0, "no stopping power below the lowest energy");
        } else {
            vs_close(o[i], energy_out(p, M, C), 1e-9, 1e-9, "list of outgoing energies agrees with single evaluations");
            vs_close(d[i], dedx_from_range(p, M, C), 1e-9, 1e-9, "list of stopping powers agrees with single evaluations");
        }
    }
}
static void magnification(double E, bool momentum) {
    if (vs_choice("nodensity", 0, 1)) M.density(0);
    std::pair<double, double> w = w_magnification(P, E, M, C);
    if (M.thickness() <= 0 || M.density() <= 0) {
        vs_check(w.first == 1 && w.second == 1, "magnification of an empty target is one");
        return;
    }
    double e0 = eout(0.99 * E, M.thickness()), e1 = eout(E, M.thickness()), e2 = eout(1.01 * E, M.thickness());
    if (e0 <= 0 || e1 <= 0 || e2 <= 0) {
        vs_check(w.first == 0 && w.second == 0, "magnification is zero if the beam is stopped");
        return;
    }
    vs_close(w.first, (e2 - e0) / e1 / (1.01 * E - 0.99 * E) * E, 1e-9, 1e-9, "energy magnification is the ratio of relative energy spreads");
    if (!momentum) return;
    double p0 = p_from_T(e0, P.A), p1 = p_from_T(e1, P.A), p2 = p_from_T(e2, P.A);
    double q0 = p_from_T(0.99 * E, P.A), q1 = p_from_T(E, P.A), q2 = p_from_T(1.01 * E, P.A);
    vs_close(w.second, (p2 - p0) / p1 / (q2 - q0) * q1, 1e-9, 1e-9, "momentum magnification is the ratio of relative momentum spreads");
}
VS_CASE(case_magnification) {
    setup();
    magnification(vs_double("E", 1, 1e7, 100), false);
}
VS_CASE(case_momentum) {
    setup();
    emin = 1e-3;
    double E[] = {1, 30, 1000, 90000};
    magnification(E[vs_choice("E", 0, 3)], true);
}
// ---------------------------------------------------------------- derived quantities
VS_CASE(case_derived) {
    setup();
    double T = P.T, X = vs_double("X", Ezero, 1e7, 50);
    vs_close(range(P, M, C), R(T), 1e-9, 1e-9, "range is that of the table");
    vs_close(dedx_from_range(P, M, C), P.A / RD(T), 1e-9, 1e-9, "stopping power is mass over the slope of the range");
    vs_close(range_variance(P, X, M, C), S(X), 1e-9, 1e-9, "range variance is that of the table");
    vs_close(range_straggling(P, X, M, C), Rt(S(X)), 1e-9, 1e-9, "range straggling is the root of the variance");
    vs_close(domega2de(P, X, M, C), SD(X), 1e-9, 1e-9, "variance per energy is the slope of the variance");
    vs_close(energy_out(P, M, C), eout(T, M.thickness()), 1e-9, 1e-9, "outgoing energy uses the thickness of the material");
    TH = M.thickness();
    vs_close(angular_straggling(P, M, C), Rt(moment(T, 0)), 1e-9, 1e-9, "angular straggling is the root of the variance");
}
VS_CASE(case_between) {
    setup();
    double T = P.T, Tin = vs_double("Tin", Ezero, 1e7, 60), X = vs_double("Tout", Ezero, 1e7, 50);
    vs_assume(X <= Tin);
    vs_close(energy_straggling_from_E(P, Tin, X, M, C), Rt(S(Tin) - S(X)) / RD(X), 1e-9, 1e-9, "energy straggling between two energies follows from the range variances");
    vs_assume(X <= T);
    TH = R(T) - R(X);
    vs_close(angular_straggling_from_E(P, X, M, C), Rt(moment(T, 0)), 1e-9, 1e-9, "angular straggling between two energies is that of the target in between");
}
