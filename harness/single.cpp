// Result for one layer, with arbitrary tables, range inversion, angular moments, time of flight and survival (stubs).
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/storage.h"
#include "catima/reactions.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static DataPoint D;
static void same_input(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "everything is evaluated for the given projectile");
    vs_check(m == M && m.thickness() == M.thickness(), "everything is evaluated for the given material");
    vs_check(c == C, "everything is evaluated with the given configuration");
}
static double R(double e) { return vs_ufm("range", 0, 1e7, e); }
static double RD(double e) { return vs_ufr("range slope", 1e-6, 1e6, 1, e); }
static double S(double e) { return vs_ufm("variance", 0, 1e7, e); }
static double SD(double e) { return vs_ufr("variance slope", 0, 1e6, 1, e); }
static double A(double e) { return vs_ufm("angular", 0, 1e7, e); }
static double AD(double e) { return vs_ufr("angular slope", 0, 1e6, 1, e); }
static double eout(double T, double th) {
    double v = vs_uf("eout", 2, T, th);
    vs_assume((v == 0) | ((v >= Ezero) & (v <= T) & (R(T) > th)));
    return v;
}
static double moment(double T, int k) { return vs_ufr("moment", 0, 100, 2, double(k), T); }
static double tof(double T, double e) { return vs_ufr("tof", 0, 100, 2, T, e); }
static double survival(double T) { return vs_ufr("survival", -1, 1, 1, T); }
using Table = EnergyTable<max_datapoints>;
namespace catima {
static double value(const void* s, double e) { return s == &D.range_spline ? R(e) : s == &D.range_straggling_spline ? S(e) : A(e); }
template <> double InterpolatorCSpline<Table>::operator()(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::eval(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::derivative(double e) const {
    const void* s = this;
    return s == &D.range_spline ? RD(e) : s == &D.range_straggling_spline ? SD(e) : AD(e);
}
DataPoint& Data::Get(const Projectile& p, const Material& m, const Config& c) {
    same_input(p, m, c);
    return D;
}
double energy_out(double T, double th, const Interpolator& s) {
    const void* q = &s;
    vs_check(q == &D.range_spline, "the range is inverted");
    return eout(T, th);
}
double angular_variance(Projectile p, const Material& m, const Config& c, int order) {
    same_input(p, m, c);
    return moment(p.T, order);
}
double calculate_tof_from_E(Projectile p, double e, const Material& m, const Config& c) {
    same_input(p, m, c);
    return tof(p.T, e);
}
double nonreaction_rate(Projectile& p, const Material& m, const Config& c) {
    same_input(p, m, c);
    return survival(p.T);
}
}
static double Rt(double v) { return __builtin_sqrt(v); }
static void spec(const Result& r, double T) {
    if (T < Ezero - 1e-9) {
        vs_check(r.Ein == 0 && r.Eout == 0 && r.Eloss == 0 && r.range == 0 && r.dEdxi == 0 && r.dEdxo == 0 && r.sigma_E == 0 && r.sigma_a == 0 && r.sigma_r == 0 && r.sigma_x == 0 && r.cov == 0 && r.tof == 0,
                 "everything is zero below the lowest energy");
        return;
    }
    vs_assume(T >= Ezero);
    double th = M.thickness();
    vs_check(r.Ein == T, "initial energy");
    vs_close(r.range, R(T), 1e-9, 1e-9, "range at the initial energy");
    vs_close(r.dEdxi, P.A / RD(T), 1e-9, 1e-9, "stopping power at the initial energy");
    vs_close(r.sigma_r, Rt(S(T)), 1e-9, 1e-9, "range straggling is the root of the range variance");
    if (th == 0) {
        vs_check(r.Eout == T && r.Eloss == 0 && r.sigma_E == 0 && r.sigma_a == 0 && r.sigma_x == 0 && r.cov == 0 && r.tof == 0 && r.sp == 1, "nothing changes without thickness");
        vs_close(r.dEdxo, P.A / RD(T), 1e-9, 1e-9, "stopping power is unchanged without thickness");
        return;
    }
    double e = eout(T, th);
    vs_close(r.Eout, e, 1e-12, 0, "outgoing energy is that of the range inversion");
    vs_close(r.Eloss, (T - e) * P.A, 1e-9, 1e-9, "energy loss is mass times energy difference");
    vs_close(r.sigma_x, Rt(moment(T, 2)), 1e-9, 1e-9, "position straggling is the root of the second moment");
    vs_close(r.cov, moment(T, 1), 1e-9, 1e-9, "covariance is the first moment");
    vs_close(r.sp, survival(T), 1e-9, 1e-9, "survival probability of the layer");
    if (e < Ezero) {
        vs_check(r.Eout == 0 && r.dEdxo == 0 && r.sigma_E == 0 && r.sigma_a == 0 && r.tof == 0, "outgoing values are zero behind a stopping target");
        return;
    }
    vs_close(r.dEdxo, P.A / RD(e), 1e-9, 1e-9, "stopping power at the outgoing energy");
    vs_close(r.tof, tof(T, e), 1e-9, 1e-9, "time of flight between initial and outgoing energy");
    bool table = C.scattering == scattering_types::atima_scattering, thin = e > 0.999 * T;
    double v = thin ? (T - e) * 0.5 * (SD(T) + SD(e)) : S(T) - S(e);
    vs_close(r.sigma_E, Rt(v) / RD(e), 1e-9, 1e-9, "energy straggling follows from the range variances");
    double a = thin ? (T - e) * 0.5 * (AD(T) + AD(e)) : A(T) - A(e);
    vs_close(r.sigma_a, Rt(table ? a : moment(T, 0)), 1e-9, 1e-9, "angular straggling follows from the angular variance");
}
static void setup() {
    P = Projectile(vs_double("A", 1, 300, 12), 6, vs_choice("q", 0, 1) ? 6 : 5);
    M = Material(12, 6, 2.0);
    M.thickness(vs_choice("empty", 0, 1) ? 0 : vs_double("th", 1e-9, 1e4, 1));
    int s[] = {0, 1, 2, 255};
    C.scattering = s[vs_choice("scattering", 0, 3)];
    any_config(C, false);
    P.T = vs_double("T", 0, 1e7, 100);
}
VS_CASE(case_single) {
    setup();
    spec(calculate(P, M, C), P.T);
}
VS_CASE(case_energy_given) {
    setup();
    double T = vs_double("T2", 0, 1e7, 200);
    Projectile p = P;
    spec(calculate(p, M, T, C), T);
    vs_check(p.T == P.T, "projectile is left unchanged");
}
VS_CASE(case_numbers) {
    double pa = vs_double("A", 1, 300, 12), T = vs_double("T", 0, 1e7, 100), ta = vs_double("tA", 1, 300, 27), th = vs_double("th", 0, 1e4, 1), rho = vs_double("rho", 1e-6, 100, 2);
    C = default_config;
    P = Projectile(pa, 20, 20, T);
    M = Material(ta, 13, rho, th);
    spec(calculate(pa, 20, T, ta, 13, th, rho), T);
}
