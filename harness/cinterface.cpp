// C interface against the C++ library: arbitrary tables, results and survival rates (stubs), the environment
// of every stub checks that it is asked for the projectile, material and configuration of the C++ call.
#include "vs.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/reactions.h"
#include "catima/material_database.h"
#include "catima/nucdata.h"
#include "catima/cwrapper.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static DataPoint D;
static void same_input(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "the projectile is the given one");
    vs_check(m.density() == M.density(), "density is the given one or the tabulated one");
    vs_check(m == M, "the material is the given one");
    vs_check(c.z_effective == C.z_effective, "charge model is the one selected for the C interface");
    vs_check(c.scattering == C.scattering && c.scattering_factor == C.scattering_factor, "scattering is the default one");
    vs_check(c == C, "the configuration is the default one");
}
static double R(double e) { return vs_ufm("range", 0, 1e7, e); }
static double RD(double e) { return vs_ufr("range slope", 1e-6, 1e6, 1, e); }
static double S(double e) { return vs_ufm("variance", 0, 1e7, e); }
static double SD(double e) { return vs_ufr("variance slope", 0, 1e6, 1, e); }
using Table = EnergyTable<max_datapoints>;
namespace catima {
static double value(const void* s, double e) { return s == &D.range_spline ? R(e) : s == &D.range_straggling_spline ? S(e) : vs_uf("other", 1, e); }
template <> double InterpolatorCSpline<Table>::operator()(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::eval(double e) const { return value(this, e); }
template <> double InterpolatorCSpline<Table>::derivative(double e) const {
    const void* s = this;
    return s == &D.range_spline ? RD(e) : s == &D.range_straggling_spline ? SD(e) : vs_uf("other slope", 1, e);
}
DataPoint& Data::Get(const Projectile& p, const Material& m, const Config& c) {
    same_input(p, m, c);
    return D;
}
double energy_out(double T, double th, const Interpolator& s) {
    const void* q = &s;
    vs_check(q == &D.range_spline, "the range is inverted");
    return vs_ufr("eout", 0, 1e7, 2, T, th);
}
double angular_variance(Projectile p, const Material& m, const Config& c, int order) {
    same_input(p, m, c);
    return vs_ufr("moment", 0, 100, 3, double(order), p.T, m.thickness());
}
double nonreaction_rate(Projectile& p, const Material& m, const Config& c) {
    same_input(p, m, c);
    return vs_ufr("survival", -1, 1, 2, p.T, m.thickness());
}
Result calculate(Projectile p, const Material& m, const Config& c) {
    same_input(p, m, c);
    Result r;
    r.Ein = vs_uf("Ein", 2, p.T, m.thickness());
    r.Eout = vs_uf("Eout", 2, p.T, m.thickness());
    r.Eloss = vs_uf("Eloss", 2, p.T, m.thickness());
    r.range = vs_uf("Range", 2, p.T, m.thickness());
    r.dEdxi = vs_uf("dEdxi", 2, p.T, m.thickness());
    r.dEdxo = vs_uf("dEdxo", 2, p.T, m.thickness());
    r.sigma_E = vs_uf("sigma_E", 2, p.T, m.thickness());
    r.sigma_a = vs_uf("sigma_a", 2, p.T, m.thickness());
    r.sigma_r = vs_uf("sigma_r", 2, p.T, m.thickness());
    r.sigma_x = vs_uf("sigma_x", 2, p.T, m.thickness());
    r.cov = vs_uf("cov", 2, p.T, m.thickness());
    r.tof = vs_uf("tof", 2, p.T, m.thickness());
    return r;
}
}
static void one_call(int k, bool history) {
    static const char* nA[] = {"A0", "A1"};
    static const char* nT[] = {"T0", "T1"};
    static const char* nO[] = {"Tout0", "Tout1"};
    static const char* nB[] = {"ta0", "ta1"};
    static const char* nH[] = {"th0", "th1"};
    static const char* nR[] = {"rho0", "rho1"};
    static const char* nZ[] = {"target0", "target1"};
    static const char* nF[] = {"function0", "function1"};
    static const char* nD[] = {"given density0", "given density1"};
    static const char* nM[] = {"given mass0", "given mass1"};
    static const char* nQ[] = {"model0", "model1"};
    static double targets[] = {206, 6, 98, 201, 120, 349};
    double pa = vs_double(nA[k], 1, 300, 12), T = vs_double(nT[k], 0, 1e7, 100);
    int pz = k ? 54 : 6;
    double tz = targets[vs_choice(nZ[k], 0, history ? 1 : 5)];
    int f = vs_choice(nF[k], 0, 6);
    bool fixed = f > 1;     // functions without density
    double rho = 0, ta = 0, th = 0;
    if (!fixed) rho = vs_double(nR[k], -2, 30, 1);
    if (tz == 120 || !history && vs_choice(nM[k], 0, 1)) ta = vs_double(nB[k], 1, 300, 12);
    if (f < 2 || f == 6) th = vs_double(nH[k], 0, 100, 1);
    catima_defaults.z_effective = vs_int(nQ[k], 0, 7);
    // the C++ objects of the same call
    P = Projectile(pa, pz);
    P.T = T;
    M = Material();
    int id = tz;
    if (id > 200) M = get_material(id);
    else M.add_element(ta, id, 1);
    if (rho > 0) M.density(rho);
    else M.density(get_material(id).density());
    M.thickness(th);
    C = default_config;
    C.z_effective = catima_defaults.z_effective;
    C.scattering = 255;
    if (f == 0) {
        CatimaResult r = catima_calculate(pa, pz, T, ta, tz, th, rho);
        Result q = calculate(P, M, C);
        vs_ident(r.Ein, q.Ein, "initial energy is that of the library");
        vs_ident(r.Eout, q.Eout, "outgoing energy is that of the library");
        vs_ident(r.Eloss, q.Eloss, "energy loss is that of the library");
        vs_ident(r.range, q.range, "range is that of the library");
        vs_ident(r.dEdxi, q.dEdxi, "initial stopping power is that of the library");
        vs_ident(r.dEdxo, q.dEdxo, "final stopping power is that of the library");
        vs_ident(r.sigma_E, q.sigma_E, "energy straggling is that of the library");
        vs_ident(r.sigma_a, q.sigma_a, "angular straggling is that of the library");
        vs_ident(r.sigma_r, q.sigma_r, "range straggling is that of the library");
        vs_ident(r.tof, q.tof, "time of flight is that of the library");
    } else if (f == 1) {
        vs_ident(catima_Eout(pa, pz, T, ta, tz, th, rho), energy_out(P, M, C), "outgoing energy function is that of the library");
    } else if (f == 2) {
        vs_ident(catima_range(pa, pz, T, ta, tz), range(P, M, C), "range function is that of the library");
    } else if (f == 3) {
        vs_ident(catima_range_straggling(pa, pz, T, ta, tz), range_straggling(P, T, M, C), "range straggling function is that of the library");
    } else if (f == 4) {
        double To = vs_double(nO[k], 0, 1e7, 50);
        vs_assume(To < T);
        vs_ident(catima_angular_straggling_from_E(pa, pz, T, To, ta, tz), angular_straggling_from_E(P, To, M, C), "angular straggling function is that of the library");
    } else if (f == 5) {
        double To = vs_double(nO[k], 0, 1e7, 50);
        vs_assume(To < T);
        vs_ident(catima_energy_straggling_from_E(pa, pz, T, To, ta, tz), energy_straggling_from_E(P, T, To, M, C), "energy straggling function is that of the library");
    } else {
        vs_ident(catima_nonreaction_rate(pa, pz, T, ta, tz, th), nonreaction_rate(P, M, C), "survival function is that of the library");
    }
}
static void prepare() {
    default_config = Config();
    default_config.corrections = 15;
    default_config.calculation = 0;
    default_config.low_energy = 1;
    default_config.scattering = 0;
    default_config.scattering_factor = 1.5;
}
VS_CASE(case_call) {
    prepare();
    one_call(0, false);
    vs_check(true, "C function returned");
}
VS_CASE(case_two_calls) {
    default_config = Config();
    one_call(0, true);
    one_call(1, true);
    vs_check(true, "C functions returned");
}
VS_CASE(case_weight) {
    int z = vs_int("z", -2147483647 - 1, 2147483647);
    vs_ident(atomic_weight(z), element_atomic_weight(z), "atomic weight is that of the library");
}
VS_CASE(case_models) {
    vs_check(int(::pierce_blann) == int(catima::z_eff_type::pierce_blann) && int(::anthony_landorf) == int(catima::z_eff_type::anthony_landorf) &&
             int(::hubert) == int(catima::z_eff_type::hubert) && int(::winger) == int(catima::z_eff_type::winger) &&
             int(::schiwietz) == int(catima::z_eff_type::schiwietz) && int(::none) == int(catima::z_eff_type::none) &&
             int(::global) == int(catima::z_eff_type::global) && int(::atima14) == int(catima::z_eff_type::atima14), "charge models have the same numbers");
}
