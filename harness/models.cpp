// Kinematics, effective charge, radiation and scattering length: the functions as they are.
#include <cmath>
#include "vs.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/nucdata.h"
using namespace catima;
static const double U = 931.4940954;
// ---------------------------------------------------------------- kinematics
VS_CASE(case_kinematics) {
    double T = vs_double("T", 0, 1e7, 100), A = vs_double("A", 0.5, 400, 12);
    double g = gamma_from_T(T), b = beta_from_T(T), p = p_from_T(T, A);
    vs_close(g, 1 + T / U, 1e-9, 0, "gamma is one plus energy over unit mass");
    vs_check(g >= 1, "gamma is at least one");
    vs_check(b >= 0, "velocity is not negative");
    vs_check(b < 1, "velocity is below that of light");
    vs_close(b * b * g * g, g * g - 1, 1e-8, 1e-12, "velocity and gamma belong together");
    vs_check(p >= 0, "momentum is not negative");
    vs_close(p * p, A * A * U * U * (g * g - 1), 1e-8, 1e-9, "momentum is mass times beta gamma");
    double k = vs_double("k", 0.1, 10, 2);
    vs_close(p_from_T(T, A * k), p * k, 1e-9, 0, "momentum is proportional to the mass");
}
VS_CASE(case_kinematics_order) {
    double T = vs_double("T", 0, 1e6, 100), S = vs_double("S", 0, 1e6, 200), A = 12;
    vs_assume(T < S);
    vs_check(gamma_from_T(T) < gamma_from_T(S), "gamma increases with energy");
    vs_check(beta_from_T(T) < beta_from_T(S), "velocity increases with energy");
    vs_check(p_from_T(T, A) < p_from_T(S, A), "momentum increases with energy");
}
// ---------------------------------------------------------------- effective charge
static Projectile proj() {
    double Z = vs_double("Z", 1, 120, 40);
    Projectile p(vs_double("A", 1, 300, 90), 40, 40, vs_double("T", 1e-3, 1e6, 100));
    p.Z = Z;
    p.Q = vs_double("Q", 0, 120, 30);
    return p;
}
VS_CASE(case_option) {
    Projectile p = proj();
    Target t;
    t.Z = vs_choice("Zt", 1, 3) * 3 - 2;
    t.A = vs_double("At", 1, 300, 20);
    Config c;
    double b = beta_from_T(p.T);
    c.z_effective = vs_choice("model", 0, 6);
    double z = z_effective(p, t, c);
    switch (c.z_effective) {
    case z_eff_type::none: vs_close(z, p.Q, 0, 0, "without model the charge state is used"); break;
    case z_eff_type::pierce_blann: vs_close(z, z_eff_Pierce_Blann(p.Z, b), 1e-9, 1e-9, "standard model is used if selected"); break;
    case z_eff_type::anthony_landorf: vs_close(z, z_eff_Anthony_Landford(p.Z, b, t.Z), 1e-9, 1e-9, "Anthony-Lanford model is used if selected"); break;
    case z_eff_type::hubert: vs_close(z, z_eff_Hubert(p.Z, p.T, t.Z), 1e-9, 1e-9, "Hubert model is used if selected"); break;
    case z_eff_type::winger: vs_close(z, z_eff_Winger(p.Z, b, t.Z), 1e-9, 1e-9, "Winger model is used if selected"); break;
    case z_eff_type::schiwietz: vs_close(z, z_eff_Schiwietz(p.Z, b, t.Z), 1e-9, 1e-9, "Schiwietz model is used if selected"); break;
    }
}
VS_CASE(case_standard) {
    double Z = vs_double("Z", 1, 130, 40), b = vs_double("beta", 0, 1, 0.1), b2 = vs_double("beta2", 0, 1, 0.2);
    double z = z_eff_Pierce_Blann(Z, b);
    vs_check(z >= 0, "effective charge is not negative");
    vs_check(z <= Z, "effective charge does not exceed the proton number");
    vs_assume(b <= b2);
    vs_check(z <= z_eff_Pierce_Blann(Z, b2), "effective charge does not decrease with velocity");
    vs_check(z_eff_Pierce_Blann(Z, 0) == 0, "no effective charge at rest");
}
VS_CASE(case_standard_value) {
    double Z = vs_double("Z", 1, 130, 40), b = vs_double("beta", 0, 1, 0.1);
    double z = z_eff_Pierce_Blann(Z, b);
    vs_close(z, Z * (1 - std::exp(-130.1841991820 * b / std::pow(Z, 2. / 3))), 1e-6, 1e-6, "standard effective charge follows the exponential of velocity over the two thirds power of the proton number");
}
VS_CASE(case_limits) {
    double Z = vs_double("Z", 1, 130, 40), b = vs_double("beta", 0, 1, 0.1), T = vs_double("T", 0, 1e6, 100);
    int t = vs_choice("Zt", 1, 99);
    vs_check(z_eff_Anthony_Landford(Z, b, t) <= Z, "Anthony-Lanford charge does not exceed the proton number");
    vs_check(z_eff_Hubert(Z, T, t) <= Z, "Hubert charge does not exceed the proton number");
    vs_check(z_eff_Winger(Z, b, t) <= Z, "Winger charge does not exceed the proton number");
}
VS_CASE(case_global) {
    double Z = vs_double("Z", 1, 130, 20), T = vs_double("T", 0, 1e6, 100);
    vs_assume(T > 2000 || T < 30 || Z < 29);
    double z = z_eff_global(Z, T, 6);
    if (T > 2000)
        vs_check(z == Z, "projectiles of the global model are fully stripped above 2 GeV/u");
    else
        vs_close(z, z_eff_Pierce_Blann(Z, beta_from_T(T)), 1e-9, 1e-9, "global model uses the standard model for light projectiles and low energy");
}
// ---------------------------------------------------------------- lengths
static double formula(int z, double m) {
    double a = z / 137.035999139, a2 = a * a, z2 = double(z) * z;
    double f = 1.202 * a2 - 1.0369 * a2 * a2 + 1.008 * a2 * a2 * a2 / (1 + a2);
    return 716.405 * m / (z2 * (std::log(184.15 / std::cbrt(z)) - f) + z * std::log(1194 / std::cbrt(double(z) * z)));
}
static double tabulated(int z) {
    switch (z) {
    case 1: return 63.04; case 2: return 94.32; case 3: return 82.78; case 4: return 65.19; case 6: return 42.70; case 7: return 37.99;
    case 8: return 34.24; case 9: return 32.93; case 10: return 28.93; case 13: return 24.01; case 14: return 21.82; case 17: return 19.28;
    case 18: return 19.55; case 22: return 16.16; case 26: return 13.84; case 29: return 12.86; case 32: return 12.25; case 50: return 8.82;
    case 54: return 8.48; case 74: return 6.76; case 78: return 6.54; case 79: return 6.46; case 82: return 6.37; case 92: return 6.00;
    }
    return 0;
}
VS_CASE(case_radiation_element) {
    int z = vs_choice("z", 1, 120);
    double m = vs_double("m", 0.5, 400, 50), x = radiation_length(z, m);
    vs_check(x > 0, "radiation length is positive");
    if (tabulated(z) > 0)
        vs_close(x, tabulated(z), 1e-3, 0, "radiation length of the common elements is the tabulated one");
    else
        vs_close(x, formula(z, m), 1e-6, 0, "radiation length of other elements follows the screened formula with Coulomb correction");
}
static int zs[] = {1, 5, 6, 8, 30, 47, 82, 92, 110};
static Material compound(int n) {
    static const char* nA[] = {"A0", "A1", "A2"};
    static const char* nW[] = {"w0", "w1", "w2"};
    Material m;
    int k = vs_choice("k", 0, 2);
    bool atoms = vs_choice("atoms", 0, 1);
    for (int i = 0; i < n; i++) m.add_element(vs_double(nA[i], 1, 300, 10 * i + 5), zs[(3 * i + k) % 9], atoms ? vs_double(nW[i], 1, 20, i + 2) : vs_double(nW[i], 0.01, 1, 0.2));
    if (!atoms) {
        double s = 0;
        for (int i = 0; i < n; i++) s += m.get_element(i).stn;
        vs_assume(s <= 1);
    }
    return m;
}
VS_CASE(case_radiation_material) {
    Material m = compound(vs_choice("n", 1, 3));
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) s += m.weight_fraction(i) / radiation_length(m.get_element(i).Z, m.get_element(i).A);
    double x = radiation_length(m);
    vs_close(x * s, 1, 1e-8, 1e-8, "inverse radiation length is the weighted sum over the elements");
}
VS_CASE(case_scattering_material) {
    Material m = compound(vs_choice("n", 1, 3));
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) {
        Material e;
        e.add_element(m.get_element(i).A, m.get_element(i).Z, 1);
        s += m.weight_fraction(i) / scattering_length(e);
    }
    double x = scattering_length(m);
    vs_close(x * s, 1, 1e-8, 1e-8, "inverse scattering length is the weighted sum over the elements");
}
VS_CASE(case_scattering_element) {
    int z = vs_choice("z", 1, 120);
    double a = vs_double("m", 0.5, 400, 50);
    Material e;
    e.add_element(a, z, 1);
    double x = scattering_length(e);
    vs_close(a / x, 0.00034896 * z * z * (2 * std::log(33219 * std::pow(a * z, -1.0 / 3.0)) - 1), 1e-4, 0, "scattering length follows the atomic weight");
    if (z % 15 == 1) vs_check(x > 0, "scattering length is positive");
}
// ---------------------------------------------------------------- ultra-relativistic terms
VS_CASE(case_relativistic) {
    Projectile p(vs_double("A", 1, 300, 90), 40, 40, vs_double("T", 50000, 1e7, 1e5));
    p.Z = vs_double("Z", 1, 120, 40);
    Target t;
    t.Z = vs_choice("Zt", 0, 3) * 30 + 1;
    t.A = vs_double("At", 1, 300, 20);
    vs_check(pair_production(p, t) >= 0, "pair production is not negative");
    vs_check(bremsstrahlung(p, t) >= 0, "bremsstrahlung is not negative");
}
