// High energy stopping power and energy-loss variance with arbitrary corrections (stubs).
#include <cmath>
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/data_ionisation_potential.h"
using namespace catima;
static const double U = 931.4940954, ME = 0.510998928;
static Projectile P;
static Target TG;
static Config C;
static double QE, G, B2;
static bool same(const Projectile& p) { return p.A == P.A && p.Z == P.Z && p.Q == P.Q && p.T == P.T; }
static bool same(const Target& t) { return t.A == TG.A && t.Z == TG.Z; }
static bool same(const Config& c) { return c == C; }
static double barkas() { return vs_ufr("barkas", 1, 2, 1, QE); }
static double density() { return vs_ufr("density", 0, 50, 1, P.T); }
static double lindhard() { return vs_ufr("lindhard", -3, 3, 1, P.T); }
static double pairs() { return vs_ufr("pairs", 0, 50, 1, P.T); }
static double brems() { return vs_ufr("brems", 0, 50, 1, P.T); }
static double lx() { return vs_ufr("lx", 0, 5, 1, P.T); }
namespace catima {
double z_effective(const Projectile& p, const Target& t, const Config& c) {
    vs_check(same(p) && same(t) && same(c), "effective charge is that of the given projectile, target and configuration");
    return QE;
}
double bethek_barkas(double q, double eta, double zt) {
    vs_check(q == QE && zt == TG.Z, "Barkas correction uses effective charge and target");
    vs_close(eta * eta, B2 * G * G, 1e-9, 1e-12, "Barkas correction uses beta gamma");
    return barkas();
}
double bethek_density_effect(double beta, int zt) {
    vs_check(zt == TG.Z, "density effect is that of the target");
    vs_close(beta * beta, B2, 1e-9, 1e-12, "density effect uses the velocity");
    return density();
}
double precalculated_lindhard(const Projectile& p) {
    vs_check(same(p), "Lindhard correction is that of the projectile");
    return lindhard();
}
double precalculated_lindhard_X(const Projectile& p) {
    vs_check(same(p), "Lindhard correction is that of the projectile");
    return lx();
}
double pair_production(const Projectile& p, const Target& t) {
    vs_check(same(p) && same(t), "pair production is that of projectile and target");
    return pairs();
}
double bremsstrahlung(const Projectile& p, const Target& t) {
    vs_check(same(p) && same(t), "bremsstrahlung is that of projectile and target");
    return brems();
}
}
static int zts[] = {1, 6, 29, 82, 92};
static void setup(double tmin, double tmax) {
    P = Projectile(vs_double("A", 1, 300, 90), 40, 38, vs_double("T", tmin, tmax, 100));
    TG.Z = zts[vs_choice("Zt", 0, 4)];
    TG.A = vs_double("At", 1, 300, 20);
    QE = vs_double("q", 0, 120, 38);
    any_config(C);
    G = 1 + P.T / U;
    B2 = 1 - 1 / (G * G);
}
// ---------------------------------------------------------------- stopping power
static double shell(double I) {
    double x = 1 / (B2 * G * G);
    double a = 0.422377 * x + 0.0304043 * x * x - 0.00038106 * x * x * x, b = 3.858019 * x - 0.1667989 * x * x + 0.00157955 * x * x * x;
    return (a * 1e-6 * I * I + b * 1e-9 * I * I * I) / TG.Z;
}
static bool on(int flag) { return !(C.corrections & flag); }
static bool slow = false;
static double stopping(double I) {
    double L = std::log(2e6 * ME * B2 / I) + 2 * std::log(G) - B2;
    if (on(corrections::no_shell_correction) && !slow) L -= shell(I);
    if (on(corrections::no_barkas)) L *= barkas();
    if (on(corrections::no_lindhard)) L += lindhard();
    L -= density() / 2;
    return 0.3070749187 * QE * QE * TG.Z / (B2 * TG.A) * L;
}
static void check_stopping(double I, double Ival) {
    C.corrections = vs_choice("flags", 0, 15);
    double s = bethek_dedx_e(P, TG, C, I), e = stopping(Ival);
    if (P.T > 50000 && on(corrections::no_highenergy)) e += pairs() + brems();
    vs_close(s * B2, e * B2, 1e-6, 1e-6, "stopping power is the sum of the selected terms");
}
VS_CASE(case_flags) {
    setup(8, 1e6);
    check_stopping(0, ipot(TG.Z));
}
VS_CASE(case_flags_low) {
    setup(0.1, 7.5);
    slow = true;
    check_stopping(0, ipot(TG.Z));
}
VS_CASE(case_potential) {
    setup(8, 1e6);
    double I = vs_double("I", 1, 1000, 80);
    check_stopping(I, I);
}
VS_CASE(case_material) {
    setup(8, 1e6);
    vs_assume(TG.Z == 6);
    double I = vs_choice("given", 0, 1) ? vs_double("I", 1, 1000, 80) : 0;
    Material m(TG.A, TG.Z, 2.0, 1.0, I);
    C.corrections = vs_choice("all", 0, 1) * 15;
    vs_close(bethek_dedx_e(P, m, C), bethek_dedx_e(P, TG, C, I), 1e-9, 1e-9, "ionisation potential of the material is used");
}
// ---------------------------------------------------------------- variance
static double var(int model) {
    C.calculation = model;
    return dedx_variance(P, TG, C);
}
VS_CASE(case_variance) {
    setup(1e-3, 1e6);
    vs_assume(TG.Z == 6 || TG.Z == 82);
    double a = var(omega_types::atima), b = var(omega_types::bohr), F = energy_straggling_firsov(P.Z, P.T, TG.Z, TG.A);
    vs_check(b >= 0, "variance is not negative");
    vs_check(a >= b, "low velocity correction only increases the variance");
    double e = 0.3070749187 * ME * QE * QE * TG.Z / TG.A * G * G * lx();
    if (P.T < 30) {
        vs_check(a <= F, "variance does not exceed the Firsov value at low energy");
        vs_check(b <= F, "plain variance does not exceed the Firsov value at low energy");
        if (e <= F)
            vs_close(b, e, 1e-7, 0, "plain variance is proportional to the squared effective charge");
        else
            vs_close(b, F, 1e-7, 0, "variance is limited to the Firsov value at low energy");
    } else
        vs_close(b, e, 1e-7, 0, "plain variance is proportional to the squared effective charge at high energy");
}
VS_CASE(case_correction) {
    setup(30, 1e6);
    double a = var(omega_types::atima), b = var(omega_types::bohr);
    double q = QE, k = 0.3070749187 * ME * TG.Z / TG.A;
    double l = std::log(2e6 * ME * B2 / (33.05 * std::pow(double(TG.Z), 1.6364)));
    double c = l > 0 ? 24.89 * std::pow(double(TG.Z), 1.2324) / (1e6 * ME * B2) * l : 0;
    vs_close((a - b) * B2, k * q * q * c * B2, 1e-6, 1e-9, "low velocity correction is proportional to the squared effective charge");
}
VS_CASE(case_firsov) {
    double z = vs_double("z", 1, 120, 40), y = vs_double("y", 1, 120, 6), m = vs_double("m", 1, 300, 12), T = vs_double("T", 0, 100, 5), S = vs_double("S", 0, 100, 6);
    double f = energy_straggling_firsov(z, T, y, m);
    vs_close(f, energy_straggling_firsov(y, T, z, m), 1e-9, 0, "Firsov value is symmetric in the proton numbers");
    vs_check(f >= 0, "Firsov value is not negative");
    vs_close(f * m, energy_straggling_firsov(z, T, y, 1), 1e-9, 0, "Firsov value is inverse to the mass of the target");
    vs_assume(T < S);
    vs_check(f < energy_straggling_firsov(z, S, y, m), "Firsov value increases with energy");
}
