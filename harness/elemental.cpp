// Elemental contributions to the stopping power and the reaction cross section: the real functions, nothing replaced.
#include <cmath>
#include "vs.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/reactions.h"
#include "catima/material_database.h"
#include "catima/data_ionisation_potential.h"
using namespace catima;
static const double U = 931.4940954;
// ---------------------------------------------------------------- nuclear stopping
static const double pn[][2] = {{1, 1.007825}, {2, 4.0026}, {6, 11.5}, {18, 40}, {50, 132}, {92, 238.03}}, tn[][2] = {{1, 1.008}, {7, 14.007}, {29, 63.55}, {82, 207.2}};
struct Pair { Projectile p; Target t; double e, scale; };     // reduced energy, factor of the universal function
static Pair pair(double T) {
    Pair k;
    const double *a = pn[vs_choice("p", 0, 5)], *b = tn[vs_choice("t", 0, 3)];
    k.p = Projectile(a[1], a[0], a[0], T);
    k.t.Z = b[0];
    k.t.A = b[1];
    double z = std::pow(a[0], 0.23) + std::pow(b[0], 0.23), m = a[1] + b[1];
    k.e = 32.53 * b[1] * 1000 * T * a[1] / (a[0] * b[0] * m * z);
    k.scale = 5096.0 * a[0] * b[0] * a[1] / (m * z * b[1]);       // 8.462e-15 eV cm2 per atom
    return k;
}
VS_CASE(case_nuclear_zero) {
    Pair k = pair(vs_double("T", -10, 0, 0));
    vs_check(dedx_n(k.p, k.t) == 0, "no nuclear stopping at rest");
}
VS_CASE(case_nuclear_low) {
    Pair k = pair(vs_double("T", 1e-9, 1e3, 1e-3));
    vs_assume(k.e <= 30 * (1 - 1e-6));
    double n = dedx_n(k.p, k.t), e = k.e;
    vs_check(n > 0, "nuclear stopping is positive");
    vs_close(n, k.scale * std::log1p(1.1383 * e) / (2 * (e + 0.01321 * std::pow(e, 0.21226) + 0.19593 * std::sqrt(e))), 1e-3, 0, "universal function of the reduced energy up to 30");
}
VS_CASE(case_nuclear_high) {
    Pair k = pair(vs_double("T", 1e-9, 1e6, 10));
    vs_assume(k.e >= 30 * (1 + 1e-6));
    double n = dedx_n(k.p, k.t), e = k.e;
    vs_check(n > 0, "nuclear stopping is positive");
    vs_close(n, k.scale * std::log(e) / (2 * e), 1e-3, 0, "unscreened scattering above the reduced energy 30");
}
// ---------------------------------------------------------------- density effect
// velocity between the two values of beta*gamma, one input per interval
static void density(int lo, int hi) {
    int z = vs_choice("Z", lo, hi), i = vs_choice("interval", 0, 39);
    double g = 0.05;
    for (int k = 0; k < i; k++) g *= 1.4;
    double l = g / std::sqrt(1 + g * g), h = 1.4 * g / std::sqrt(1 + 1.96 * g * g);
    char name[] = {'b', (char)('0' + i / 10), (char)('0' + i % 10), 0};
    double d = bethek_density_effect(vs_double(name, l, h, (l + h) / 2), z), a = bethek_density_effect(l, z), b = bethek_density_effect(h, z);
    if (z == 85 || z == 87) {
        vs_check(d >= -0.03, z == 85 ? "density effect of element 85 is not negative" : "density effect of element 87 is not negative");
        return;
    }
    vs_check(d >= -0.03, "density effect is not negative");
    vs_check(d >= a - 0.06, "density effect does not decrease with energy");
    vs_check(d <= b + 0.06, "density effect does not decrease up to the next energy");
    vs_check(b <= a + 0.673 + 0.16, "density effect never rises faster than its limit");
}
VS_CASE(case_density1) { density(1, 24); }
VS_CASE(case_density2) { density(25, 49); }
VS_CASE(case_density3) { density(50, 73); }
VS_CASE(case_density4) { density(74, 98); }
// above all thresholds: twice the logarithm of beta*gamma minus the constant given by ionisation potential and plasma energy
VS_CASE(case_density_limit) {
    int z = vs_choice("Z", 1, 97);
    Material m = get_material(z);
    double c = 2 * std::log(ipot(z) / (28.816 * std::sqrt(m.density() * z / m.M()))) + 1;
    double b = vs_double("beta", 1 - 3.4e-11, 1 - 5e-13, 1 - 5e-12), g = 1 / std::sqrt(1 - b * b);
    if (z != 35 && z != 87) vs_close(bethek_density_effect(b, z), 2 * std::log(b * g) - c, 0, 0.3, "limit of the density effect is that of the plasma energy of the element");
}
// ---------------------------------------------------------------- Barkas effect
VS_CASE(case_barkas) {
    int z = vs_choice("Z", 1, 98);
    double eta = vs_double("eta", 1e-3, 1e4, 0.5), q = vs_double("q", 0, 120, 20), r = vs_double("r", 0, 120, 50);
    double b = bethek_barkas(q, eta, z), c = bethek_barkas(r, eta, z);
    vs_check(b >= 1, "Barkas factor increases the stopping power");
    vs_close((b - 1) * r, (c - 1) * q, 1e-9, 1e-12, "Barkas correction is proportional to the effective charge");
}
VS_CASE(case_barkas_order) {
    int z = 1 + 9 * vs_choice("Z", 0, 10);
    double s = std::sqrt((double)z), v = vs_double("v", 1, 1e3, 2), w = vs_double("w", 1, 1e3, 3), q = vs_double("q", 0.1, 120, 20);
    vs_assume(v * 1.05 <= w);
    double k = s / 137.03599;
    vs_check(bethek_barkas(q, v * k * (1 + 1e-9), z) >= bethek_barkas(q, w * k * (1 + 1e-9), z), "Barkas correction decreases with velocity");
}
VS_CASE(case_barkas_low) {
    int z = vs_choice("Z", 1, 98);
    double v = vs_double("v", 1e-4, 0.9999, 0.5), q = vs_double("q", 0, 120, 20);
    vs_check(bethek_barkas(q, v * std::sqrt((double)z) / 137.036, z) == 1, "no Barkas correction below the reduced velocity 1");
}
VS_CASE(case_barkas_value) {
    static const double f[] = {0.33, 0.30, 0.26, 0.23, 0.2012, 0.1423};       // Jackson and McCarthy, at reduced velocities 1, 2, 3, 4, 5, 10
    static const double at[] = {1, 2, 3, 4, 5, 10};
    int z = vs_choice("Z", 1, 98), i = vs_choice("i", 0, 5);
    double q = vs_double("q", 0.1, 120, 20), s = std::sqrt((double)z), v = at[i] * (1 + vs_double("u", 1e-6, 1e-3, 1e-4));
    vs_close((bethek_barkas(q, v * s / 137.03599, z) - 1) * v * v * s, 2 * q * f[i], 0.025, 0, "Barkas correction is that of Jackson and McCarthy");
}
// ---------------------------------------------------------------- relativistic corrections
static void pairs(double T) {
    Projectile p(90, 40, 40, T), q(p);
    p.Z = vs_double("Zp", 1, 120, 40);
    q.Z = vs_double("Zq", 1, 120, 60);
    Target t;
    t.Z = 1 + 30 * vs_choice("Zt", 0, 3);
    t.A = 20;
    vs_close(pair_production(p, t) * q.Z * q.Z, pair_production(q, t) * p.Z * p.Z, 1e-9, 0, "pair production is proportional to the squared proton number");
}
VS_CASE(case_pair) { pairs(vs_double("T", 50000, 1e7, 1e5)); }
static const double fixed[] = {6e4, 3e5, 5e6};
VS_CASE(case_pair_fixed) { pairs(fixed[vs_choice("energy", 0, 2)]); }
VS_CASE(case_brems) {
    double T = vs_double("T", 50000, 1e7, 1e5);
    Projectile p(pn[vs_choice("A", 0, 5)][1], 40, 40, T), q(p);
    p.Z = vs_double("Zp", 1, 120, 40);
    q.Z = vs_double("Zq", 1, 120, 60);
    Target t, s;
    t.Z = 6;
    s.Z = vs_choice("Zt", 0, 3) * 30 + 1;
    s.A = t.A = 20;
    double a = p.Z * p.Z * t.Z, b = q.Z * q.Z * s.Z;
    vs_close(bremsstrahlung(p, t) * b * b, bremsstrahlung(q, s) * a * a, 1e-9, 0, "bremsstrahlung is proportional to the fourth power of the projectile and the square of the target proton number");
}
// ---------------------------------------------------------------- reaction cross section
static const int N[][2] = {{1, 1}, {4, 2}, {12, 6}, {40, 20}, {132, 50}, {208, 82}, {238, 92}};
static double kox(int ap, int zp, double E, int at, int zt, double c) {
    double a = std::pow(ap, 1 / 3.0), b = std::pow(at, 1 / 3.0);
    double r = 1.1 * (a + b + 1.85 * a * b / (a + b) - c) + 5.0 * (at - 2 * zt) * zp / (ap * at);
    double coulomb = zp * zt / (1.3 * (a + b)), cm = E * ap * at / (ap + at);
    return 31.415926536 * r * r * (1 - coulomb / cm);
}
static void reaction(double E, bool high) {
    int i = vs_choice("p", 0, 6), j = vs_choice("t", 0, 6);
    double s = SigmaR_Kox(N[i][0], N[i][1], E, N[j][0], N[j][1]), l = std::log10(E);
    double c = high ? 2 - 10 / std::pow(l, 5) : (2 - 10 / std::pow(1.5, 5)) * std::pow(l / 1.5, 3);
    vs_close(s, kox(N[i][0], N[i][1], E, N[j][0], N[j][1], c), 1e-4, 1e-3, high ? "reaction cross section above 32 MeV/u" : "reaction cross section between 30 and 31.6 MeV/u");
    if (i > 1 || j > 1) vs_check(s > 0, "reaction cross section is positive");
}
VS_CASE(case_kox_high) { reaction(vs_double("E", 31.6228, 1e5, 300), true); }
VS_CASE(case_kox_low) { reaction(vs_double("E", 30, 31.6227, 31), false); }
