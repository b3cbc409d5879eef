// Low energy electronic stopping power.
#include <cmath>
#include "vs.h"
#include "catima/srim.h"
#include "catima/catima.h"
#include "catima/calculations.h"
using namespace catima;
static double S(int p, int t, double e, bool s) { return srim_dedx_e(p, t, e, s); }
// ---------------------------------------------------------------- protons, all targets
static void proton(int a, int b) {
    int t = vs_choice("target", a, b);
    bool s = vs_choice("set", 0, 1);
    double e = vs_double("E", 1e-6, 30, 0.1);
    vs_check(S(1, t, e, s) > 0, "proton stopping power is positive");
    double x = vs_double("x", 1e-6, 0.025, 0.01);
    vs_close(S(1, t, x, s), S(1, t, 0.025, s) * std::pow(x / 0.025, t > 6 ? 0.45 : 0.25), 1e-9, 0, "fixed power of the energy below 25 keV/u");
    double y = 0.025 + vs_double("y", 0, 1e-6, 1e-7);
    vs_close(S(1, t, y, s), S(1, t, 0.025, s), 1e-3, 0, "continuous at 25 keV/u");
}
VS_CASE(case_proton1) { proton(1, 31); vs_check(true, "all targets"); }
VS_CASE(case_proton2) { proton(32, 62); vs_check(true, "all targets"); }
VS_CASE(case_proton3) { proton(63, 94); vs_check(true, "all targets"); }
static void agree(int a, int b) {
    int t = vs_choice("target", a, b);
    static const double energies[] = {0.003, 0.03, 0.1, 0.5, 3};
    double e = energies[vs_choice("energy", 0, 4)] * (1 + vs_double("w", 0, 0.02, 0.01));
    vs_close(S(1, t, e, true), S(1, t, e, false), 0.45, 0, "both parameter sets describe the same stopping power");
}
VS_CASE(case_agree) { agree(1, 94); vs_check(true, "all targets"); }
// ---------------------------------------------------------------- heavier projectiles
struct Pair { int p, t; double power, step; };      // power of the energy below 0.5 keV/u, largest change for 2.5 percent in energy
static const Pair pairs[] = {{2, 6, 0, 0.035}, {6, 6, 0.35, 0.035}, {6, 14, 0.35, 0.035}, {3, 79, 0.5, 0.075}, {92, 82, 0.5, 0.035}, {19, 32, 0.35, 0.035}, {20, 14, 0.5, 0.035}, {54, 29, 0.5, 0.035},
    {98, 98, 0.5, 0.035}, {8, 1, 0.5, 0.035}, {12, 13, 0.5, 0.035}, {36, 6, 0.35, 0.035},
    {20, 32, 0.5, 0.035}, {2, 82, 0, 0.035}, {4, 29, 0.5, 0.035}, {7, 7, 0.5, 0.035}, {16, 18, 0.5, 0.035}, {26, 47, 0.5, 0.035}, {79, 4, 0.5, 0.035}, {92, 92, 0.5, 0.035}};
static void tile(int k) {
    const Pair& q = pairs[k];
    bool s = vs_choice("set", 0, 1);
    double a = 1e-5;
    int n = 0;
    while (a * 1.05 < 30) a *= 1.05, n++;
    int i = vs_choice("interval", 0, n);
    a = 1e-5;
    for (int j = 0; j < i; j++) a *= 1.05;
    double e = a * (1 + vs_double("u", 0, 0.05, 0.02)), m = a * 1.025;
    double v = S(q.p, q.t, e, s);
    vs_check(v > 0, "stopping power is positive");
    vs_close(v, S(q.p, q.t, m, s), q.step, 0, "stopping power has no jumps");
    double z = q.p;
    vs_check(v < 1.1 * z * z * S(1, q.t, e, s), "effective charge does not exceed the nuclear charge");
}
VS_CASE(case_power) {
    const Pair& q = pairs[vs_choice("pair", 1, sizeof(pairs) / sizeof(pairs[0]) - 1)];
    bool s = vs_choice("set", 0, 1);
    double e = vs_double("e", 1e-6, 5e-4, 1e-4);
    if (q.power > 0) vs_close(S(q.p, q.t, e, s), S(q.p, q.t, 5e-4, s) * std::pow(e / 5e-4, q.power), 1e-6, 0, "fixed power of the energy at the lowest energies");
}
// reference values of the proton stopping power at 100 keV/u
VS_CASE(case_sets) {
    static const double ref[4][3] = {{6, 13.8451, 14.4059}, {13, 20.4289, 20.3321}, {29, 23.7532, 23.7946}, {79, 35.4427, 36.4647}};
    int k = vs_choice("target", 0, 3);
    vs_close(S(1, int(ref[k][0]), 0.1, false), ref[k][1], 1e-4, 0, "first parameter set");
    vs_close(S(1, int(ref[k][0]), 0.1, true), ref[k][2], 1e-4, 0, "second parameter set");
}
VS_CASE(case_tile0) { tile(0); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile1) { tile(1); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile2) { tile(2); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile3) { tile(3); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile4) { tile(4); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile5) { tile(5); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile6) { tile(6); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile7) { tile(7); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile8) { tile(8); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile9) { tile(9); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile10) { tile(10); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile11) { tile(11); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile12) { tile(12); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile13) { tile(13); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile14) { tile(14); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile15) { tile(15); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile16) { tile(16); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile17) { tile(17); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile18) { tile(18); vs_check(true, "one projectile and target"); }
VS_CASE(case_tile19) { tile(19); vs_check(true, "one projectile and target"); }
