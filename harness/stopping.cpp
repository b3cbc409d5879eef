// Sums over components and the energy regions of the stopping power.  Elemental low and high energy stopping and
// elemental nuclear stopping and variance are stubs: arbitrary functions of everything they are given.
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/srim.h"
#include "catima/nucdata.h"
using namespace catima;
static Projectile P;
static Config C;
static bool strict;
static void same_input(const Projectile& p, const Config& c) {
    if (!strict) return;
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q && p.T == P.T, "elemental values are evaluated for the given projectile");
    vs_check(c == C, "elemental values are evaluated with the given configuration");
}
namespace catima {
double srim_dedx_e(int pz, int tz, double e, bool use95) {
    if (strict) {
        vs_check(pz == P.Z && e == P.T, "low energy stopping is evaluated for the given projectile");
        vs_check(use95 == (C.low_energy == low_energy_types::srim_95), "low energy parameter set follows the option");
    }
    return vs_uf("srim", 2, tz, e);
}
double bethek_dedx_e(const Projectile& p, const Target& t, const Config& c, double I) {
    same_input(p, c);
    return vs_uf("bethe", 4, t.A, t.Z, I, p.T);
}
double dedx_n(const Projectile& p, const Target& t) {
    if (strict) vs_check(p.A == P.A && p.Z == P.Z && p.T == P.T, "nuclear stopping is evaluated for the given projectile");
    return vs_uf("nuclear", 3, t.A, t.Z, p.T);
}
double dedx_variance(const Projectile& p, const Target& t, const Config& c) {
    same_input(p, c);
    return vs_uf("variance", 3, t.A, t.Z, p.T);
}
}
static const char* nA[] = {"A0", "A1", "A2"};
static const char* nS[] = {"s0", "s1", "s2"};
static const int tz[] = {1, 6, 82};
struct Comp { int n; double A[3], s[3], w[3]; int kind; };
static Comp composition(int lo) {
    Comp k;
    k.n = vs_choice("n", lo, 3);
    k.kind = vs_choice("kind", 0, 1);       // weight fractions, atoms
    double sum = 0;
    for (int i = 0; i < k.n; i++) {
        k.A[i] = vs_double(nA[i], 1, 300, 12 + i);
        k.s[i] = k.kind ? vs_double(nS[i], 1, 20, 1 + i) : vs_double(nS[i], 0, 0.999, 0.3 + 0.1 * i);
        sum += k.kind ? k.s[i] * k.A[i] : 1;
    }
    for (int i = 0; i < k.n; i++) k.w[i] = k.kind ? k.s[i] * k.A[i] / sum : k.s[i];
    return k;
}
static Material make(const Comp& k, double I) {
    Material m;
    for (int i = 0; i < k.n; i++) m.add_element(k.A[i], tz[i], k.s[i]);
    m.calculate();
    m.density(vs_double("rho", 1e-8, 100, 1.5));
    m.I(I);
    return m;
}
static void config() { any_config(C); }
static void setup(double lo, double hi, double pref) {
    P = Projectile(vs_double("pA", 1, 300, 132), 50, 50);
    P.Q = vs_double("q", 0, 50, 47);
    P.T = vs_double("T", lo, hi, pref);
    strict = true;
}
// energy regions
VS_CASE(case_regions) {
    Comp k = composition(1);
    config();
    setup(-1, 1e6, 20);
    Material m = make(k, vs_double("I", 0, 1000, 77.5));
    double r = dedx(P, m, C), T = P.T;
    if (T <= 0) {
        vs_check(r == 0, "stopping power is zero at zero energy");
        return;
    }
    strict = false;
    double n = 0, lo = 0, hi = 0;
    for (int i = 0; i < k.n; i++) {
        Target t = m.get_element(i);
        n += k.w[i] * dedx_n(P, t);
        lo += k.w[i] * 100 * Avogadro * srim_dedx_e(50, tz[i], T, true) / k.A[i];
        hi += k.w[i] * bethek_dedx_e(P, t, C, m.I());
    }
    double e = T <= 10 ? lo : T >= 30 ? hi : lo + (T - 10) / 20 * (hi - lo);
    vs_close(r, n + e, 1e-9, 1e-9, "stopping power is nuclear plus electronic, low energy model up to 10, high energy model from 30, linear in between");
    vs_close(dedx_n(P, m), n, 1e-9, 1e-12, "nuclear stopping is the weighted sum");
    vs_close(sezi_dedx_e(P, m, C), lo, 1e-9, 1e-12, "low energy stopping is the weighted sum");
    vs_close(bethek_dedx_e(P, m, C), hi, 1e-9, 1e-12, "high energy stopping is the weighted sum");
}
VS_CASE(case_variance) {
    Comp k = composition(1);
    config();
    setup(0, 1e6, 20);
    Material m = make(k, 0);
    double r = domega2dx(P, m, C), s = 0;
    strict = false;
    for (int i = 0; i < k.n; i++) s += k.w[i] * dedx_variance(P, m.get_element(i), C);
    vs_close(r, s, 1e-9, 1e-12, "energy-loss variance is the weighted sum");
}
// a component without weight and merged components
VS_CASE(case_merge) {
    Comp k = composition(1);
    setup(0.001, 1e6, 20);
    Material m = make(k, 0), z, q;
    z = make(k, 0);
    z.add_element(40, 18, 0);
    z.calculate();
    int h = vs_choice("at", 0, k.n - 1);
    double f = vs_double("f", 0.1, 0.9, 0.5);
    for (int i = 0; i < k.n; i++) {
        if (i == h) {
            double a = k.s[i] * f, b = k.s[i] * (1 - f);
            if (k.kind) vs_assume(a >= 1 && b >= 1);
            q.add_element(k.A[i], tz[i], a);
            q.add_element(k.A[i], tz[i], b);
        } else q.add_element(k.A[i], tz[i], k.s[i]);
    }
    q.calculate();
    strict = false;
    double r = dedx(P, m, C), v = domega2dx(P, m, C);
    vs_close(dedx(P, z, C), r, 1e-9, 1e-9, "a component of zero weight does not change the stopping power");
    vs_close(domega2dx(P, z, C), v, 1e-9, 1e-9, "a component of zero weight does not change the variance");
    vs_close(dedx(P, q, C), r, 1e-9, 1e-9, "splitting a component does not change the stopping power");
    vs_close(domega2dx(P, q, C), v, 1e-9, 1e-9, "splitting a component does not change the variance");
}
