// Reaction probabilities with arbitrary cross sections and outgoing energies (stubs).
#include <cmath>
#include "vs.h"
#include "any.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/reactions.h"
#include "catima/abundance_database.h"
#include "catima/integrator.h"
using namespace catima;
static Projectile P;
static Material M;
static Config C;
static DataPoint D;
static double T0;
static bool ramp = false;
static double eout(double th) { return th == 0 ? T0 : vs_ufr("eout", 0, 2000, 1, th); }
static double sigma(double e, int z) {
    return vs_ufr(z == 1 ? "sigma1" : z == 6 ? "sigma6" : "sigma8", 10, 5000, 1, e);
}
namespace catima {
DataPoint& Data::Get(const Projectile& p, const Material& m, const Config& c) {
    vs_check(p.A == P.A && p.Z == P.Z && p.Q == P.Q, "tables of the given projectile are used");
    vs_check(m == M, "tables of the given material are used");
    vs_check(c == C, "tables of the given configuration are used");
    return D;
}
double energy_out(double T, double th, const Interpolator& s) {
    const void* q = &s;
    vs_check(q == &D.range_spline, "the range is inverted");
    vs_check(T == T0, "energy along the path starts at the initial energy");
    return eout(th);
}
double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt) {
    vs_check(Ap == std::lround(P.A) && Zp == std::lround(P.Z), "cross section is that of the projectile");
    vs_check(Zt == 1 && At == 1 || Zt == 6 && At == 12 || Zt == 8 && At == 16, "cross section is that of the most abundant isotopes");
    return sigma(E, Zt);
}
}
static int zs[] = {1, 6, 8};
static double ws[] = {1.008, 12.011, 15.999};
static void setup() {
    static const char* nW[] = {"w0", "w1", "w2"};
    double A[] = {12, 131.904, 207.5};
    P = Projectile(A[vs_choice("A", 0, 2)], 54, 52, vs_double("T", Ezero, 1e6, 100));
    M = Material();
    int n = vs_choice("n", 1, 3);
    bool atoms = vs_choice("atoms", 0, 1);
    double s = 0;
    for (int i = 0; i < n; i++) {
        double w = atoms ? vs_double(nW[i], 1, 20, i + 2) : vs_double(nW[i], 0.01, 0.99, 0.3);
        M.add_element(ws[i], zs[i], w);
        s += w;
    }
    if (!atoms) {
        vs_assume(n > 1 && s == 1);
        M.calculate();
    }
    M.thickness(vs_double("th", 0, 100, 1));
    any_config(C);
    T0 = P.T;
}
static double total(double th) {
    double s = 0, e = eout(th);
    for (int i = 0; i < M.ncomponents(); i++) s += M.number_density_cm2(i) * sigma(e, zs[i]);
    return s;
}
VS_CASE(case_survival) {
    setup();
    double r = nonreaction_rate(P, M, C);
    if (T0 < 30) {
        vs_check(r == -1, "marker below the reaction limit");
        return;
    }
    if (M.thickness() == 0) {
        vs_check(r == 1, "nothing reacts without target");
        return;
    }
    if (eout(M.thickness()) < 30) {
        vs_check(r == -1, "marker if the projectile leaves with less than the reaction limit");
        return;
    }
    double a = total(0), b = total(M.thickness());
    if (__builtin_fabs(a - b) < 0.0499 * a) {
        vs_close(r, std::exp(-1e-4 * (a + b) / 2), 1e-6, 1e-9, "survival counts every atom with the mean of first and last cross section");
    } else if (__builtin_fabs(a - b) > 0.0501 * a) {
        double i = integrator.integrate(total, 0, M.thickness()) / M.thickness();
        vs_close(r, std::exp(-1e-4 * i), 1e-6, 1e-9, "survival counts every atom along the path");
    }
    vs_check(r >= 0 && r <= 1, "survival is a probability");
}
VS_CASE(case_rates) {
    double s = vs_double("s", 0, 1e4, 1000), t = vs_double("t", 0, 100, 1), s2 = vs_double("s2", 0, 1e4, 1500), t2 = vs_double("t2", 0, 100, 2);
    double r = reaction_rate(s, t), n = nonreaction_rate(s, t);
    vs_close(r + n, 1, 0, 1e-9, "reaction and survival probability add up to one");
    vs_check(n >= 0 && n <= 1 && r >= 0 && r <= 1, "reaction and survival are probabilities");
    vs_close(n, std::exp(-s * t * 1e-4), 1e-9, 1e-12, "survival is exponential in cross section times target atoms");
    vs_assume(s2 >= s);
    vs_check(nonreaction_rate(s2, t) <= n, "survival does not increase with cross section");
    vs_assume(t2 >= t);
    vs_check(nonreaction_rate(s, t2) <= n, "survival does not increase with thickness");
}
static double path(double x) { return vs_ufr("path", 0, 1e4, 1, x); }
VS_CASE(case_rate_function) {
    double t = vs_double("t", 0, 100, 1);
    double (*f)(double) = path;
    double r = reaction_rate(f, t);
    GaussLegendreIntegration<8> g;
    vs_close(r, 1 - std::exp(-1e-4 * g.integrate(f, 0, t)), 1e-9, 1e-9, "reaction probability integrates a varying cross section");
}
VS_CASE(case_production) {
    Material m(12, 6, 2.0);
    m.thickness(vs_double("th", 0, 100, 1));
    double cs = vs_double("cs", 0, 1000, 10), a = vs_double("a", 0, 5000, 1000), b = vs_double("b", 0, 5000, 1500), k = vs_double("k", 0, 10, 2);
    double t = 6.022140857 * m.thickness() / 12;
    double r = production_rate(cs, a, b, m, C);
    vs_check(r >= 0, "production rate is not negative");
    vs_close(production_rate(cs * k, a, b, m, C), r * k, 1e-9, 1e-9, "production rate is proportional to the production cross section");
    if (a == b) vs_close(r, 1e-4 * cs * t * std::exp(-1e-4 * a * t), 1e-9, 1e-9, "production rate for equal cross sections");
    if (a - b > 5 || b - a > 5) vs_close(r * (b - a), cs * (std::exp(-1e-4 * a * t) - std::exp(-1e-4 * b * t)), 1e-9, 1e-9, "production rate accounts for losses of projectile and product");
}
VS_CASE(case_thin) {
    Material m(12, 6, 2.0);
    m.thickness(vs_double("th", 0, 0.02, 0.01));
    double cs = 10, a = vs_double("a", 100, 5000, 1000), b = vs_double("b", 100, 5000, 1500);
    vs_assume(b > 1.3 * a || a > 1.3 * b || a == b);
    double t = 6.022140857 * m.thickness() / 12;
    double r = production_rate(cs, a, b, m, C);
    vs_close(r, 1e-4 * cs * t, 0.03, 1e-9, "thin target limit of the production rate");
}
