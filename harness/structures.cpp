// Projectile, Material, Config comparison; layer stacks; composition arithmetic.
#include "vs.h"
#include "catima/catima.h"
#include "catima/structures.h"
#include "catima/nucdata.h"
#include <string>
using namespace catima;

VS_CASE(case_projectile_eq) {
    Projectile a(vs_double("a.A", 0, 300, 12), vs_double("a.Z", 0, 120, 6), vs_double("a.Q", -10, 120, 6), vs_double("a.T", 0, 1e6, 10));
    Projectile b(vs_double("b.A", 0, 300, 12), vs_double("b.Z", 0, 120, 6), vs_double("b.Q", -10, 120, 6), vs_double("b.T", 0, 1e6, 20));
    bool eq = a == b;
    bool same = a.A == b.A && a.Z == b.Z && a.Q == b.Q;
    vs_check(!eq || same, "projectiles that differ compare different");
    vs_check(eq || !same, "projectiles that agree compare equal");
    vs_check(eq == (b == a), "comparison of projectiles is symmetric");
}


VS_CASE(case_config_eq) {
    Config a, b;
    a.z_effective = vs_int("a.z", 0, 255);
    a.corrections = vs_int("a.c", 0, 255);
    a.calculation = vs_int("a.o", 0, 255);
    a.low_energy = vs_int("a.l", 0, 255);
    a.scattering = vs_int("a.s", 0, 255);
    a.scattering_factor = vs_double("a.f", 0, 100, 1);
    b.z_effective = vs_int("b.z", 0, 255);
    b.corrections = vs_int("b.c", 0, 255);
    b.calculation = vs_int("b.o", 0, 255);
    b.low_energy = vs_int("b.l", 0, 255);
    b.scattering = vs_int("b.s", 0, 255);
    b.scattering_factor = vs_double("b.f", 0, 100, 1);
    bool eq = a == b;
    bool same = a.z_effective == b.z_effective && a.corrections == b.corrections && a.calculation == b.calculation && a.low_energy == b.low_energy &&
                a.scattering == b.scattering && a.scattering_factor == b.scattering_factor;
    vs_check(!eq || same, "configurations that differ compare different");
    vs_check(eq || !same, "configurations that agree compare equal");
    vs_check(eq == (b == a), "comparison of configurations is symmetric");
}

static const char* nmA[2][3] = {{"a.A0", "a.A1", "a.A2"}, {"b.A0", "b.A1", "b.A2"}};
static const char* nmZ[2][3] = {{"a.Z0", "a.Z1", "a.Z2"}, {"b.Z0", "b.Z1", "b.Z2"}};
static const char* nmS[2][3] = {{"a.s0", "a.s1", "a.s2"}, {"b.s0", "b.s1", "b.s2"}};

static Material mat(int k, int n) {
    Material m;
    for (int i = 0; i < n; i++)
        m.add_element(vs_double(nmA[k][i], 0.5, 300, 12), vs_int(nmZ[k][i], 1, 120), vs_double(nmS[k][i], 0, 1000, 1));
    m.density(vs_double(k ? "b.rho" : "a.rho", 0, 100, 1));
    m.I(vs_double(k ? "b.I" : "a.I", 0, 2000, 0));
    m.thickness(vs_double(k ? "b.th" : "a.th", 0, 1000, 1));
    if (vs_int(k ? "b.setM" : "a.setM", 0, 1)) m.M(vs_double(k ? "b.M" : "a.M", 0, 2000, 12));
    return m;
}

VS_CASE(case_material_eq) {
    int na = vs_choice("na", 0, 3), nb = vs_choice("nb", 0, 3);
    Material a = mat(0, na), b = mat(1, nb);
    bool eq = a == b;
    bool same = na == nb && a.I() == b.I() && a.M() == b.M();
    if (na == nb)
        for (int i = 0; i < na; i++) {
            Target x = a.get_element(i), y = b.get_element(i);
            same = same && x.A == y.A && x.Z == y.Z && x.stn == y.stn;
        }
    double d = a.density() - b.density();
    bool far = d > 1.001e-6 || d < -1.001e-6;
    bool near = d < 0.999e-6 && d > -0.999e-6;
    vs_check(!eq || same, "materials of different composition compare different");
    vs_check(!eq || !far, "materials of different density compare different");
    vs_check(eq || !same || !near, "materials that agree compare equal");
    vs_check(eq == (b == a), "comparison of materials is symmetric");
}

// ---------------------------------------------------------------- layers
static const char* nmT[8] = {"th0", "th1", "th2", "th3", "th4", "th5", "th6", "th7"};
static const char* nmR[8] = {"rho0", "rho1", "rho2", "rho3", "rho4", "rho5", "rho6", "rho7"};
struct Model {          // reference: list of material numbers
    int n = 0;
    int id[64];
};
static Material pool(int i) {
    Material m(10.0 + i, 3 + i, vs_double(nmR[i], 0.001, 30, 1 + i), vs_double(nmT[i], 0, 50, 0.5 * (i + 1)), 20.0 + i);
    return m;
}
static bool same_layer(const Material& m, int i) {
    if (m.ncomponents() != 1) return false;
    Target t = m.get_element(0);
    return t.A == 10.0 + i && t.Z == 3 + i && m.I() == 20.0 + i && m.M() == 10.0 + i && m.density() == vs_double(nmR[i], 0.001, 30, 1 + i) &&
           m.thickness() == vs_double(nmT[i], 0, 50, 0.5 * (i + 1));
}
static bool same_stack(const Layers& l, const Model& m) {
    if (l.num() != m.n || (int)l.get_materials().size() != m.n) return false;
    for (int i = 0; i < m.n; i++)
        if (!same_layer(l.get_materials()[i], m.id[i])) return false;
    return true;
}
static double sum_th(const Model& m) {
    double s = 0;
    for (int i = 0; i < m.n; i++) s += vs_double(nmT[m.id[i]], 0, 50, 1);
    return s;
}
static double sum_cm(const Model& m) {
    double s = 0;
    for (int i = 0; i < m.n; i++) s += vs_double(nmT[m.id[i]], 0, 50, 1) / vs_double(nmR[m.id[i]], 0.001, 30, 1);
    return s;
}
static void app(Model& m, const Model& x) {
    int n = x.n;
    for (int i = 0; i < n; i++) m.id[m.n + i] = x.id[i];
    m.n += n;
}
#ifndef NOPS
#define NOPS 3
#endif
static const char* nmOp[4] = {"op0", "op1", "op2", "op3"};
VS_CASE(case_layers) {
    Layers s[2];
    Model r[2];
    int next = 0;
    int n0 = vs_choice("n0", 0, 2), n1 = vs_choice("n1", 0, 1);
    for (int i = 0; i < n0; i++) { s[0].add(pool(next)); r[0].id[r[0].n++] = next++; }
    for (int i = 0; i < n1; i++) { s[1].add(pool(next)); r[1].id[r[1].n++] = next++; }
    for (int k = 0; k < NOPS; k++) {
        int op = vs_choice(nmOp[k], 0, 6);
        Model before0 = r[0], before1 = r[1];
        if (op == 0) {
            s[0].add(pool(next)); r[0].id[r[0].n++] = next++;
        } else if (op == 1) {                    // append the other stack
            s[0].add(s[1]); app(r[0], r[1]);
        } else if (op == 2) {                    // append to itself
            s[0].add(s[0]); app(r[0], before0);
        } else if (op == 3) {                    // concatenate, other way round
            Layers t = s[1] + s[0];
            vs_check(same_stack(s[0], before0) && same_stack(s[1], before1), "concatenation leaves the operands unchanged");
            s[0] = t; Model q = r[1]; app(q, before0); r[0] = q;
        } else if (op == 4) {                    // concatenate with itself
            s[1] = s[0] + s[0]; Model q = r[0]; app(q, before0); r[1] = q;
        } else if (op == 5) {                    // stack plus material
            Layers t = s[0] + pool(next);
            vs_check(same_stack(s[0], before0), "adding a material by operator leaves the operand unchanged");
            s[1] = t; r[1] = r[0]; r[1].id[r[1].n++] = next++;
        } else {                                 // modify a copy: the original is independent
            Layers t = s[0];
            if (t.num()) t[0].thickness(77.0);
            t.add(s[1]);
            vs_check(same_stack(s[0], before0), "copies of a stack are independent");
        }
        vs_check(same_stack(s[0], r[0]) && same_stack(s[1], r[1]), "stack consists of the added layers in order");
    }
    vs_close(s[0].thickness(), sum_th(r[0]), 1e-9, 1e-12, "total thickness is the sum over the layers");
    vs_close(s[0].thickness_cm(), sum_cm(r[0]), 1e-9, 1e-12, "total thickness in cm is the sum over the layers");
    for (int i = 0; i < r[0].n; i++) vs_check(same_layer(s[0][i], r[0].id[i]), "indexed access returns the layer at that position");
}

// ---------------------------------------------------------------- composition
static void common(const Material& m, int n, double Mexp) {
    double rho = m.density(), th = m.thickness();
    vs_close(m.M(), Mexp, 1e-9, 1e-12, "molar mass of the composition");
    double Na = 6.022140857;
    vs_close(m.number_density(), Na * rho / Mexp, 1e-9, 1e-12, "number density");
    vs_close(m.number_density_cm2(), Na * th / Mexp, 1e-9, 1e-12, "areal number density");
    for (int i = 0; i < n; i++) {
        vs_close(m.number_density(i), m.number_density() * m.molar_fraction(i), 1e-9, 1e-12, "partial number density is the total times the molar fraction");
        vs_close(m.number_density_cm2(i), m.number_density_cm2() * m.molar_fraction(i), 1e-9, 1e-12, "partial areal density is the total times the molar fraction");
        vs_close(m.molar_fraction(i) * m.get_element(i).A, m.weight_fraction(i) * m.M(), 1e-9, 1e-12, "molar fraction times mass is weight fraction times molar mass");
    }
}

static Material build(int n, int way, double* A, double* S, double rho, double I, double M) {
    if (way == 0) {
        if (n == 1) return Material({{A[0], 6, S[0]}}, rho, I, M);
        if (n == 2) return Material({{A[0], 6, S[0]}, {A[1], 8, S[1]}}, rho, I, M);
        return Material({{A[0], 6, S[0]}, {A[1], 8, S[1]}, {A[2], 1, S[2]}}, rho, I, M);
    }
    const int Z[3] = {6, 8, 1};
    Material m;
    for (int i = 0; i < n; i++) m.add_element(A[i], Z[i], S[i]);
    m.density(rho).I(I);
    if (M > 0) m.M(M);
    else m.calculate();
    return m;
}

static const char* cA[3] = {"A0", "A1", "A2"};
static const char* cS[3] = {"s0", "s1", "s2"};
VS_CASE(case_formula) {          // numbers of atoms
    int n = vs_choice("n", 1, 3), way = vs_choice("way", 0, 1);
    double A[3], S[3], sum = 0;
    for (int i = 0; i < n; i++) {
        A[i] = vs_double(cA[i], 0.5, 300, 12 + i);
        S[i] = vs_double(cS[i], 1, 100, 1 + i);
        sum += A[i] * S[i];
    }
    double rho = vs_double("rho", 1e-6, 30, 2), th = vs_double("th", 0, 100, 1);
    Material m = build(n, way, A, S, rho, 0, 0);
    m.thickness(th);
    vs_check(m.ncomponents() == n, "every component is kept");
    for (int i = 0; i < n; i++) vs_check(m.get_element(i).A == A[i] && m.get_element(i).stn == S[i], "components keep mass and amount");
    common(m, n, sum);
    double w = 0;
    for (int i = 0; i < n; i++) {
        vs_close(m.weight_fraction(i), S[i] * A[i] / sum, 1e-9, 1e-12, "weight fraction of a component of a formula");
        vs_close(m.molar_fraction(i), S[i], 1e-9, 1e-12, "molar fraction of a formula is the number of atoms");
        w += m.weight_fraction(i);
    }
    vs_close(w, 1.0, 1e-9, 0, "weight fractions of a formula sum to one");
}
VS_CASE(case_weights) {          // weight fractions
    int n = vs_choice("n", 2, 3), way = vs_choice("way", 0, 1);
    double A[3], S[3], sum = 0, ws = 0;
    for (int i = 0; i < n; i++) {
        A[i] = vs_double(cA[i], 0.5, 300, 12 + i);
        S[i] = vs_double(cS[i], 0, 0.999, 0.3);
        if (i == n - 1) { S[i] = 1.0 - ws; vs_assume(S[i] >= 0 && S[i] <= 0.999); }
        ws += S[i];
        sum += S[i] / A[i];
    }
    double rho = vs_double("rho", 1e-6, 30, 2), th = vs_double("th", 0, 100, 1);
    Material m = build(n, way, A, S, rho, 0, 0);
    m.thickness(th);
    common(m, n, 1.0 / sum);
    double w = 0, mf = 0;
    for (int i = 0; i < n; i++) {
        vs_close(m.weight_fraction(i), S[i], 1e-9, 1e-12, "weight fraction given is weight fraction returned");
        w += m.weight_fraction(i);
        mf += m.molar_fraction(i);
    }
    vs_close(w, 1.0, 1e-9, 0, "weight fractions sum to one");
    vs_close(mf, 1.0, 1e-9, 0, "molar fractions of weight fractions sum to one");
}
VS_CASE(case_user_mass) {
    int n = vs_choice("n", 1, 3), way = vs_choice("way", 0, 1), kind = vs_choice("kind", 0, 1);
    double A[3], S[3];
    for (int i = 0; i < n; i++) {
        A[i] = vs_double(cA[i], 0.5, 300, 12 + i);
        S[i] = kind ? vs_double(cS[i], 1, 100, 1 + i) : vs_double(cS[i], 0, 0.999, 0.3);
    }
    double M = vs_double("M", 0.5, 3000, 40), I = vs_double("I", 0, 2000, 0), rho = vs_double("rho", 1e-6, 30, 2);
    Material m = build(n, way, A, S, rho, I, M);
    vs_check(m.M() == M, "molar mass given by the user is kept");
    vs_check(m.I() == I && m.density() == rho, "ionisation potential and density given by the user are kept");
    common(m, n, M);
}
VS_CASE(case_thickness) {
    double rho = vs_double("rho", 1e-6, 30, 2), l = vs_double("l", 0, 1000, 3), th = vs_double("th", 0, 1000, 1);
    double a = vs_double("a", 0, 300, 12), ip = vs_double("I", 0, 2000, 10);
    int z = vs_int("z", 1, 109);
    Material m(a, z, rho, th, ip);
    vs_check(m.thickness() == th && m.density() == rho && m.I() == ip && m.ncomponents() == 1, "constructor arguments are kept");
    vs_check(m.get_element(0).Z == z && m.get_element(0).stn == 1.0, "element of a single element material");
    if (a > 0) vs_check(m.get_element(0).A == a && m.M() == a, "mass of a single element material");
    else vs_check(m.get_element(0).A == element_atomic_weight(z) && m.M() == element_atomic_weight(z), "zero mass selects the atomic weight");
    vs_close(m.thickness_cm() * rho, th, 1e-9, 1e-12, "thickness in g/cm2 is density times thickness in cm");
    m.thickness_cm(l);
    vs_close(m.thickness(), rho * l, 1e-9, 1e-12, "setting the thickness in cm");
    vs_close(m.thickness_cm(), l, 1e-9, 1e-12, "thickness in cm reads back");
    m.thickness(th);
    vs_check(m.thickness() == th, "setting the thickness in g/cm2");
}
VS_CASE(case_missing_component) {
    int n = vs_choice("n", 0, 3);
    double A[3] = {12, 16, 1}, S[3] = {1, 2, 3};
    Material m;
    for (int i = 0; i < n; i++) m.add_element(A[i], 6 + i, S[i]);
    m.density(vs_double("rho", 1e-6, 30, 2)).thickness(vs_double("th", 0, 100, 1));
    int i = vs_int("i", -2147483647 - 1, 2147483647);
    vs_assume(i < 0 || i >= n);
    vs_check(m.number_density(i) == 0.0 && m.number_density_cm2(i) == 0.0, "component that does not exist has no atoms");
}
