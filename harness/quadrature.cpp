// Gauss-Legendre and Gauss-Kronrod rules.
#include "vs.h"
#include "catima/integrator.h"
#include <array>
#include <vector>

using namespace integrators;
struct Nm { char b[12]; const char* c_str() const { return b; } };
static Nm nm(const char* p, int i) { Nm r; char* b = r.b; int n = 0; b[n++] = p[0]; if (i > 99) b[n++] = '0' + i / 100; if (i > 9) b[n++] = '0' + i / 10 % 10; b[n++] = '0' + i % 10; b[n] = 0; return r; }
// polynomial with arbitrary coefficients
template <int D> struct Poly {
    double c[D + 1];
    Poly() { for (int i = 0; i <= D; i++) c[i] = vs_double(nm("c", i).c_str(), -1, 1, 1); }
    double operator()(double x) const {
        double s = 0, p = 1;
        for (int i = 0; i <= D; i++) { s += c[i] * p; p *= x; }
        return s;
    }
    double primitive(double x) const {
        double s = 0, p = x;
        for (int i = 0; i <= D; i++) { s += c[i] * (p / (i + 1)); p *= x; }
        return s;
    }
    double integral(double a, double b) const {    // grouped by coefficient
        double s = 0, p = a, q = b;
        for (int i = 0; i <= D; i++) { s += c[i] * ((q - p) / (i + 1)); p *= a; q *= b; }
        return s;
    }
};
// arbitrary function
struct Any { const char* n; double operator()(double x) const { return vs_uf(n, 1, x); } };
struct AnyPos { double operator()(double x) const { double v = vs_uf("f", 1, x); vs_assume(v >= 0); return v; } };
struct Lin { double al, be; double operator()(double x) const { return al * vs_uf("f", 1, x) + be * vs_uf("g", 1, x); } };
template <int M> struct Rec { mutable int n = 0; mutable double x[M]; double operator()(double v) const { if (n < M) x[n] = v; n++; return 1.0; } };

template <int n> static void gl_exact() {
    GaussLegendreIntegration<n> g;
    Poly<2 * n - 1> f;
    const double lim[3][2] = {{-1, 1}, {0, 1}, {-0.75, 0.5}};
    for (auto& l : lim) {
        vs_close(g.integrate(f, l[0], l[1]), f.integral(l[0], l[1]), 0, 1e-11, "Gauss-Legendre rule is exact for polynomials");
        vs_close(g(f, l[0], l[1]), f.integral(l[0], l[1]), 0, 1e-11, "call operator integrates");
    }
}
template <int n> static void gl_symbolic() {        // arbitrary limits
    GaussLegendreIntegration<n> g;
    Poly<2 * n - 1> f;
    double a = vs_double("a", -1.5, 1.5, 0), b = vs_double("b", -1.5, 1.5, 1);
    vs_close(g.integrate(f, a, b), f.primitive(b) - f.primitive(a), 0, 1e-6, "rule is exact over any interval");
}
template <int n> static void points(const std::array<double, n>& p, const Rec<2 * n>& r, bool allsame) {
    vs_check(r.n == n, "number of evaluations is the order");
    for (int i = 0; i < n; i++) {
        vs_check(p[i] > -0.75 && p[i] < 2.5, "listed points lie inside the interval");
        vs_check(i == 0 || p[i] > p[i - 1], "listed points are ordered");
        bool hit = false;
        for (int j = 0; j < n; j++) { double d = r.x[j] - p[i]; hit = hit || (d < 1e-12 && d > -1e-12); }
        vs_check(hit, "listed points are those used");
    }
}
template <int n> static void gl_general() {
    GaussLegendreIntegration<n> g;
    vs_check(g.n() == n, "order is reported");
    Rec<2 * n> r;
    g.integrate(r, -0.75, 2.5);
    points<n>(g.get_points(-0.75, 2.5), r, true);
    Any f{"f"};
    double a = vs_double("a", -100, 100, 0), b = vs_double("b", -100, 100, 1);
    vs_close(g.integrate(f, b, a), -g.integrate(f, a, b), 1e-9, 0, "exchanging the limits changes the sign");
    vs_close(g.integrate(f, a, a), 0, 0, 0, "empty interval integrates to zero");
    Lin l{vs_double("al", -10, 10, 1), vs_double("be", -10, 10, 1)};
    Any h{"g"};
    vs_close(g.integrate(l, a, b), l.al * g.integrate(f, a, b) + l.be * g.integrate(h, a, b), 1e-9, 1e-9, "integration is linear");
}
template <int n> static void gl_positive() {
    GaussLegendreIntegration<n> g;
    AnyPos f;
    vs_check(g.integrate(f, -0.5, 2.0) >= 0, "integral of a non-negative function is not negative");
}
#define GL(T) T<3>(); T<4>(); T<5>(); T<6>(); T<7>(); T<8>();
#define GL2(T) T<10>(); T<12>(); T<14>(); T<16>(); T<20>();
VS_CASE(case_gl_small) { int o = vs_choice("order", 0, 5); switch (o) { case 0: gl_exact<3>(); break; case 1: gl_exact<4>(); break; case 2: gl_exact<5>(); break; case 3: gl_exact<6>(); break; case 4: gl_exact<7>(); break; default: gl_exact<8>(); } }
VS_CASE(case_gl_medium) { int o = vs_choice("order", 0, 4); switch (o) { case 0: gl_exact<10>(); break; case 1: gl_exact<12>(); break; case 2: gl_exact<14>(); break; case 3: gl_exact<16>(); break; default: gl_exact<20>(); } }
VS_CASE(case_gl_large) { int o = vs_choice("order", 0, 2); switch (o) { case 0: gl_exact<32>(); break; case 1: gl_exact<64>(); break; default: gl_exact<128>(); } }
VS_CASE(case_gl_symbolic) { int o = vs_choice("order", 0, 2); switch (o) { case 0: gl_symbolic<3>(); break; case 1: gl_symbolic<4>(); break; default: gl_symbolic<5>(); } }
VS_CASE(case_gl_symbolic8) { gl_symbolic<8>(); }
VS_CASE(case_gl_general) { GL(gl_general) }
VS_CASE(case_gl_general2) { GL2(gl_general) }
VS_CASE(case_gl_general3) { gl_general<32>(); gl_general<64>(); gl_general<128>(); }
VS_CASE(case_gl_positive) { GL(gl_positive) GL2(gl_positive) gl_positive<32>(); }

// Kronrod rules: 2n+1 points, design degree 3n+1, embedded Gauss rule of n points
template <int n> static void gk_exact() {
    typedef GaussKronrodIntegration<n> G;
    const int ng = (n - 1) / 2;
    Poly<3 * ng + 1> f;
    const double lim[2][2] = {{-1, 1}, {-0.75, 0.5}};
    for (auto& l : lim) vs_close(G::integrate_nonadaptive(f, l[0], l[1]).first, f.integral(l[0], l[1]), 0, 1e-11, "Kronrod rule is exact for polynomials of its design degree");
}
template <int n> static void gk_embedded() {
    typedef GaussKronrodIntegration<n> G;
    const int ng = (n - 1) / 2;
    Poly<2 * ng - 1> f;
    std::pair<double, double> r = G::integrate_nonadaptive(f, -0.75, 0.5);
    vs_close(r.second, 0, 0, 1e-11, "error estimate vanishes where the embedded Gauss rule is exact");
    // such polynomials need no subdivision, whatever interface is used
    vs_close(G::integrate_adaptive(f, -0.75, 0.5), f.integral(-0.75, 0.5), 0, 1e-10, "adaptive rule is exact for polynomials");
    vs_close(G::integrate(f, -0.75, 0.5), f.integral(-0.75, 0.5), 0, 1e-10, "integrate is exact for polynomials");
}
template <int n> static void gk_general() {
    typedef GaussKronrodIntegration<n> G;
    vs_check(G::n() == n, "order is reported");
    Rec<2 * n> r;
    G::integrate_nonadaptive(r, -0.75, 2.5);
    points<n>(G::get_points(-0.75, 2.5), r, true);
    Any f{"f"};
    double a = vs_double("a", -100, 100, 0), b = vs_double("b", -100, 100, 1);
    vs_close(G::integrate_nonadaptive(f, b, a).first, -G::integrate_nonadaptive(f, a, b).first, 1e-9, 0, "exchanging the limits of a Kronrod rule changes the sign");
    Lin l{vs_double("al", -10, 10, 1), vs_double("be", -10, 10, 1)};
    Any h{"g"};
    vs_close(G::integrate_nonadaptive(l, a, b).first, l.al * G::integrate_nonadaptive(f, a, b).first + l.be * G::integrate_nonadaptive(h, a, b).first, 1e-9, 1e-9, "Kronrod integration is linear");
    AnyPos q;
    vs_check(G::integrate_nonadaptive(q, -0.5, 2.0).first >= 0, "Kronrod integral of a non-negative function is not negative");
}
VS_CASE(case_gk_exact) { int o = vs_choice("order", 0, 4); switch (o) { case 0: gk_exact<7>(); break; case 1: gk_exact<15>(); break; case 2: gk_exact<21>(); break; case 3: gk_exact<31>(); break; default: gk_exact<61>(); } }
VS_CASE(case_gk_embedded) { int o = vs_choice("order", 0, 1); switch (o) { case 0: gk_embedded<7>(); break; default: gk_embedded<15>(); } }
VS_CASE(case_gk_embedded_large) { int o = vs_choice("order", 0, 2); switch (o) { case 0: gk_embedded<21>(); break; case 1: gk_embedded<31>(); break; default: gk_embedded<61>(); } }
VS_CASE(case_gk_general) { gk_general<7>(); gk_general<15>(); gk_general<21>(); gk_general<31>(); gk_general<61>(); }
// several intervals add up
VS_CASE(case_gk_intervals) {
    typedef GaussKronrodIntegration<7> G;
    Poly<3> f;
    double a = -0.5, w1 = 0.75, w2 = 0.625;
    int n = vs_choice("parts", 1, 4);
    vs_close(G::integrate(f, a, a + w1, 1e-3, 1e-6, n), f.primitive(a + w1) - f.primitive(a), 0, 1e-9, "integral over equal parts is the whole");
    std::vector<std::pair<double, double>> v;
    vs_close(G::integrate_intervals(f, v), 0, 0, 0, "no interval integrates to zero");
    v.push_back({a, a + w1});
    v.push_back({a + w1, a + w1 + w2});
    vs_close(G::integrate_intervals(f, v), f.primitive(a + w1 + w2) - f.primitive(a), 0, 1e-9, "integrals over listed intervals add up");
    v[1] = {a, a + w2};
    vs_close(G::integrate_intervals(f, v), f.primitive(a + w1) + f.primitive(a + w2) - 2 * f.primitive(a), 0, 1e-9, "each listed interval counts once");
}
// one level of subdivision of an arbitrary function
VS_CASE(case_gk_adaptive) {
    typedef GaussKronrodIntegration<7> G;
    Any f{"f"};
    double a = 0.5, b = 2.0, m = 1.25, eps = vs_double("eps", 1e-6, 1, 1e-3);
    for (int i = 0; i < 0; i++) (void)i;
    double whole = G::integrate_nonadaptive(f, a, b).first, err = G::integrate_nonadaptive(f, a, b).second;
    double half = G::integrate_nonadaptive(f, a, m).first + G::integrate_nonadaptive(f, m, b).first;
    double r = G::integrate_adaptive(f, a, b, eps, 0, 1), r0 = G::integrate_adaptive(f, a, b, eps, 0, 0);
    double dw = r - whole, dh = r - half;
    vs_check((dw < 1e-9 && dw > -1e-9) || (dh < 1e-9 && dh > -1e-9), "subdivided integral is that of the interval or of its halves");
    vs_check(!(err < 0.99 * eps) || (dw < 1e-9 && dw > -1e-9), "no subdivision if the error is small enough");
    vs_check(!(err > 1.01 * eps && (whole > 1.01 * eps || whole < -1.01 * eps)) || (dh < 1e-9 && dh > -1e-9), "subdivision if the error is too large");
    vs_close(r0, whole, 1e-12, 1e-12, "no subdivision when the depth is used up");
}
// two dimensions
template <int D, int E2> struct Poly2 {
    double c[D + 1][E2 + 1];
    Poly2() { for (int i = 0; i <= D; i++) for (int j = 0; j <= E2; j++) c[i][j] = vs_double(nm("c", i * (E2 + 1) + j).c_str(), -1, 1, 1); }
    double operator()(double x, double y) const {
        double s = 0, p = 1;
        for (int i = 0; i <= D; i++) { double q = 1; for (int j = 0; j <= E2; j++) { s += c[i][j] * (p * q); q *= y; } p *= x; }
        return s;
    }
    double integral(double a, double b, double u, double v) const {
        double s = 0, pa = a, pb = b;
        for (int i = 0; i <= D; i++) {
            double qu = u, qv = v;
            for (int j = 0; j <= E2; j++) { s += c[i][j] * ((pb - pa) / (i + 1) * ((qv - qu) / (j + 1))); qu *= u; qv *= v; }
            pa *= a; pb *= b;
        }
        return s;
    }
};
template <int n> static void gl2() {
    GaussLegendreIntegration2D<n> g;
    Poly2<2 * n - 1, 2 * n - 1> f;
    vs_close(g.integrate(f, -0.75, 0.5, 0.25, 1.0), f.integral(-0.75, 0.5, 0.25, 1.0), 0, 1e-11, "two-dimensional rule is exact for polynomials");
    vs_close(g(f, -1, 1, 0, 1), f.integral(-1, 1, 0, 1), 0, 1e-11, "two-dimensional call operator integrates");
}
template <int n, int m> static void gl2a() {
    GaussLegendreIntegration2DA<n, m> g;
    Poly2<2 * n - 1, 2 * m - 1> f;
    vs_close(g.integrate(f, -0.75, 0.5, 0.25, 1.0), f.integral(-0.75, 0.5, 0.25, 1.0), 0, 1e-11, "two-dimensional rule of two orders is exact for polynomials");
    vs_close(g(f, -1, 1, 0, 1), f.integral(-1, 1, 0, 1), 0, 1e-11, "call operator of the rule of two orders integrates");
}
VS_CASE(case_gl2) { int o = vs_choice("order", 0, 3); switch (o) { case 0: gl2<3>(); break; case 1: gl2<4>(); break; case 2: gl2<5>(); break; default: gl2<8>(); } }
VS_CASE(case_gl2a) { int o = vs_choice("order", 0, 3); switch (o) { case 0: gl2a<3, 4>(); break; case 1: gl2a<4, 5>(); break; case 2: gl2a<7, 3>(); break; default: gl2a<5, 5>(); } }
