// Interpolating splines on small grids with arbitrary values.
#include "vs.h"
#include "catima/catima.h"
#include "catima/storage.h"
#include "catima/spline.h"
#include <vector>
using namespace catima;
static const char* nm[8] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"};
static std::vector<double> values(int n) {
    std::vector<double> y(n);
    for (int i = 0; i < n; i++) y[i] = vs_double(nm[i], -1000, 1000, i);
    return y;
}
struct Uneven {                     // grids with exactly representable, uneven spacing
    static constexpr int size() { return 4; }
    double operator[](int i) const { const double v[4] = {0, 1, 3, 4}; return v[i]; }
    int index(double x) const { return x < 0 ? -1 : x < 1 ? 0 : x < 3 ? 1 : x < 4 ? 2 : 3; }
};
struct Uneven6 {
    static constexpr int size() { return 6; }
    double operator[](int i) const { const double v[6] = {-1, 1, 1.5, 4, 4.25, 9}; return v[i]; }
    int index(double x) const { return x < -1 ? -1 : x < 1 ? 0 : x < 1.5 ? 1 : x < 4 ? 2 : x < 4.25 ? 3 : x < 9 ? 4 : 5; }
};
// cubic through four points inside an interval
struct Cubic {
    double x0, c0, c1, c2, c3;
    double operator()(double x) const { double t = x - x0; return c0 + t * (c1 + t * (c2 + t * c3)); }
    double d(double x) const { double t = x - x0; return c1 + t * (2 * c2 + t * 3 * c3); }
    double dd(double x) const { double t = x - x0; return 2 * c2 + 6 * c3 * t; }
};
template <typename S>
static Cubic fit(const S& s, double x0, double x1) {
    double h = (x1 - x0) / 5.0;      // sample at x0+h .. x0+4h, Newton form
    double f1 = s.evaluate(x0 + h), f2 = s.evaluate(x0 + 2 * h), f3 = s.evaluate(x0 + 3 * h), f4 = s.evaluate(x0 + 4 * h);
    double d1 = (f2 - f1) / h, d2 = (f3 - 2 * f2 + f1) / (2 * h * h), d3 = (f4 - 3 * f3 + 3 * f2 - f1) / (6 * h * h * h);
    // expand about x0: f1 + d1 (t-h) + d2 (t-h)(t-2h) + d3 (t-h)(t-2h)(t-3h)
    Cubic c;
    c.x0 = x0;
    c.c0 = f1 - d1 * h + d2 * 2 * h * h - d3 * 6 * h * h * h;
    c.c1 = d1 - 3 * h * d2 + 11 * h * h * d3;
    c.c2 = d2 - 6 * h * d3;
    c.c3 = d3;
    return c;
}
template <int N, typename T>
static void smooth(const T& x, bool natural) {
    std::vector<double> y = values(N);
    cspline_special<T> s(x, y, natural);
    Cubic c[N - 1];
    double sc = x[N - 1] - x[0];
    double hmin = x[1] - x[0];
    double ts = 1e-6, td = 1e-6 / hmin, tdd = 1e-4 / (hmin * hmin);
    for (int i = 0; i < N - 1; i++) c[i] = fit(s, x[i], x[i + 1]);
    for (int i = 0; i < N; i++) vs_close(s.evaluate(x[i]), y[i], 1e-9, ts, "curve passes through the points");
    for (int i = 0; i < N; i++) vs_close(s(x[i]), s.evaluate(x[i]), 1e-12, 0, "call operator evaluates the curve");
    for (int i = 0; i < N - 1; i++) {
        vs_close(c[i](x[i]), y[i], 1e-9, ts, "curve is continuous from the right");
        vs_close(c[i](x[i + 1]), y[i + 1], 1e-9, ts, "curve is continuous from the left");
        vs_close(s.deriv(x[i]), c[i].d(x[i]), 1e-9, td, "derivative at a grid point");
        for (int k = 1; k < 5; k++) {
            double xx = x[i] + k * (x[i + 1] - x[i]) / 5.0;
            vs_close(s.deriv(xx), c[i].d(xx), 1e-9, td, "reported derivative is the derivative of the curve");
        }
    }
    for (int i = 1; i < N - 1; i++) {
        vs_close(c[i].d(x[i]), c[i - 1].d(x[i]), 1e-9, td, "first derivative is continuous");
        vs_close(c[i].dd(x[i]), c[i - 1].dd(x[i]), 1e-9, tdd, "second derivative is continuous");
    }
    if (natural) {
        vs_close(c[0].dd(x[0]), 0.0, 0, tdd, "second derivative vanishes at the lower end");
        vs_close(c[N - 2].dd(x[N - 1]), 0.0, 0, tdd, "second derivative vanishes at the upper end");
    } else {
        vs_close(c[0].d(x[0]), 0.0, 0, td, "slope vanishes at the lower end");
        vs_close(c[N - 2].d(x[N - 1]), 0.0, 0, td, "slope vanishes at the upper end");
    }
    // tangent outside the grid, at every distance
    double u = vs_double("u", 0, 3, 1);
    double dl = c[0].d(x[0]), dr = c[N - 2].d(x[N - 1]);
    double xl = x[0] - u * hmin, xr = x[N - 1] + u * sc;
    vs_close(s.evaluate(xl), y[0] - u * hmin * dl, 1e-9, ts * 10, "curve below the grid is the tangent");
    vs_close(s.evaluate(xr), y[N - 1] + u * sc * dr, 1e-9, td * sc * 10, "curve above the grid is the tangent");
    vs_close(s.deriv(xl), dl, 1e-9, td, "slope below the grid is constant");
    vs_close(s.deriv(xr), dr, 1e-9, td, "slope above the grid is constant");
}
// the polynomial pieces hold at every position, not only at the sampled ones
template <int N, typename T>
static void every_position(const T& x) {
    std::vector<double> y = values(N);
    cspline_special<T> s(x, y);
    int i = vs_choice("interval", 0, N - 2);
    Cubic c = fit(s, x[i], x[i + 1]);
    double t = vs_double("t", 0, 1, 0.5);
    vs_assume(t > 1e-6 && t < 1 - 1e-6);
    double xx = x[i] + t * (x[i + 1] - x[i]);
    double hmin = x[1] - x[0];
    vs_close(s.evaluate(xx), c(xx), 1e-9, 1e-6, "curve is one cubic in each interval");
    vs_close(s.deriv(xx), c.d(xx), 1e-9, 1e-6 / hmin, "derivative is one parabola in each interval");
}
template <int N, typename T>
static void line(const T& x) {
    double a = vs_double("a", -10, 10, 1), b = vs_double("b", -10, 10, 2);
    std::vector<double> y(N);
    for (int i = 0; i < N; i++) y[i] = a + b * x[i];
    cspline_special<T> s(x, y);
    double xx = vs_double("x", -50, 500, 3);
    vs_close(s.evaluate(xx), a + b * xx, 1e-7, 1e-4, "straight line is reproduced");
    vs_close(s.deriv(xx), b, 1e-6, 1e-6, "slope of a straight line is reproduced");
}
VS_CASE(case_linear_natural) { smooth<5>(LinearVArray<5>(1.0, 9.0), true); }
VS_CASE(case_linear_clamped) { smooth<5>(LinearVArray<5>(1.0, 9.0), false); }
VS_CASE(case_log_natural) { smooth<6>(EnergyTable<6>(-1, 1.5), true); }
VS_CASE(case_log_clamped) { smooth<6>(EnergyTable<6>(-1, 1.5), false); }
VS_CASE(case_log3) { smooth<3>(EnergyTable<3>(0, 1), true); }
VS_CASE(case_vlog) { smooth<5>(LogVArray<5>(-1, 1), true); }
VS_CASE(case_every_linear) { every_position<4>(LinearVArray<4>(1.0, 7.0)); }
VS_CASE(case_every_uneven) { every_position<4>(Uneven()); }
VS_CASE(case_uneven_natural) { smooth<6>(Uneven6(), true); }
VS_CASE(case_uneven_clamped) { smooth<6>(Uneven6(), false); }
VS_CASE(case_line_linear) { line<5>(LinearVArray<5>(1.0, 9.0)); }
VS_CASE(case_line_log) { line<5>(EnergyTable<5>(-1, 1)); }
// the interpolator used for the tables
VS_CASE(case_interpolator) {
    std::vector<double> y = values(max_datapoints);
    Interpolator f(energy_table, y);
    cspline_special<EnergyTable<max_datapoints>> s(energy_table, y);
    vs_check(f.get_min() == energy_table(0) && f.get_max() == energy_table(max_datapoints - 1), "interpolator knows the limits of the grid");
    double x = vs_double("x", 1e-4, 1e8, 10);
    vs_close(f(x), s.evaluate(x), 1e-12, 0, "interpolator evaluates the spline");
    vs_close(f.eval(x), s.evaluate(x), 1e-12, 0, "interpolator eval evaluates the spline");
    vs_close(f.derivative(x), s.deriv(x), 1e-12, 0, "interpolator derivative is that of the spline");
    for (int i = 0; i < max_datapoints; i++) vs_close(f(energy_table(i)), y[i], 1e-9, 1e-3, "interpolator passes through the table");
}
