// Inversion of the range: arbitrary increasing range curve with arbitrary positive slopes.
#include "vs.h"
#include "catima/catima.h"
#include "catima/storage.h"
using namespace catima;
static int slow;
static double slope;
static double R(double e) { return slow == 1 ? e : vs_ufm("range", -1, 1e7, e); }
static double D(double e) { return slow ? slope : vs_ufr("slope", 1e-6, 1e6, 1, e); }
using Table = EnergyTable<max_datapoints>;
namespace catima {
template <> double InterpolatorCSpline<Table>::operator()(double e) const { return R(e); }
template <> double InterpolatorCSpline<Table>::eval(double e) const { return R(e); }
template <> double InterpolatorCSpline<Table>::derivative(double e) const { return D(e); }
}
static void spec(double T, double th, double r) {
    vs_check(r >= 0 && r <= T, "outgoing energy lies between zero and the initial energy");
    if (R(T) - R(Ezero) <= th) {
        vs_check(r == 0, "nothing leaves a target thicker than the range");
    } else {
        vs_check(r >= Ezero, "the projectile leaves a target thinner than the range");
        double d = R(T) - R(r) - th;
        vs_check(d < 1.01e-5 && d > -1.01e-5, "range of the outgoing energy is the initial range minus the thickness");
    }
}
VS_CASE(case_invert) {
    Interpolator s;
    double T = vs_double("T", Ezero, 1e7, 100), th = vs_double("th", 0, 1e7, 1);
    spec(T, th, energy_out(T, th, s));
}
VS_CASE(case_no_thickness) {
    Interpolator s;
    double T = vs_double("T", 2 * Ezero, 1e7, 100);
    vs_check(energy_out(T, 0, s) == T, "no thickness leaves the energy unchanged");
}
// slope of the curve known only roughly: more iterations
VS_CASE(case_rough) {
    Interpolator s;
    slow = 2;
    slope = vs_choice("slope", 0, 1) ? 0.25 : 4;
    double T = vs_double("T", Ezero, 1e7, 100), th = vs_double("th", 0, 1e7, 1);
    spec(T, th, energy_out(T, th, s));
}
// Newton makes no progress at all: the solution is still found
VS_CASE(case_slow) {
    Interpolator s;
    slow = 1;
    slope = __builtin_inf();
    double base[] = {0.5, 3, 9.9};
    double th = base[vs_choice("at", 0, 2)] + vs_double("th", 0, 1e-5, 0);
    spec(10, th, energy_out(10, th, s));
}
