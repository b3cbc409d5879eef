// Index lookup of the energy grids.
#include "vs.h"
#include "catima/catima.h"
#include "catima/storage.h"
using namespace catima;

template <typename T>
static void lookup(const T& g, double lo, double hi) {
    const int N = T::size();
    double v = vs_double("v", lo, hi, 0.5 * (lo + hi));
    int i = g.index(v);
    vs_check(i >= -1 && i <= N - 1, "index is a position of the grid");
    double tol = 1e-9 * (v < 0 ? -v : v) + 1e-9 * (g[1] - g[0]);
    double first = g[0], last = g[N - 1];
    if (v < first) vs_check(i == -1, "value below the grid yields -1");
    else if (v >= last) vs_check(i == N - 1, "value at or above the last point yields the last index");
    else {
        vs_check(i >= 0, "value inside the grid has an interval");
        vs_check(g[i] <= v + tol, "interval starts at or below the value");
        if (i < N - 1) vs_check(v <= g[i + 1] + tol, "interval ends at or above the value");
        else vs_check(v >= last - tol, "last index only at the last point");
    }
}

VS_CASE(case_energy_table) {          // in blocks of the grid
    int b = vs_choice("block", 0, 20);
    double lo = b == 0 ? 1e-5 : energy_table((b - 1) * 30), hi = b == 20 ? 1e8 : energy_table(b * 30);
    lookup(energy_table, lo, hi);
}
VS_CASE(case_energy_table_med) {
    EnergyTable<40> g(-3, 7);
    lookup(g, 1e-5, 1e8);
}
VS_CASE(case_energy_table_small) {
    EnergyTable<6> g(-3, 2);
    lookup(g, 1e-5, 1e4);
}
VS_CASE(case_log_small) {
    LogVArray<6> g(-3, 2);
    lookup(g, 1e-5, 1e4);
}
VS_CASE(case_log) {
    LogVArray<40> g(-3, 7);
    lookup(g, 1e-5, 1e8);
}
VS_CASE(case_linear) {
    double lo = vs_double("min", -100, 100, 0), w = vs_double("w", 0.01, 1000, 10);
    LinearVArray<7> g(lo, lo + w);
    lookup(g, -2000, 2000);
}
VS_CASE(case_linear_values) {
    LinearVArray<7> g(vs_double("min", -100, 100, 0), vs_double("max", 101, 200, 150));
    double a = vs_double("min", -100, 100, 0), b = vs_double("max", 101, 200, 150);
    for (int i = 0; i < 7; i++) vs_close(g[i], a + i * (b - a) / 6.0, 1e-12, 1e-12, "points of the linear grid are equidistant");
}
// concrete grid values: positive, increasing, constant ratio, first and last as requested
VS_CASE(case_energy_values) {
    EnergyTable<max_datapoints>& g = energy_table;
    vs_close(g(0), 1e-3, 1e-9, 0, "lowest point of the energy grid");
    vs_close(g(max_datapoints - 1), 1e7, 1e-9, 0, "highest point of the energy grid");
    int i = vs_int("i", 0, max_datapoints - 2);
    double r = g(1) / g(0);
    vs_check(g[i] == g(i) && g(i + 1) > g(i), "energy grid increases");
    vs_close(g(i + 1) / g(i), r, 1e-9, 0, "energy grid is logarithmic");
}
