// Linear interpolation in tables and the tabulated Lindhard corrections.
#include "vs.h"
#include "catima/storage.h"
#include "catima/calculations.h"
#include "catima/nucdata.h"
#include "catima/generated_LS_coeff.h"
using namespace catima;
static const char* ny[] = {"y0", "y1", "y2", "y3", "y4", "y5"};
VS_CASE(case_interpolate) {
    EnergyTable<6> t(-1, 1.5);
    double y[6];
    for (int i = 0; i < 6; i++) y[i] = vs_double(ny[i], -100, 100, 1 + i);
    double x = vs_double("x", -1, 100, 3);
    double r = EnergyTable_interpolate(t, x, y);
    if (x < t(0) || x > t(5)) {
        vs_check(r == 0, "interpolation is zero outside the table");
        return;
    }
    int i = vs_choice("interval", 0, 4);
    vs_assume(x >= t(i) && x <= t(i + 1));
    double lo = y[i] < y[i + 1] ? y[i] : y[i + 1], hi = y[i] < y[i + 1] ? y[i + 1] : y[i];
    vs_check(r >= lo - 1e-6 && r <= hi + 1e-6, "interpolated value lies between the neighbours");
    vs_close(r, y[i] + (x - t(i)) * (y[i + 1] - y[i]) / (t(i + 1) - t(i)), 0, 1e-6, "interpolation is linear between grid points");
}
VS_CASE(case_points) {
    EnergyTable<6> t(-1, 1.5);
    double y[6];
    for (int i = 0; i < 6; i++) y[i] = vs_double(ny[i], -100, 100, 1 + i);
    for (int i = 0; i < 6; i++) vs_close(EnergyTable_interpolate(t, t(i), y), y[i], 1e-9, 1e-9, "tabulated value at a grid point");
}
static const int zs[] = {1, 2, 6, 29, 54, 92, 109, 110, 118, 130};
static int tabz(int z) { return z > LS_MAX_Z ? LS_MAX_Z : z; }
#ifndef NZ
#define NZ 9
#endif
VS_CASE(case_lindhard_mass) {
    int z = zs[vs_choice("z", 0, NZ)];
    double T = vs_double("T", 0.001, 1e5, 100);
    double a0 = element_atomic_weight(tabz(z));
    double f1 = vs_double("f1", 0.5, 2, 1), f2 = vs_double("f2", 0.5, 2, 1.5);
    Projectile p0(a0, z), p1(a0 * f1, z), p2(a0 * f2, z), p3(a0 * (0.5 * (f1 + f2)), z);
    double l1 = precalculated_lindhard(p1(T)), l2 = precalculated_lindhard(p2(T)), l3 = precalculated_lindhard(p3(T));
    vs_close(l3, 0.5 * (l1 + l2), 1e-9, 1e-9, "Lindhard correction is linear in the mass");
    double x1 = precalculated_lindhard_X(p1(T)), x2 = precalculated_lindhard_X(p2(T)), x3 = precalculated_lindhard_X(p3(T));
    vs_close(x3, 0.5 * (x1 + x2), 1e-9, 1e-9, "straggling correction is linear in the mass");
    Projectile q(a0 * f1, tabz(z));
    vs_close(precalculated_lindhard(q(T)), l1, 1e-12, 0, "heavier projectiles use the heaviest tabulated element");
    vs_close(precalculated_lindhard_X(q(T)), x1, 1e-12, 0, "straggling correction of heavier projectiles uses the heaviest tabulated element");
}
// values of the table itself
VS_CASE(case_lindhard_table) {
    using namespace ls_coefficients;
    int z = zs[vs_choice("z", 0, NZ)];
    double a0 = element_atomic_weight(tabz(z));
    int k = vs_choice("k", 0, 3), n = ls_energy_table.size(), i = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : n - 2;
    double f = vs_double("f", 0.5, 2, 1.05), u = vs_double("u", 0, 1, 0.5);
    vs_assume(u > 1e-6 && u < 1 - 1e-6);
    double T = ls_energy_table(i) + u * (ls_energy_table(i + 1) - ls_energy_table(i));
    int r = tabz(z) - 1;
    double va = ls_coefficients_a[r][i] + u * (ls_coefficients_a[r][i + 1] - ls_coefficients_a[r][i]);
    double vh = ls_coefficients_ahi[r][i] + u * (ls_coefficients_ahi[r][i + 1] - ls_coefficients_ahi[r][i]);
    double xa = ls_X_coefficients_a[r][i] + u * (ls_X_coefficients_a[r][i + 1] - ls_X_coefficients_a[r][i]);
    double xh = ls_X_coefficients_ahi[r][i] + u * (ls_X_coefficients_ahi[r][i + 1] - ls_X_coefficients_ahi[r][i]);
    Projectile p(a0 * f, z);
    vs_close(precalculated_lindhard(p(T)), va + (vh - va) * (f - 1) / a_rel_increase, 1e-7, 1e-7, "Lindhard correction interpolates its tables");
    vs_close(precalculated_lindhard_X(p(T)), xa + (xh - xa) * (f - 1) / a_rel_increase, 1e-7, 1e-7, "straggling correction interpolates its tables");
    vs_check(a_rel_increase > 0, "tables are for two different masses");
}
VS_CASE(case_lindhard_low) {
    using namespace ls_coefficients;
    int z = zs[vs_choice("z", 0, NZ)];
    double a0 = element_atomic_weight(tabz(z)), f = vs_double("f", 0.5, 2, 1.05);
    double T = vs_double("T", 0, ls_energy_table(0), 0.1);
    vs_assume(T < ls_energy_table(0));
    Projectile p(a0 * f, z), q(a0 * f, z);
    vs_close(precalculated_lindhard(p(T)), precalculated_lindhard(q(ls_energy_table(0))), 1e-9, 1e-12, "Lindhard correction is constant below the table");
    vs_check(precalculated_lindhard_X(p(T)) == 1.0, "straggling correction is one below the table");
}
