// Table lookups for every proton number: the executor and the sanitizers check every access and conversion.
#include <cmath>
#include "vs.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/nucdata.h"
#include "catima/srim.h"
#include "catima/reactions.h"
#include "catima/data_ionisation_potential.h"
using namespace catima;
VS_CASE(case_potential) {
    int z = vs_int("z", -2147483647 - 1, 2147483647);
    double i = ipot(z);
    if (z >= 1 && z <= 120) vs_check(i > 10 && i < 2000, "every element has an ionisation potential");
    else vs_check(i == 0, "no ionisation potential outside of the table");
    vs_check(element_atomic_weight(z) >= 0 && element_density(z) >= 0, "element data exist for every number");
}
VS_CASE(case_density) {
    static const double betas[] = {0.05, 0.4, 0.9, 0.9999};
    int z = vs_choice("z", 1, 130);
    double d = bethek_density_effect(betas[vs_choice("beta", 0, 3)] * (1 - vs_double("u", 0, 1e-6, 1e-7)), z);
    vs_check(d > -1e-3 && d < 100, "density effect is physical for every element");
}
VS_CASE(case_density_beyond) {
    double b = vs_double("beta", 0.01, 0.99999, 0.9);
    int z = vs_choice("z", 98, 130);
    vs_ident(bethek_density_effect(b, z), bethek_density_effect(b, 97), "density effect beyond the table is that of its last element");
}
VS_CASE(case_srim_target) {
    static const double es[] = {1e-4, 0.3, 9};
    int t = vs_choice("t", 1, 130);
    double s = srim_dedx_e(vs_choice("p", 0, 1) ? 18 : 1, t, es[vs_choice("energy", 0, 2)] * (1 + vs_double("u", 0, 0.01, 0.001)), true);
    vs_check(s > 0, "low energy stopping is positive for every target");
}
VS_CASE(case_srim_beyond) {
    double e = vs_double("e", 1e-5, 30, 0.3);
    int z = vs_choice("z", 93, 130);
    bool s = vs_choice("set", 0, 1);
    vs_ident(srim_dedx_e(1, z, e, s), srim_dedx_e(1, 92, e, s), "proton stopping beyond the table is that of its last element");
}
VS_CASE(case_srim_projectile) {
    static const int ts[] = {1, 92, 130};
    static const double es[] = {1e-4, 0.3, 9};
    int p = vs_choice("p", 1, 130);
    double s = srim_dedx_e(p, ts[vs_choice("t", 0, 2)], es[vs_choice("energy", 0, 2)] * (1 + vs_double("u", 0, 0.01, 0.001)), true);
    vs_check(s > 0, "low energy stopping is positive for every projectile");
}
VS_CASE(case_lindhard) {
    static const double es[] = {1e-3, 10, 100, 12345, 3e5};
    int z = vs_int("z", 1, 130);
    Projectile p(200, z);
    p.T = es[vs_choice("e", 0, 4)];
    double l = precalculated_lindhard(p), x = precalculated_lindhard_X(p);
    vs_check(l > -50 && l < 50 && x > -50 && x < 50, "Lindhard tables exist for every projectile");
}
// the Lindhard tables end at proton number 108
VS_CASE(case_lindhard_beyond) {
    static const double es[] = {1e-3, 10, 100, 12345};
    double e = es[vs_choice("e", 0, 3)], a = vs_double("A", 200, 350, 300);
    int z = vs_choice("z", 109, 130);
    Projectile p(a, z), q(a, 108);
    p.T = q.T = e;
    vs_ident(precalculated_lindhard(p), precalculated_lindhard(q), "Lindhard correction beyond the table is that of its last element");
    vs_ident(precalculated_lindhard_X(p), precalculated_lindhard_X(q), "Lindhard straggling beyond the table is that of its last element");
}
VS_CASE(case_barkas) {
    double b = bethek_barkas(vs_double("z", 0, 130, 50), vs_double("eta", 1e-6, 1000, 0.1), vs_choice("zt", 0, 4) * 29 + 1);
    vs_check(b >= 1, "Barkas factor is never below one");
}
static const int zs[] = {1, 2, 92, 93, 97, 98, 99, 109, 110, 111, 119, 120};
static void stopping(int a, int b) {
    static const double es[] = {1e-3, 15, 2000};
    int t = zs[vs_choice("t", a, b)], p = zs[vs_choice("p", 0, 11)];
    Projectile q(2.5 * p * (1 + vs_double("u", 0, 0.1, 0.01)), p);
    q.T = es[vs_choice("e", 0, 2)];
    Material m;
    m.add_element(2.6 * t, t, 1);
    double s = dedx(q, m), v = domega2dx(q, m);
    vs_check(s > 0 && s < 1e12, "stopping power is physical for every element");
    vs_check(v > 0 && v < 1e12, "energy-loss variance is physical for every element");
}
VS_CASE(case_stopping1) { stopping(0, 3); vs_check(true, "all elements"); }
VS_CASE(case_stopping2) { stopping(4, 7); vs_check(true, "all elements"); }
VS_CASE(case_stopping3) { stopping(8, 11); vs_check(true, "all elements"); }
VS_CASE(case_reactions) {
    static const double es[] = {30, 200, 1000};
    int p = vs_choice("p", 0, 11), t = vs_choice("t", 0, 11);
    double s = SigmaR_Kox(int(2.5 * zs[p]), zs[p], es[vs_choice("e", 0, 2)] * (1 + vs_double("u", 0, 1e-3, 1e-4)), int(2.5 * zs[t]), zs[t]);
    vs_check(s > -1e5 && s < 1e5, "cross section is finite for every element");
}
