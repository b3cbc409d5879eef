// Cache of precalculated tables.  The table calculation is replaced by one that writes the key into the tables.
#include "vs.h"
#include "catima/catima.h"
#include "catima/storage.h"
#include <vector>
using namespace catima;
static_assert(max_datapoints == 3, "");
static int ncalc;
namespace catima {
DataPoint calculate_DataPoint(Projectile p, const Material& m, const Config& c) {
    ncalc++;
    DataPoint d(p, m, c);
    Target t = m.get_element(0);
    d.range = {p.A, p.Z, p.Q};
    d.range_straggling = {t.A, double(t.Z), t.stn};
    d.angular_variance = {m.I(), m.M(), 1000.0 * c.z_effective + c.corrections + c.scattering_factor};
    return d;
}
}
struct Key {
    Projectile p;
    Material m;
    Config c;
};
static bool has(const DataPoint& d, const Key& k) {
    Target t = k.m.get_element(0);
    return d.range.size() == 3 && d.range_straggling.size() == 3 && d.angular_variance.size() == 3 && d.range[0] == k.p.A && d.range[1] == k.p.Z && d.range[2] == k.p.Q &&
           d.range_straggling[0] == t.A && d.range_straggling[1] == t.Z && d.range_straggling[2] == t.stn && d.angular_variance[0] == k.m.I() &&
           d.angular_variance[1] == k.m.M() && d.angular_variance[2] == 1000.0 * k.c.z_effective + k.c.corrections + k.c.scattering_factor;
}
static bool splines(const DataPoint& d, const Key& k) {
    Target t = k.m.get_element(0);
    double r[3] = {k.p.A, k.p.Z, k.p.Q}, s[3] = {t.A, double(t.Z), t.stn}, a[3] = {k.m.I(), k.m.M(), 1000.0 * k.c.z_effective + k.c.corrections + k.c.scattering_factor};
    bool ok = true;
    for (int i = 0; i < 2; i++) {   // value at the start of an interval is the tabulated one without rounding
        double e = energy_table(i);
        spline_type rs = get_range_spline(d), ss = get_range_straggling_spline(d), as = get_angular_variance_spline(d);
        ok = ok && rs(e) == r[i] && ss(e) == s[i] && as(e) == a[i];
    }
    return ok;
}
static const char *nA[] = {"A0", "A1", "A2", "A3"}, *nZ[] = {"Z0", "Z1", "Z2", "Z3"}, *nQ[] = {"Q0", "Q1", "Q2", "Q3"}, *nT[] = {"T0", "T1", "T2", "T3"}, *ta[] = {"tA0", "tA1", "tA2", "tA3"},
                  *tz[] = {"tZ0", "tZ1", "tZ2", "tZ3"}, *ts[] = {"tS0", "tS1", "tS2", "tS3"}, *tI[] = {"tI0", "tI1", "tI2", "tI3"}, *tM[] = {"tM0", "tM1", "tM2", "tM3"}, *tr[] = {"rho0", "rho1", "rho2", "rho3"},
                  *th[] = {"th0", "th1", "th2", "th3"}, *cz[] = {"cz0", "cz1", "cz2", "cz3"}, *cc[] = {"cc0", "cc1", "cc2", "cc3"}, *cf[] = {"cf0", "cf1", "cf2", "cf3"};
static Key key(int i) {
    Key k;
    k.p = Projectile(vs_double(nA[i], 1, 300, 12), vs_double(nZ[i], 1, 120, 6), vs_double(nQ[i], 1, 120, 6), vs_double(nT[i], 0, 1e5, 100));
    k.m.add_element(vs_double(ta[i], 1, 300, 12), vs_int(tz[i], 1, 120), vs_double(ts[i], 0.001, 100, 1));
    k.m.density(vs_double(tr[i], 0, 30, 1)).I(vs_double(tI[i], 0, 1000, 0));
    k.m.M(vs_double(tM[i], 1, 300, 12));
    k.m.thickness(vs_double(th[i], 0, 100, 1));
    k.c.z_effective = vs_int(cz[i], 0, 7);
    k.c.corrections = vs_int(cc[i], 0, 15);
    k.c.scattering_factor = vs_double(cf[i], 0, 0.9, 0.5);
    return k;
}
// whatever the keys are (equal, different in one field, different altogether), a lookup delivers tables of its own key
#ifndef NLOOK
#define NLOOK 3
#endif
VS_CASE(case_lookup) {
    Data d;
    for (int i = 0; i < NLOOK; i++) {
        Key k = key(i);
        const DataPoint& r = d.Get(k.p, k.m, k.c);
        vs_check(has(r, k), "tables belong to the requested combination");
        vs_check(splines(r, k), "curves belong to the requested combination");
        vs_check(r.p == k.p && r.m == k.m && r.config == k.c, "entry is labelled with the requested combination");
    }
    Key k = key(0);
    vs_check(has(d.Get(k.p, k.m, k.c), k), "tables of the first request are found again");
}
// the public quantities use the tables of their own arguments
VS_CASE(case_global) {
    Key a = key(0), b = key(1);
    get_data(a.p, a.m, a.c);
    const DataPoint& r = get_data(b.p, b.m, b.c);
    vs_check(has(r, b), "tables in the global cache belong to the requested combination");
    double e = energy_table(1);
    vs_check(range(b.p(e), b.m, b.c) == b.p.Z, "range is taken from the tables of its arguments");
    vs_check(range(a.p(e), a.m, a.c) == a.p.Z, "range of the earlier combination is unchanged");
    vs_check(range_variance(a.p, e, a.m, a.c) == a.m.get_element(0).Z, "range variance is taken from the tables of its arguments");
}
// all histories over a pool of distinct keys, against a first-in first-out cache
#ifndef NOPS
#define NOPS 4
#endif
static const char* opn[] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* kyn[] = {"ky0", "ky1", "ky2", "ky3", "ky4", "ky5", "ky6", "ky7"};
VS_CASE(case_history) {
    const int cap = max_storage_data;
    Key ks[4];
    int field = vs_choice("differs in", 0, NOPS > 4 ? 0 : 2);
    for (int i = 0; i < 4; i++) {
        ks[i].p = Projectile(field == 0 ? 12.0 + i : 12.0, 6, 6);
        ks[i].m = Material(12.0, 6, field == 1 ? 1.0 + i : 1.0);
        if (field == 2) ks[i].c.scattering_factor = 0.5 + 0.1 * i;
    }
    Data d;
    int fifo[16], n = 0, used = 0, first = 0;       // keys stored, oldest first
    vs_check(d.GetN() == cap, "cache has its capacity");
    for (int o = 0; o < NOPS; o++) {
        int op = vs_choice(opn[o], 0, o ? 2 : 0);
        if (op == 2) {
            d.Reset();
            n = first = 0;
            vs_check(d.GetN() == cap && d.get_index() == 0, "reset empties the cache");
            continue;
        }
        int k = vs_choice(kyn[o], 0, used < 3 ? used : 3);
        if (k == used) used++;
        bool hit = false;
        for (int i = first; i < n; i++) hit = hit || fifo[i] == k;
        if (!hit) {
            fifo[n++] = k;
            if (n - first > cap) first++;
        }
        int before = ncalc, pos = d.get_index();
        if (op == 0) {
            DataPoint& r = d.Get(ks[k].p, ks[k].m, ks[k].c);
            vs_check(has(r, ks[k]), "history: tables belong to the requested combination");
            vs_check(splines(r, ks[k]), "history: curves belong to the requested combination");
        } else
            d.Add(ks[k].p, ks[k].m, ks[k].c);
        vs_check(ncalc - before == (hit ? 0 : 1), "a combination is calculated exactly when it is not among those stored last");
        vs_check(!hit || d.get_index() == pos, "a combination still cached is not stored twice");
        int c2 = 0;
        for (unsigned i = 0; i < unsigned(cap); i++) c2 += d.Get(i).p == ks[k].p && d.Get(i).m == ks[k].m && d.Get(i).config == ks[k].c;
        vs_check(c2 == 1, "a combination is stored once");
    }
    // everything the reference cache holds is still there
    for (int i = first; i < n; i++) {
        int before = ncalc;
        vs_check(has(d.Get(ks[fifo[i]].p, ks[fifo[i]].m, ks[fifo[i]].c), ks[fifo[i]]), "entries stored last are intact");
        vs_check(ncalc == before, "entries stored last are reused");
    }
}
