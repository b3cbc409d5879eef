// Isotope table lookups.
#include "vs.h"
#include "catima/abundance_database.h"
using namespace abundance;

// every (z,i): in range -> a physical isotope, outside -> zero
VS_CASE(case_lookup) {
    int z = vs_int("z", -2147483647 - 1, 2147483647);
    int i = vs_int("i", -2147483647 - 1, 2147483647);
    int n = get_isotopes_num(z);
    vs_check(n >= 0, "isotope count is not negative");
    if (z < 1) vs_check(n == 0, "no isotopes below hydrogen");
    int a = get_isotope_a(z, i);
    float w = get_abundance(z, i);
    auto p = get_isotope(z, i);
    if (i < 0 || i >= n) {
        vs_check(a == 0 && w == 0.0f && p.first == 0 && p.second == 0.0f, "out of range index yields zero");
    } else {
        vs_check(a >= z && a <= 4 * z, "mass number of an isotope is physical");
        vs_check(w >= 0.0f && w <= 1.0f, "abundance is a fraction");
        vs_check(p.first == a && p.second == w, "combined lookup agrees with single lookups");
    }
}

// neighbouring entries of one element: most abundant first, masses distinct
VS_CASE(case_order) {
    int z = vs_int("z", 1, 120);
    int i = vs_int("i", 0, 12);
    int j = vs_int("j", 0, 12);
    int n = get_isotopes_num(z);
    vs_assume(i < j && j < n);
    vs_check(get_abundance(z, i) >= get_abundance(z, j), "isotopes are ordered by abundance");
    vs_check(get_isotope_a(z, i) != get_isotope_a(z, j), "isotopes of an element are distinct");
}

// the abundances of an element sum to one, or are all zero for an unstable element
VS_CASE(case_sum) {
    int z = vs_choice("z", 1, 109);
    int n = get_isotopes_num(z);
    double s = 0;
    for (int i = 0; i < n; i++) s += get_abundance(z, i);
    vs_check(n >= 1, "element has at least one listed isotope");
    vs_check((s > 0.997 && s < 1.003) || s == 0.0, "abundances of an element sum to one");
}
