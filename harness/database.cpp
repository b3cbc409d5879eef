// Element and compound database, catalogue number lookup.
#include "vs.h"
#include "catima/catima.h"
#include "catima/material_database.h"
#include "catima/nucdata.h"
#include "catima/abundance_database.h"
#include "catima/convert.h"
using namespace catima;
// standard atomic weights and densities (g/cm3)
static const double weights[110] = {
    0, 1.00794, 4.0026, 6.941, 9.01218, 10.811, 12.0107, 14.0067, 15.9994, 18.9984, 20.1797, 22.9898, 24.305, 26.9815,
    28.0855, 30.9738, 32.065, 35.453, 39.948, 39.0983, 40.078, 44.9559, 47.867, 50.9415, 51.9961, 54.938, 55.845,
    58.9332, 58.6934, 63.546, 65.409, 69.723, 72.64, 74.9216, 78.96, 79.904, 83.798, 85.4678, 87.62, 88.9059, 91.224,
    92.9064, 95.94, 97.9072, 101.07, 102.906, 106.42, 107.868, 112.411, 114.818, 118.71, 121.76, 127.6, 126.904,
    131.293, 132.905, 137.327, 138.905, 140.116, 140.908, 144.24, 144.913, 150.36, 151.964, 157.25, 158.925, 162.5,
    164.93, 167.259, 168.934, 173.04, 174.967, 178.49, 180.948, 183.84, 186.207, 190.23, 192.217, 195.078, 196.967,
    200.59, 204.383, 207.2, 208.98, 208.982, 209.987, 222.018, 223.02, 226.025, 227.028, 232.038, 231.036, 238.029,
    237.048, 244.064, 243.061, 247.07, 247.07, 251.08, 252.083, 257.095, 258.098, 259.101, 262.11, 261.109, 262.114,
    266.122, 264.125, 269.134, 268.139,
};
static const double densities[99] = {
    0, 8.3748e-05, 0.000166322, 0.534, 1.848, 2.37, 2, 0.0011652, 0.00133151, 0.00158029, 0.000838505, 0.971, 1.74,
    2.699, 2.33, 2.2, 2, 0.00299473, 0.00166201, 0.862, 1.55, 2.989, 4.54, 6.11, 7.18, 7.44, 7.874, 8.9, 8.902, 8.96,
    7.133, 5.904, 5.323, 5.73, 4.5, 3.1028, 0.00347832, 1.532, 2.54, 4.469, 6.506, 8.57, 10.22, 11.5, 12.41, 12.41,
    12.02, 10.5, 8.65, 7.31, 7.31, 6.691, 6.24, 4.93, 0.00548536, 1.873, 3.5, 6.154, 6.657, 6.71, 6.9, 7.22, 7.46,
    5.243, 7.9004, 8.229, 8.55, 8.795, 9.066, 9.321, 6.73, 9.84, 13.31, 16.654, 19.3, 21.02, 22.57, 22.42, 21.45,
    19.32, 13.546, 11.72, 11.35, 9.747, 9.32, 9.32, 0.00900662, 1, 5, 10.07, 11.72, 15.37, 18.95, 20.25, 19.84, 13.67,
    13.51, 14, 10,
};
// chemical formulas of the compounds that have one: catalogue number, {proton number, atoms}...
struct Part { int z; double n; };
struct Formula { int id; Part p[5]; };
static const Formula formulas[] = {
    {201, {{6, 9}, {1, 10}}},  // Plastics C9H10
    {203, {{6, 1}, {1, 2}}},  // CH2 CH2
    {204, {{1, 1}}},  // lH2 H
    {206, {{1, 2}, {8, 1}}},  // Water H2O
    {207, {{6, 1}}},  // Diamond C
    {211, {{6, 1}, {9, 4}}},  // CF4 CF4
    {212, {{6, 4}, {1, 10}}},  // Isobutane C4H10
    {214, {{6, 10}, {1, 8}, {8, 4}}},  // Mylar C10H8O4
    {215, {{11, 1}, {9, 1}}},  // NaF NaF
    {217, {{6, 1}, {1, 2}}},  // Polyolefin CH2
    {218, {{96, 1}, {8, 2}}},  // CmO2 CmO2
    {222, {{6, 1}, {8, 2}}},  // CO2 CO2
    {223, {{6, 1}, {1, 4}}},  // Methane CH4
    {224, {{6, 1}, {1, 4}, {8, 1}}},  // Methanol CH4O
    {225, {{6, 3}, {1, 6}, {8, 1}}},  // Acetone C3H6O
    {226, {{6, 2}, {1, 2}}},  // Acetylene C2H2
    {227, {{6, 5}, {1, 5}, {7, 5}}},  // Adenine C5H5N5
    {229, {{6, 3}, {1, 7}, {7, 1}, {8, 2}}},  // Alanine C3H7NO2
    {231, {{47, 1}, {35, 1}}},  // AgBr AgBr
    {232, {{47, 1}, {17, 1}}},  // AgCl AgCl
    {233, {{47, 1}, {53, 1}}},  // AgI AgI
    {234, {{13, 2}, {8, 3}}},  // Al2O3 Al2O3
    {236, {{7, 1}, {1, 3}}},  // Ammonia NH3
    {237, {{6, 6}, {1, 7}, {7, 1}}},  // Aniline C6H7N
    {238, {{6, 14}, {1, 10}}},  // Anthracene C14H10
    {241, {{56, 1}, {9, 2}}},  // BaF2 BaF2
    {242, {{56, 1}, {16, 1}, {8, 4}}},  // BaSO4 BaSO4
    {243, {{6, 6}, {1, 6}}},  // Benzene C6H6
    {244, {{4, 1}, {8, 1}}},  // BeO BeO
    {245, {{83, 4}, {32, 3}, {8, 12}}},  // BGO Bi4Ge3O12
    {250, {{5, 4}, {6, 1}}},  // B4C B4C
    {251, {{6, 9}, {1, 10}}},  // BC_400 C9H10
    {252, {{6, 4}, {1, 10}, {8, 1}}},  // nButanol C4H10O
    {254, {{48, 1}, {52, 1}}},  // CdTe CdTe
    {255, {{48, 1}, {74, 1}, {8, 4}}},  // CdWO4 CdWO4
    {256, {{20, 1}, {6, 1}, {8, 3}}},  // CaCO3 CaCO3
    {257, {{20, 1}, {9, 2}}},  // CaF2 CaF2
    {258, {{20, 1}, {8, 1}}},  // CaO CaO
    {259, {{20, 1}, {74, 1}, {8, 4}}},  // CaWO4 CaWO4
    {260, {{55, 1}, {9, 1}}},  // CsF CsF
    {261, {{55, 1}, {53, 1}}},  // CsI CsI
    {262, {{6, 1}, {17, 4}}},  // CCl4 CCl4
    {263, {{6, 2}, {17, 4}}},  // Tetrachloroethylene C2Cl4
    {265, {{6, 6}, {1, 5}, {17, 1}}},  // Chlorobenzene C6H5Cl
    {266, {{6, 1}, {1, 1}, {17, 3}}},  // Chloroform CHCl3
    {267, {{6, 6}, {1, 12}}},  // Cyclohexane C6H12
    {269, {{6, 4}, {1, 10}, {8, 1}}},  // Diethyl_Ether C4H10O
    {270, {{6, 2}, {1, 6}}},  // Ethane C2H6
    {271, {{6, 2}, {1, 6}, {8, 1}}},  // Ethanol C2H6O
    {272, {{6, 2}, {1, 4}}},  // Ethylene C2H4
    {274, {{26, 2}, {8, 3}}},  // Fe2O3 Fe2O3
    {275, {{26, 1}, {8, 1}}},  // FeO FeO
    {276, {{6, 1}, {9, 2}, {17, 2}}},  // Freon_12 CF2Cl2
    {277, {{6, 1}, {9, 2}, {35, 2}}},  // Freon_12B2 CF2Br2
    {278, {{6, 1}, {9, 3}, {17, 1}}},  // Freon_13 CF3Cl
    {279, {{6, 1}, {9, 3}, {35, 1}}},  // Freon_13B1 CF3Br
    {280, {{6, 1}, {9, 3}, {53, 1}}},  // Freon_13I1 CF3I
    {281, {{64, 2}, {8, 2}, {16, 1}}},  // Gd2O2S Gd2O2S
    {282, {{31, 1}, {33, 1}}},  // GaAs GaAs
    {286, {{6, 6}, {1, 12}, {8, 6}}},  // Glucose C6H12O6
    {287, {{6, 5}, {1, 10}, {7, 2}, {8, 3}}},  // Glutamine C5H10N2O3
    {288, {{6, 3}, {1, 8}, {8, 3}}},  // Glycerol C3H8O3
    {289, {{6, 5}, {1, 5}, {7, 5}, {8, 1}}},  // Guanine C5H5N5O
    {290, {{20, 1}, {16, 1}, {8, 6}, {1, 4}}},  // Gypsum CaSO6H4
    {291, {{6, 7}, {1, 16}}},  // nHeptane C7H16
    {292, {{6, 6}, {1, 14}}},  // nHexane C6H14
    {293, {{19, 1}, {53, 1}}},  // KI KI
    {294, {{19, 2}, {8, 1}}},  // K2O K2O
    {295, {{57, 1}, {35, 3}}},  // LaBr3 LaBr3
    {296, {{57, 1}, {8, 1}, {35, 1}}},  // LaOBr LaOBr
    {297, {{57, 2}, {8, 2}, {16, 1}}},  // La2O2S La2O2S
    {299, {{12, 1}, {6, 1}, {8, 3}}},  // MgCO3 MgCO3
    {300, {{12, 1}, {9, 2}}},  // MgF2 MgF2
    {301, {{12, 1}, {8, 1}}},  // MgO MgO
    {307, {{11, 2}, {6, 1}, {8, 3}}},  // Na2CO3 Na2CO3
    {308, {{11, 1}, {53, 1}}},  // NaI NaI
    {309, {{11, 1}, {17, 1}}},  // NaCl NaCl
    {310, {{11, 2}, {8, 1}}},  // Na2O Na2O
    {311, {{11, 1}, {7, 1}, {8, 3}}},  // NaNO3 NaNO3
    {312, {{6, 10}, {1, 8}}},  // Naphthalene C10H8
    {313, {{6, 6}, {1, 5}, {7, 1}, {8, 2}}},  // Nitrobenzene C6H5NO2
    {314, {{7, 2}, {8, 1}}},  // N2O N2O
    {315, {{6, 8}, {1, 18}}},  // Octane C8H18
    {317, {{6, 5}, {1, 12}}},  // nPentane C5H12
    {319, {{94, 1}, {8, 2}}},  // PuO2 PuO2
    {320, {{6, 3}, {1, 3}, {7, 1}}},  // Polyacrylonitrile C3H3N
    {321, {{6, 16}, {1, 14}, {8, 3}}},  // Polycarbonate C16H14O3
    {322, {{6, 5}, {1, 8}, {8, 2}}},  // PMMA C5H8O2
    {323, {{6, 1}, {1, 2}, {8, 1}}},  // POM CH2O
    {324, {{6, 3}, {1, 6}}},  // Polypropylene C3H6
    {325, {{6, 1}, {1, 1}}},  // Polystyrene CH
    {326, {{6, 3}, {1, 8}}},  // Propane C3H8
    {327, {{6, 3}, {1, 8}, {8, 1}}},  // nPropanol C3H8O
    {328, {{6, 2}, {1, 3}, {17, 1}}},  // PVC C2H3Cl
    {329, {{6, 5}, {1, 5}, {7, 1}}},  // Pyridine C5H5N
    {330, {{14, 1}, {8, 2}}},  // SiO2 SiO2
    {332, {{6, 12}, {1, 22}, {8, 11}}},  // Sucrose C12H22O11
    {333, {{6, 1}, {9, 2}}},  // Teflon CF2
    {334, {{81, 1}, {17, 1}}},  // TlCl TlCl
    {335, {{6, 7}, {1, 8}}},  // Toluene C7H8
    {336, {{6, 2}, {1, 1}, {17, 3}}},  // Trichloroethylene C2HCl3
    {337, {{74, 1}, {9, 6}}},  // WF6 WF6
    {338, {{92, 1}, {6, 2}}},  // UC2 UC2
    {339, {{92, 1}, {6, 1}}},  // UC UC
    {340, {{92, 1}, {8, 2}}},  // UO2 UO2
    {341, {{6, 1}, {1, 4}, {7, 2}, {8, 1}}},  // Urea CH4N2O
    {342, {{6, 5}, {1, 11}, {7, 1}, {8, 2}}},  // Valine C5H11NO2
    {343, {{6, 10}, {1, 7}, {53, 1}}},  // Iodonaphthalene C10H7I
    {344, {{6, 21}, {1, 24}, {8, 4}}},  // C21H24O4 C21H24O4
    {213, {{6, 22}, {1, 10}, {7, 2}, {8, 5}}},  // Kapton C22H10N2O5
    {346, {{3, 7}, {57, 3}, {40, 2}, {8, 12}}},  // LLZO_electrolyte Li7La3Zr2O12
    {347, {{6, 6}, {1, 11}, {7, 1}, {8, 1}}},  // Nylon C6H11NO
};
static double absv(double x) { return x < 0 ? -x : x; }
static void consistent(const Material& m) {
    double s = 0, mass = 0, inverse = 0;
    bool fractions = true;
    for (int i = 0; i < m.ncomponents(); i++) {
        Target t = m.get_element(i);
        vs_check(t.Z >= 1 && t.Z <= 109, "components are elements");
        vs_check(t.stn > 0, "amounts are positive");
        bool heavy = t.Z == 1 && t.A > 2 && t.A < 2.02;      // deuterium
        vs_check(heavy || absv(t.A - weights[t.Z]) <= 1e-3 * weights[t.Z], "components have the atomic weight of their element");
        for (int k = 0; k < i; k++) vs_check(m.get_element(k).Z != t.Z, "components are distinct");
        s += m.weight_fraction(i);
        mass += t.stn * t.A;
        inverse += t.stn / t.A;
        if (t.stn >= 1) fractions = false;
    }
    vs_check(absv(s - 1) <= 2e-5, "weight fractions sum to one");
    vs_close(m.M(), fractions ? 1 / inverse : mass, 1e-9, 0, "molar mass follows from the composition");
    vs_check(m.density() > 5e-5 && m.density() < 25, "density is physical");
    vs_check(m.thickness() == 0, "no thickness");
    vs_check(m.I() == 0, "elemental ionisation potentials are used");
}
VS_CASE(case_any_number) {
    int id = vs_int("id", -2147483647 - 1, 2147483647);
    Material m = get_material(id);
    if (id >= 1 && id <= 98) {
        vs_check(m.ncomponents() == 1, "an element has one component");
        Target t = m.get_element(0);
        vs_check(t.Z == id, "number of an element is its proton number");
        vs_check(t.stn == 1, "amount of an element is one");
        vs_close(t.A, weights[id], 1e-3, 0, "element has its atomic weight");
        vs_close(m.M(), weights[id], 1e-3, 0, "element has the molar mass of its atom");
        vs_close(m.density(), densities[id], 1e-3, 0, "element has its density");
        vs_check(m.thickness() == 0, "no thickness of elements");
    } else if (id >= 201 && id <= 349) {
        vs_check(m.ncomponents() > 0, "every catalogue number is a compound");
    } else {
        vs_check(m.ncomponents() == 0, "unknown numbers yield an empty material");
    }
}
static void compounds(int a, int b) {
    int id = vs_choice("id", a, b);
    Material m = get_material(id), n = get_material(material(id)), k = get_compound(material(id));
    consistent(m);
    vs_check(m == n && m == k, "all lookups yield the same compound");
}
VS_CASE(case_compounds1) { compounds(201, 238); vs_check(true, "every compound"); }
VS_CASE(case_compounds2) { compounds(239, 275); vs_check(true, "every compound"); }
VS_CASE(case_compounds3) { compounds(276, 312); vs_check(true, "every compound"); }
VS_CASE(case_compounds4) { compounds(313, 349); vs_check(true, "every compound"); }
VS_CASE(case_formulas) {
    int k = vs_choice("k", 0, sizeof(formulas) / sizeof(formulas[0]) - 1);
    const Formula& f = formulas[k];
    Material m = get_material(f.id);
    double atoms = 0, given = 0;
    for (int i = 0; i < m.ncomponents(); i++) given += m.molar_fraction(i);
    int parts = 0;
    while (parts < 5 && f.p[parts].z) atoms += f.p[parts++].n;
    vs_check(m.ncomponents() == parts, "compound has the elements of its formula");
    for (int i = 0; i < m.ncomponents(); i++) {
        double x = 0;
        for (int j = 0; j < parts; j++)
            if (f.p[j].z == m.get_element(i).Z) x = f.p[j].n / atoms;
        vs_check(absv(m.molar_fraction(i) / given - x) <= 2e-4, "amounts follow the formula");
    }
}
VS_CASE(case_weights) {
    int z = vs_int("z", -2147483647 - 1, 2147483647);
    double a = element_atomic_weight(z), d = element_density(z);
    vs_close(a, z >= 1 && z <= 109 ? weights[z] : 0, 1e-3, 0, "atomic weight of every element, zero otherwise");
    vs_close(d, z >= 1 && z <= 98 ? densities[z] : 0, 1e-3, 0, "density of every element, zero otherwise");
}
// the atomic weight of elements with stable isotopes is the mean mass number
VS_CASE(case_isotopes) {
    int z = vs_choice("z", 1, 92);
    double s = 0, a = 0;
    for (int i = 0; i < abundance::get_isotopes_num(z); i++) {
        s += abundance::get_abundance(z, i);
        a += abundance::get_abundance(z, i) * double(abundance::get_isotope_a(z, i));
    }
    if (s < 0.9) return;
    vs_check(absv(a - element_atomic_weight(z)) < 0.3, "atomic weight is the mean over the isotopes");
}
// ---------------------------------------------------------------- catalogue number of a material
static bool same(const Material& a, const Material& b) {
    if (a.density() != b.density() || a.ncomponents() != b.ncomponents() || a.M() != b.M()) return false;
    for (int i = 0; i < a.ncomponents(); i++) {
        Target s = a.get_element(i), t = b.get_element(i);
        if (s.Z != t.Z || s.A != t.A || s.stn != t.stn) return false;
    }
    return true;
}
static void numbers(int a, int b) {
    int id = vs_choice("id", a, b);
    Material m = get_material(id);
    m.thickness(vs_double("th", 0, 1000, 1));
    int k = materialdb_id(m);
    vs_check(k == id || k > 200 && k < id && same(get_material(k), get_material(id)), "compound is identified with its number");
}
VS_CASE(case_numbers0) { numbers(201, 219); vs_check(true, "every number"); }
VS_CASE(case_numbers1) { numbers(220, 238); vs_check(true, "every number"); }
VS_CASE(case_numbers2) { numbers(239, 257); vs_check(true, "every number"); }
VS_CASE(case_numbers3) { numbers(258, 276); vs_check(true, "every number"); }
VS_CASE(case_numbers4) { numbers(277, 295); vs_check(true, "every number"); }
VS_CASE(case_numbers5) { numbers(296, 314); vs_check(true, "every number"); }
VS_CASE(case_numbers6) { numbers(315, 333); vs_check(true, "every number"); }
VS_CASE(case_numbers7) { numbers(334, 349); vs_check(true, "every number"); }
// a material differing from the catalogue in one field
VS_CASE(case_changed) {
    static int ids[] = {206, 349};
    int id = ids[vs_choice("id", 0, 1)], what = vs_choice("what", 0, 6);
    Material c = get_material(id), m;
    int n = c.ncomponents(), at = what > 1 && what < 5 ? vs_choice("component", 0, 1) * (n - 1) : 0;
    double a[5], w[5];
    int z[5];
    for (int i = 0; i < n; i++) {
        a[i] = c.get_element(i).A;
        w[i] = c.get_element(i).stn;
        z[i] = c.get_element(i).Z;
    }
    double rho = c.density(), M = c.M();
    if (what == 0) rho += vs_double("rho", -0.01, 0.01, 0.001);
    if (what == 1) M = vs_double("M", 1, 1000, 30);
    if (what == 2) a[at] = vs_double("a", 1, 300, 30);
    if (what == 3) w[at] = vs_double("w", 0.01, 100, 30);
    if (what == 4) z[at] = vs_int("z", 1, 120);
    if (what == 5) n--;
    for (int i = 0; i < n; i++) m.add_element(a[i], z[i], w[i]);
    if (what == 6) m.add_element(12, 6, 1);
    m.density(rho).M(M);
    int k = materialdb_id(m);
    if (k) {
        Material d = get_material(k);
        vs_check(k > 200 && k < 350, "only numbers of the catalogue are found");
        d.density(m.density());
        vs_check(absv(get_material(k).density() - rho) < 1e-5 && same(d, m), "only a compound with the same density, molar mass and components is found");
    } else {
        bool changed = what > 4 || what == 0 && absv(rho - c.density()) > 1e-5 || what == 1 && M != c.M() || what == 2 && a[at] != c.get_element(at).A ||
                       what == 3 && w[at] != c.get_element(at).stn || what == 4 && z[at] != c.get_element(at).Z;
        vs_check(changed || what == 0, "unchanged compound is found");
    }
}
VS_CASE(case_elements) {
    static int zs[] = {1, 6, 26, 98};
    Material m = get_material(zs[vs_choice("element", 0, 3)]);
    m.thickness(1);
    vs_check(materialdb_id(m) == 0, "elements have no catalogue number");
}
