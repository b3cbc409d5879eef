REAL = 'floating point values of the executed code are mathematical reals (literals as written); counterexamples are confirmed by the compiled code, tolerances cover rounding'
SEARCH = ('THIN_TARGET_APPROXIMATION', 'STORE_SPLINES', 'REACTIONS')     # index by binary search instead of calculated index
NOSTORE = ('THIN_TARGET_APPROXIMATION', 'REACTIONS', 'ET_CALCULATED_INDEX')     # splines built for every evaluation


def GRID(a, b, n):
    import math
    s = (b - a) / (n - 1.0)
    v = [math.exp(2.30258509299404568401799145468 * (a + i * s)) for i in range(n)]
    return tuple(x / v[0] for x in v)


def SMALL(n, m):
    return ('CATIMA_VERIFICATION', 'CATIMA_MAX_DATAPOINTS=%d' % n, 'CATIMA_MAX_STORAGE_DATA=%d' % m)


PROPS = {
 'P24': {'harness': 'isotopes.cpp', 'cases': [
    {'case': 'case_lookup', 'validate': 6},
    {'case': 'case_order'},
    {'case': 'case_sum'},
 ], 'bounds': 'every pair of 32-bit integers for the lookups; elements 1..120 and index pairs 0..12 for the order; elements 1..109 for the sums'},
 'P02': {'harness': 'structures.cpp', 'cases': [
    {'case': 'case_projectile_eq'}, {'case': 'case_config_eq'}, {'case': 'case_material_eq', 'weight': 5},
 ], 'bounds': 'all values of every field (doubles as reals in physical ranges, options 0..255), 0..3 components on each side'},
 'P03': {'harness': 'structures.cpp', 'cases': [
    {'case': 'case_layers', 'thorough_defines': ('NOPS=4',), 'weight': 5},
 ], 'bounds': 'two stacks of 0..2 and 0..1 layers followed by every sequence of 3 (thorough 4) of 7 operations, all thicknesses and densities'},
 'P04': {'harness': 'structures.cpp', 'cases': [
    {'case': 'case_formula'}, {'case': 'case_weights'}, {'case': 'case_user_mass'}, {'case': 'case_thickness'}, {'case': 'case_missing_component'},
 ], 'bounds': '1..3 components, masses 0.5..300, 1..100 atoms or weight fractions 0..0.999, any density, thickness, molar mass; component index any 32-bit integer'},
 'P05': {'harness': 'grid.cpp', 'cases': [
    {'case': 'case_energy_table', 'weight': 9, 'opts': {'log_pivots': GRID(-3, 7, 600)}, 'thorough_only': True},
    {'case': 'case_energy_table_med', 'weight': 9, 'opts': {'log_pivots': GRID(-3, 7, 40)}},
    {'case': 'case_energy_table', 'weight': 8, 'config': SEARCH},
    {'case': 'case_energy_table_small', 'opts': {'log_pivots': GRID(-3, 2, 6)}},
    {'case': 'case_log_small', 'opts': {'log_pivots': GRID(-3, 2, 6)}},
    {'case': 'case_log', 'thorough_only': True, 'opts': {'log_pivots': GRID(-3, 7, 40)}},
    {'case': 'case_linear'}, {'case': 'case_linear_values'}, {'case': 'case_energy_values'},
 ], 'bounds': 'every real value; the grid of the library (600 points; quick: with binary search, thorough: also with calculated index), logarithmic grids of 6 and 40 points, linear grids of 7 points with arbitrary limits'},
 'P06': {'harness': 'spline.cpp', 'cases': [
    {'case': 'case_linear_natural', 'config': SEARCH}, {'case': 'case_linear_clamped', 'config': SEARCH}, {'case': 'case_log_natural', 'config': SEARCH},
    {'case': 'case_log_clamped', 'config': SEARCH}, {'case': 'case_log3', 'config': SEARCH}, {'case': 'case_vlog', 'config': SEARCH, 'opts': {'log_pivots': GRID(-1, 1, 5)}},
    {'case': 'case_every_linear', 'config': SEARCH}, {'case': 'case_every_uneven', 'config': SEARCH},
    {'case': 'case_uneven_natural', 'config': SEARCH}, {'case': 'case_uneven_clamped', 'config': SEARCH},
    {'case': 'case_line_linear', 'config': SEARCH}, {'case': 'case_line_log', 'config': SEARCH},
    {'case': 'case_interpolator', 'config': SEARCH, 'defines': SMALL(5, 3)},
 ], 'bounds': 'grids of 3..6 points (linear and logarithmic), arbitrary values -1000..1000 at the points, every position'},
 'P01': {'harness': 'storage.cpp', 'cases': [
    {'case': 'case_lookup', 'defines': SMALL(3, 2), 'thorough_defines': SMALL(3, 3) + ('NLOOK=4',), 'opts': {'merge': ('catimaeq',)}, 'weight': 4},
    {'case': 'case_lookup', 'defines': SMALL(3, 2), 'config': NOSTORE, 'opts': {'merge': ('catimaeq',)}, 'thorough_only': True},
    {'case': 'case_global', 'defines': SMALL(3, 2), 'opts': {'merge': ('catimaeq',)}},
    {'case': 'case_history', 'defines': SMALL(3, 2), 'weight': 8, 'opts': {'max_paths': 10 ** 6}},
    {'case': 'case_history', 'defines': SMALL(3, 2) + ('NOPS=5',), 'weight': 9, 'opts': {'max_paths': 10 ** 6}},
    {'case': 'case_history', 'defines': SMALL(3, 3) + ('NOPS=6',), 'thorough_only': True, 'weight': 9, 'opts': {'max_paths': 10 ** 6}},
 ], 'bounds': 'every field of up to 4 keys symbolic (lookup), every history of 5 (thorough 6) lookups, additions and resets over 4 keys differing in projectile, material or configuration, cache of 2 (thorough 3) entries of 3-point tables'},
 'P07': {'harness': 'quadrature.cpp', 'cases': [
    {'case': 'case_gl_small'}, {'case': 'case_gl_medium', 'weight': 4}, {'case': 'case_gl_large', 'weight': 9}, {'case': 'case_gl_symbolic'}, {'case': 'case_gl_symbolic8', 'thorough_only': True},
    {'case': 'case_gl_general'}, {'case': 'case_gl_general2'}, {'case': 'case_gl_general3', 'weight': 8}, {'case': 'case_gl_positive'},
    {'case': 'case_gk_exact', 'weight': 4}, {'case': 'case_gk_embedded'}, {'case': 'case_gk_embedded_large', 'weight': 3}, {'case': 'case_gk_general', 'weight': 4}, {'case': 'case_gk_intervals', 'opts': {'merge': ('integrate_adaptive',)}}, {'case': 'case_gk_adaptive'},
    {'case': 'case_gl2', 'weight': 4}, {'case': 'case_gl2a', 'weight': 3},
 ], 'bounds': 'polynomials of every degree the rule claims with arbitrary coefficients in [-1,1], over fixed intervals (arbitrary intervals for orders 3 to 5, thorough 8); arbitrary integrands as values at the nodes; all orders'},
 'P08': {'harness': 'tables.cpp', 'cases': [
    {'case': 'case_interpolate', 'opts': {'log_pivots': GRID(-1, 1.5, 6)}}, {'case': 'case_interpolate', 'config': SEARCH}, {'case': 'case_points'},
    {'case': 'case_lindhard_mass', 'config': SEARCH, 'weight': 5}, {'case': 'case_lindhard_table', 'config': SEARCH, 'weight': 5}, {'case': 'case_lindhard_low'},
 ], 'bounds': 'tables of 6 points with arbitrary values at every position; Lindhard tables for ten proton numbers from 1 to 130, masses from half to twice the atomic weight, energies over the whole table (values: four intervals)'},
 'P09': {'harness': 'stopping.cpp', 'cases': [
    {'case': 'case_regions', 'weight': 5}, {'case': 'case_variance'}, {'case': 'case_merge', 'weight': 4},
 ], 'bounds': '1..3 components given as atoms or weight fractions with arbitrary masses and amounts, every energy, arbitrary elemental nuclear, low and high energy stopping and variance (stubs); one projectile element in every charge state, arbitrary density, ionisation potential and configuration'},
 'P10': {'harness': 'datapoint.cpp', 'cases': [
    {'case': 'case_integrals', 'defines': SMALL(8, 2)}, {'case': 'case_monotone', 'defines': SMALL(4, 2)},
 ], 'bounds': 'tables of 8 (monotony: 4) energies from 1 keV/u to 10 TeV/u with 8 integration points each, arbitrary values of stopping power, variance and scattering power at every point (stubs), arbitrary mass'},
 'P11': {'harness': 'eout.cpp', 'cases': [
    {'case': 'case_invert', 'weight': 5, 'opts': {'cut_loops': True, 'max_visits': 5}, 'thorough_opts': {'max_visits': 7}},
    {'case': 'case_rough', 'weight': 5, 'opts': {'cut_loops': True, 'max_visits': 8}, 'thorough_opts': {'max_visits': 12}},
    {'case': 'case_no_thickness', 'opts': {'cut_loops': True, 'max_visits': 4}}, {'case': 'case_slow'},
 ], 'bounds': 'every strictly increasing range curve (stub) with arbitrary positive slopes, every energy and thickness, up to 5 (thorough 7) iterations, 8 (12) when the slopes are fixed; up to 100 iterations for three thickness intervals and a curve on which the Newton steps make no progress'},
 'P12': {'harness': 'single.cpp', 'cases': [
    {'case': 'case_single', 'weight': 5}, {'case': 'case_energy_given', 'weight': 4}, {'case': 'case_numbers'},
 ], 'bounds': 'every energy, thickness and mass, arbitrary increasing range, variance and angular curves with arbitrary slopes, arbitrary inversion result, moments, time of flight and survival (stubs), all four scattering options'},
 'P13': {'harness': 'multi.cpp', 'cases': [
    {'case': 'case_phasespace', 'weight': 5}, {'case': 'case_point_beam', 'weight': 4},
 ], 'bounds': '0..3 layers of arbitrary thickness and density, arbitrary results of every layer at every energy (stub), arbitrary beam spreads and covariance'},
 'P14': {'harness': 'derived.cpp', 'cases': [
    {'case': 'case_vectors', 'weight': 2}, {'case': 'case_magnification', 'weight': 2}, {'case': 'case_momentum'},
 ], 'bounds': 'lists of 0..3 arbitrary energies (momentum magnification: four energies), arbitrary range curve, slopes and inversion result (stubs), arbitrary mass and thickness'},
 'P29': {'harness': 'derived.cpp', 'cases': [
    {'case': 'case_derived'}, {'case': 'case_between'},
 ], 'bounds': 'arbitrary energies, mass, thickness and configuration, arbitrary increasing range and variance curves with arbitrary slopes, arbitrary inversion result and angular moments (stubs)'},
 'P15': {'harness': 'tof.cpp', 'cases': [
    {'case': 'case_tof'}, {'case': 'case_sign'}, {'case': 'case_table', 'defines': SMALL(4, 2)},
 ], 'bounds': 'arbitrary initial and outgoing energy, mass, density and configuration, arbitrary positive stopping power at the integration points (stub); tables of 4 energies'},
 'P16': {'harness': 'angular.cpp', 'cases': [
    {'case': 'case_power'}, {'case': 'case_power_xs'}, {'case': 'case_moments', 'opts': {'split_select': True}, 'weight': 4}, {'case': 'case_highland', 'opts': {'split_select': True}, 'weight': 4}, {'case': 'case_gottschalk', 'opts': {'split_select': True}, 'weight': 4}, {'case': 'case_stopped', 'opts': {'split_select': True}, 'weight': 3},
 ], 'bounds': 'arbitrary energies, masses, densities, thicknesses, scattering factors and other options, two projectile elements, one compound (three elements for elemental values), arbitrary range curve and inversion result (stubs), all four models, moments 0..2'},
 'P17': {'harness': 'models.cpp', 'cases': [
    {'case': 'case_option'}, {'case': 'case_standard'}, {'case': 'case_standard_value'}, {'case': 'case_limits', 'weight': 4}, {'case': 'case_global'},
 ], 'bounds': 'every projectile proton number up to 130, mass, charge state, energy and velocity, all models of this build; targets of proton number 1 to 99'},
 'P18': {'harness': 'models.cpp', 'cases': [
    {'case': 'case_kinematics'}, {'case': 'case_kinematics_order'}, {'case': 'case_cm', 'harness': 'reaction_kinematics.cpp'}, {'case': 'case_header_momentum', 'harness': 'reaction_kinematics.cpp'},
 ], 'bounds': 'every energy up to 10 TeV/u, every mass up to 400'},
 'P20': {'harness': 'models.cpp', 'cases': [
    {'case': 'case_radiation_element'}, {'case': 'case_radiation_material', 'weight': 3}, {'case': 'case_scattering_material', 'weight': 3}, {'case': 'case_scattering_element'},
 ], 'bounds': 'proton numbers 1 to 120 with arbitrary mass; materials of 1..3 components with arbitrary masses and amounts as atoms or weight fractions, nine elements'},
 'P21': {'harness': 'corrections.cpp', 'cases': [
    {'case': 'case_flags', 'weight': 3}, {'case': 'case_flags_low'}, {'case': 'case_potential', 'weight': 3}, {'case': 'case_material'},
    {'harness': 'models.cpp', 'case': 'case_relativistic'},
 ], 'bounds': 'all 16 switch combinations, every energy from 0.1 MeV/u to 1 TeV/u except 7.5 to 8, masses, effective charges and ionisation potentials, five target elements, arbitrary values of every correction (stubs)'},
 'P28': {'harness': 'corrections.cpp', 'cases': [
    {'case': 'case_variance', 'opts': {'split_select': True}, 'weight': 3}, {'case': 'case_correction', 'opts': {'split_select': True}, 'weight': 2}, {'case': 'case_firsov'},
 ], 'bounds': 'every energy, masses and effective charges, two (above 30 MeV/u five) target elements, arbitrary Lindhard straggling factor (stub), both variance models, every combination of the other options'},
 'P19': {'harness': 'reactions.cpp', 'cases': [
    {'case': 'case_survival', 'weight': 5}, {'case': 'case_rates'}, {'case': 'case_rate_function'}, {'case': 'case_production'}, {'case': 'case_thin'},
 ], 'bounds': 'every energy, thickness and cross section, materials of 1..3 components (H, C, O) with arbitrary amounts, three projectile masses, arbitrary energies along the path and cross sections at every energy (stubs)'},
 'P23': {'harness': 'cinterface.cpp', 'cases': [
    {'case': 'case_call', 'weight': 3}, {'case': 'case_two_calls', 'weight': 5}, {'case': 'case_weight'}, {'case': 'case_models'},
 ], 'bounds': 'all seven C functions and every pair of them, arbitrary energies, masses, densities and thicknesses, every charge model, six targets (elements and compounds, two in pairs of calls), atomic weight of every 32-bit number; tables, results and survival of the library are arbitrary (stubs)'},
 'P25': {'harness': 'database.cpp', 'cases': [
    {'case': 'case_any_number'}, {'case': 'case_compounds1'}, {'case': 'case_compounds2'}, {'case': 'case_compounds3'}, {'case': 'case_compounds4'}, {'case': 'case_formulas', 'weight': 2}, {'case': 'case_weights'}, {'case': 'case_isotopes', 'weight': 2},
 ], 'bounds': 'every 32-bit catalogue number; all 149 compounds and 98 elements; 112 compounds compared with the formula they are named after'},
 'P27': {'harness': 'database.cpp', 'cases': [
    {'case': 'case_numbers0'}, {'case': 'case_numbers1'}, {'case': 'case_numbers2'}, {'case': 'case_numbers3'}, {'case': 'case_numbers4'}, {'case': 'case_numbers5'}, {'case': 'case_numbers6'}, {'case': 'case_numbers7'}, {'case': 'case_changed', 'weight': 2}, {'case': 'case_elements'},
 ], 'bounds': 'every catalogue number with arbitrary thickness; changed density, molar mass or amount for two compounds; all elements'},
 'P26': {'harness': 'lowenergy.cpp', 'cases': [
    {'case': 'case_proton1', 'weight': 3}, {'case': 'case_proton2', 'weight': 3}, {'case': 'case_proton3', 'weight': 3},
    {'case': 'case_power', 'opts': {'split_select': True}}, {'case': 'case_sets'},
 ] + [{'case': 'case_agree', 'opts': {'icp': 400}, 'weight': 3}] + [{'case': 'case_tile%d' % k, 'opts': {'split_select': True, 'icp': 300}, 'weight': 2, 'thorough_only': k > 11} for k in range(20)],
  'bounds': 'protons: all 94 targets, both parameter sets, every energy from 1 eV/u to 30 MeV/u; heavier projectiles: 12 (thorough 20) pairs of projectile and target, every energy from 10 eV/u to 30 MeV/u in intervals of 5 percent'},
 'P30': {'harness': 'elemental.cpp', 'cases': [
    {'case': 'case_nuclear_zero'}, {'case': 'case_nuclear_low', 'weight': 2}, {'case': 'case_nuclear_high', 'weight': 2},
 ], 'bounds': 'every energy up to 1 TeV/u, 24 pairs of six projectiles and four targets'},
 'P31': {'harness': 'elemental.cpp', 'cases': [
    {'case': 'case_density1', 'opts': {'icp': 200}, 'weight': 3}, {'case': 'case_density2', 'opts': {'icp': 200}, 'weight': 3}, {'case': 'case_density3', 'opts': {'icp': 200}, 'weight': 3}, {'case': 'case_density4', 'opts': {'icp': 200}, 'weight': 3}, {'case': 'case_density_limit', 'opts': {'icp': 100}},
    {'case': 'case_barkas', 'weight': 2}, {'case': 'case_barkas_order'}, {'case': 'case_barkas_low'}, {'case': 'case_barkas_value'}, {'case': 'case_pair'}, {'case': 'case_pair_fixed'}, {'case': 'case_brems'},
 ], 'bounds': 'density effect: all elements, every velocity for beta*gamma 0.05 to 35000 and 1.2e5 to 1e6; Barkas: all elements, every velocity and charge (decrease with velocity for eleven elements); elements 85 and 87 only for the sign, 35 and 87 not for the limit; radiative: 50 GeV/u to 10 TeV/u, arbitrary projectile proton numbers, one target mass, pair production for four target elements and one projectile mass'},
 'P32': {'harness': 'elemental.cpp', 'cases': [
    {'case': 'case_kox_high', 'weight': 2}, {'case': 'case_kox_low', 'weight': 2},
 ], 'bounds': 'every energy from 30 MeV/u to 100 GeV/u, 49 pairs of seven nuclei'},
 'P22': {'harness': 'bounds.cpp', 'cases': [
    {'case': 'case_potential'}, {'case': 'case_density', 'opts': {'icp': 100}}, {'case': 'case_density_beyond'}, {'case': 'case_srim_target', 'opts': {'split_select': True, 'icp': 100}}, {'case': 'case_srim_beyond'}, {'case': 'case_srim_projectile', 'opts': {'split_select': True, 'icp': 100}},
    {'case': 'case_lindhard'}, {'case': 'case_lindhard_beyond'}, {'case': 'case_barkas'}, {'case': 'case_stopping1', 'opts': {'icp': 100}}, {'case': 'case_stopping2', 'opts': {'icp': 100}}, {'case': 'case_stopping3', 'opts': {'icp': 100}}, {'case': 'case_reactions', 'opts': {'icp': 100}},
 ], 'bounds': 'ionisation potential and element data for every 32-bit number; density effect, Lindhard and low energy tables for all proton numbers 1..130 at three to five energies; stopping and variance for 12 x 12 proton numbers around the ends of the tables at three energies, projectile mass free within 10 percent'},
}
