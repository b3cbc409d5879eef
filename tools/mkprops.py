import json
P=[]
def prop(id,title,st,over,qt,why,files,mech,obs,hook=False,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':obs,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})

prop('P01','Results do not depend on what was calculated before',
 'A lookup of the precalculated tables for a projectile, material and configuration always delivers tables belonging to exactly that combination, whatever sequence of lookups, additions and resets came before and however often the cache overflowed. Repeating a request whose entry is still cached reuses it instead of storing it twice, and the combinations stored last, up to the capacity, stay available.',
 ['histories','inputs'],'all operation sequences up to the stated length over a small cache, all parameter values of the keys',
 'The tests run a handful of fixed sequences and compare the write position; wrap-around with arbitrary interleavings of hits, misses and resets is not covered.',
 ['src/storage.cpp','include/catima/storage.h'],[('Data::Get/Add/Reset','src/storage.cpp'),('cyclic write position','src/storage.cpp')],['get_data','range','calculate'],True,
 [('storage','cached tables','include/catima/storage.h'),('index','next slot to overwrite','include/catima/storage.h')])
prop('P02','Inputs that compare equal describe the same physics',
 'Two projectiles compare equal exactly when mass, proton number and charge agree; two configurations exactly when every option including the scattering factor agrees; two materials compare different whenever number of components, any component (mass, proton number, amount), molar mass or ionisation potential differ or the densities differ by more than a millionth. Energy and thickness play no role and comparison is symmetric.',
 ['inputs'],'all field values, up to three components per material',
 'The tests compare a few pairs; a forgotten or loosely compared field only shows for pairs differing in just that field.',
 ['src/structures.cpp','src/catima.cpp'],[('operator==','src/structures.cpp, src/catima.cpp')],['operator== of Projectile, Material, Config'])
prop('P03','Layer stacks keep every layer, in order',
 'Adding a material, appending another stack (also a stack to itself) and concatenating stacks or a stack with a material yield exactly the layers of the operands in order and leave the operands unchanged. The number of layers and the total thickness in g/cm2 and in cm are the count and the sums over the layers.',
 ['inputs','programs'],'stacks of 0..3 layers with arbitrary thickness and density, all combinations of operations',
 'The tests build one or two fixed stacks; aliasing, empty operands and mixtures of operations are not covered.',
 ['src/structures.cpp','include/catima/structures.h'],[('Layers::add, operator+','src/structures.cpp')],['Layers'])
prop('P04','Material composition arithmetic is consistent',
 'For a material built from a list of components, with amounts given as number of atoms or as weight fractions, weight fractions of the components sum to one, molar fractions convert back to weight fractions by mass over molar mass, and partial number densities are the total number density times the molar fraction (zero for a component that does not exist). Molar mass is the sum over the formula unit, the harmonic mean for weight fractions, or the value given by the user; thickness in g/cm2 equals density times thickness in cm.',
 ['inputs'],'1..3 components, arbitrary masses, amounts, density, thickness and molar mass',
 'The tests use a few compounds with fixed numbers.',
 ['src/structures.cpp','include/catima/structures.h'],[('Material constructors, add_element, calculate','src/structures.cpp'),('weight_fraction, molar_fraction, number_density','include/catima/structures.h')],['Material'])
prop('P05','Grid lookup returns the interval containing the value',
 'For every energy inside an energy grid the index returned by the lookup is that of the grid interval containing the energy (within rounding of the grid values), for logarithmic and linear grids and for both ways of computing the index. Values below the grid give -1, values at or above the last point the last index.',
 ['inputs','configurations'],'every value, several grid sizes and ranges, both index options',
 'The tests probe the grid points and some midpoints of one grid.',
 ['include/catima/storage.h'],[('EnergyTable::index, LogVArray::index, LinearVArray::index','include/catima/storage.h')],['EnergyTable','LogVArray','LinearVArray'])
prop('P06','Interpolation curve passes through its points and is smooth',
 'The interpolating curve takes the given value at every grid point, its value, first and second derivative are continuous inside the grid and the reported derivative is the derivative of the reported value. The second derivative vanishes at the ends (or the slope, for the clamped variant), outside the grid the curve continues as the tangent line, and a straight line is reproduced exactly.',
 ['inputs'],'arbitrary values at the grid points, every position, several grids',
 'The tests compare single values of one smooth function with a tolerance that hides kinks.',
 ['include/catima/spline.h','include/catima/storage.h'],[('cspline_special','include/catima/spline.h'),('tridiagonal_matrix','include/catima/spline.h')],['Interpolator','cspline_special'],False)
prop('P07','Numerical integration is exact for polynomials and linear',
 'A Gauss-Legendre rule of order n integrates every polynomial up to degree 2n-1 exactly over any interval, Kronrod rules at least up to their design degree, one- and two-dimensional alike. Exchanging the limits changes the sign, the integral of a non-negative function over an ordered interval is not negative, splitting into several intervals adds up, and the listed points are distinct, ordered and those used.',
 ['inputs'],'all polynomial coefficients, arbitrary integrands at the nodes, several intervals, every supported order',
 'The tests integrate a few fixed functions with some of the orders.',
 ['include/catima/glq_integrator.h','include/catima/gkq_integrator.h','include/catima/integrator.h'],[('GaussLegendreIntegration','include/catima/glq_integrator.h'),('GaussKronrodIntegration','include/catima/gkq_integrator.h')],['integrator','integrator_adaptive'])
prop('P08','Tabulated corrections are interpolated between neighbours',
 'Linear interpolation in a table returns the tabulated value at a grid point, lies between the two neighbouring values inside an interval and is zero outside the table. The tabulated Lindhard corrections vary linearly with the projectile mass, are constant below the lowest tabulated energy (the straggling one is one there) and use the heaviest tabulated element for heavier projectiles.',
 ['inputs'],'all energies and masses, all projectile proton numbers',
 'The tests compare some tabulated values of a few ions.',
 ['src/calculations.cpp','include/catima/storage.h','include/catima/generated_LS_coeff.h'],[('EnergyTable_interpolate','include/catima/storage.h'),('precalculated_lindhard, precalculated_lindhard_X','src/calculations.cpp')],['precalculated_lindhard','precalculated_lindhard_X'])
prop('P09','Stopping power is the weighted sum over components',
 'Nuclear and electronic stopping power and energy-loss variance of a material are the weight-fraction weighted sums over its components, so adding a component of zero weight or merging equal components changes nothing. The total is nuclear plus electronic; the electronic part is the low energy model up to 10 MeV/u, the high energy model from 30 MeV/u and the linear transition in between, without jumps, and the total is zero at zero energy.',
 ['inputs'],'every energy, 1..3 components with arbitrary masses and weights, arbitrary values of the elemental models',
 'The tests compare a few materials and energies; wiring errors in the transition region or for several components stay within tolerance.',
 ['src/catima.cpp','src/calculations.cpp'],[('dedx','src/catima.cpp'),('domega2dx','src/catima.cpp'),('dedx_n, bethek_dedx_e, sezi_dedx_e','src/calculations.cpp')],['dedx','domega2dx'])
prop('P10','Precalculated tables are the running integrals',
 'The tabulated range, range variance and angular variance start at zero at the lowest energy, and each entry equals the previous one plus the projectile mass times the integral over the interval of inverse stopping power, of energy-loss variance over the cube of stopping power, and of scattering power over stopping power. For positive stopping power the range table strictly increases and the variances never decrease.',
 ['inputs','configurations'],'arbitrary stopping power, variance and scattering power functions, arbitrary projectile mass',
 'The tests see only the final numbers for some ions, with percent tolerances.',
 ['src/catima.cpp'],[('calculate_DataPoint','src/catima.cpp')],['calculate_DataPoint','get_data'],True)
prop('P11','Outgoing energy inverts the range',
 'The energy behind a target lies between zero and the initial energy, and its range differs from the initial range minus the thickness by less than the documented tolerance of 1e-5 g/cm2. Zero is returned exactly when the target is at least as thick as the range (up to the lowest tabulated energy), and zero thickness leaves the energy unchanged.',
 ['inputs'],'arbitrary increasing range functions, all initial energies and thicknesses',
 'The tests check a few projectiles and thicknesses far from stopping.',
 ['src/catima.cpp'],[('energy_out','src/catima.cpp')],['energy_out'])
prop('P12','Single layer results are mutually consistent',
 'For one layer the result carries the initial energy, the range and stopping power at that energy, the outgoing energy of the range inversion, energy loss as mass times energy difference (for very thin targets thickness times mean stopping power), range straggling as root of the range variance, and energy straggling as outgoing stopping power per mass times the root of the difference of range variances. Behind a stopping target outgoing stopping power, energy and angular straggling and time of flight are zero; without thickness nothing changes; below the lowest energy everything is zero.',
 ['inputs','configurations'],'arbitrary precalculated tables, all energies, thicknesses and scattering options',
 'The tests look at single numbers of some fields; other fields and the thin target branch are hardly covered.',
 ['src/catima.cpp'],[('calculate (single material)','src/catima.cpp')],['calculate'])
prop('P13','Multi-layer totals combine the layers correctly',
 'Each layer is calculated with the energy leaving the previous one; total energy loss and time of flight are sums, energy and angular variances add, survival probabilities multiply, and total initial and final energy are those of the first and last layer. The position variance and covariance propagate through every layer as for a drift plus the contribution of the layer, starting from the given beam values.',
 ['inputs','programs'],'0..3 layers with arbitrary layer results and beam values',
 'The tests compare two stacks with the default beam.',
 ['src/catima.cpp'],[('calculate (layers)','src/catima.cpp')],['calculate'])
prop('P14','Array and scalar interfaces agree',
 'Evaluating outgoing energy or stopping power for a list of energies gives, element by element and in order, what single evaluations give, with zero for energies below the lowest tabulated one. The beam magnification factors are the ratios of the relative spreads in energy and momentum obtained from these outgoing energies, one for an empty target and zero if the beam is stopped.',
 ['inputs'],'lists of 0..3 arbitrary energies, arbitrary tables and thicknesses',
 'The tests compare one list.',
 ['src/catima.cpp'],[('energy_out, dedx_from_range (vector)','src/catima.cpp'),('w_magnification','src/catima.cpp')],['energy_out','dedx_from_range','w_magnification'])
prop('P15','Time of flight is the slowing-down integral',
 'The time of flight equals the integral of mass over velocity times stopping power from the outgoing to the initial energy divided by the density, evaluated with the same configuration as the rest of the calculation. It is zero for equal energies, positive otherwise and inversely proportional to the density.',
 ['inputs','configurations'],'arbitrary stopping power functions, energies, densities and configurations',
 'The tests check two values with the default configuration.',
 ['src/catima.cpp'],[('calculate_tof_from_E, calculate_tof','src/catima.cpp')],['calculate_tof_from_E','calculate'])
prop('P16','Scattering models follow the selected option',
 'Angular scattering power is proportional to the square of the projectile charge and inversely to the radiation length and the squared momentum-velocity product, with the energy scale of the selected model. The angular, position and mixed moments of a target are the integrals of the scattering power along the path weighted with the zeroth, second and first power of the remaining path, up to the end of the target or of the range.',
 ['inputs','configurations'],'arbitrary energies, targets, range functions and scattering options',
 'The tests check a few angles; path weights and model selection are covered for single points.',
 ['src/catima.cpp','src/calculations.cpp'],[('da2dx, angular_variance, Tfr','src/catima.cpp'),('angular_scattering_power, angular_scattering_power_xs','src/calculations.cpp')],['da2dx','angular_variance','angular_straggling'])
prop('P17','Effective charge stays physical and follows the option',
 'The selected effective charge model is the one used, with the bare charge state when the option is off. For the standard model the effective charge lies between zero and the proton number and does not decrease with velocity; no model except the semi-empirical one with built-in overshoot exceeds the proton number.',
 ['inputs','configurations'],'every energy, all projectile and target proton numbers, all models available in this build',
 'The tests compare tabulated values of a few ions.',
 ['src/calculations.cpp'],[('z_effective and the z_eff models','src/calculations.cpp')],['z_effective','z_eff_Pierce_Blann'])
prop('P18','Kinematic conversions are consistent',
 'Energy per nucleon, gamma, beta and momentum satisfy the relativistic relations for every energy: gamma is at least one, beta lies in [0,1) and increases, momentum equals mass times unit mass times beta gamma and is proportional to mass. Centre of mass energy is symmetric in the two masses.',
 ['inputs'],'every energy and mass',
 'The tests check three values.',
 ['src/calculations.cpp','include/catima/reactions.h'],[('gamma_from_T, beta_from_T, p_from_T','src/calculations.cpp')],['gamma_from_T','beta_from_T','p_from_T','Ecm_from_T'])
prop('P19','Reaction and production rates are probabilities',
 'Survival and reaction probability for a cross section add up to one, lie between zero and one and survival does not increase with thickness or cross section. The survival in a material counts every atom of the formula, the -1 marker is returned exactly if initial or final energy is below the reaction limit, and zero thickness gives one. Production rates are non-negative, proportional to the production cross section and approach the thin target limit.',
 ['inputs'],'all cross sections, thicknesses and compositions of up to three components, arbitrary cross section functions',
 'The tests compare one projectile on carbon.',
 ['src/reactions.cpp','include/catima/reactions.h'],[('nonreaction_rate, production_rate','src/reactions.cpp'),('reaction_rate','include/catima/reactions.h')],['nonreaction_rate','reaction_rate','production_rate'])
prop('P20','Radiation and scattering lengths combine by weight',
 'Radiation and scattering length are positive for every element (for common elements the tabulated radiation length is used), and the inverse length of a material is the weight-fraction weighted sum of the inverse lengths of its elements. Elements without a tabulated radiation length follow the screened Bethe-Heitler formula with Coulomb correction and are proportional to the mass.',
 ['inputs'],'all elements, arbitrary masses and weights, up to three components',
 'The tests check a few elements.',
 ['src/calculations.cpp'],[('radiation_length, scattering_length','src/calculations.cpp')],['radiation_length','scattering_length'])
prop('P21','Correction switches act independently',
 'Each correction switch removes exactly its own term of the high energy stopping power and leaves the other terms untouched, for every combination of switches. The ionisation potential given by the user replaces the tabulated one wherever it enters, and the ultra-relativistic terms are added only above 50 GeV/u and are never negative.',
 ['inputs','configurations'],'all 16 combinations, arbitrary energies, charges and targets',
 'The tests toggle single switches at a few energies.',
 ['src/calculations.cpp'],[('bethek_dedx_e','src/calculations.cpp'),('pair_production, bremsstrahlung','src/calculations.cpp')],['bethek_dedx_e','dedx'])
prop('P22','No calculation leaves its data tables',
 'For every projectile and target proton number up to 130 (target up to 120 where the ionisation potential enters), including elements heavier than the tables, no lookup reads outside its table and no integer overflow or invalid conversion occurs. Elements beyond the tables of density effect, Lindhard correction or low energy stopping use the data of the last element of that table, and stopping power and its variance stay positive and finite.',
 ['inputs'],'all projectile and target proton numbers from 1 to 130, representative energies from the lowest to the highest',
 'The tests use a dozen elements; sanitizers are not part of the build.',
 ['src/calculations.cpp','src/srim.cpp','include/catima/data_ionisation_potential.h','include/catima/data_atima.h'],[('table lookups','src/calculations.cpp, src/srim.cpp')],['dedx','domega2dx'])
prop('P23','C interface gives the C++ results',
 'Every C function returns exactly what the C++ library returns for the same projectile, material, energy and the default configuration with the charge model selected for the C interface, in every field. The result does not depend on C functions called before, materials above number 200 are the database compounds, and a non-positive density selects the tabulated one.',
 ['inputs','histories'],'all argument values, all pairs of C calls, all charge models',
 'The C tests call some functions once.',
 ['src/cwrapper.cpp'],[('catima_calculate and the other wrappers','src/cwrapper.cpp')],['catima_calculate','catima_Eout','catima_range','catima_nonreaction_rate'])
prop('P24','Isotope lookups are total and within the element',
 'For every pair of integers the isotope lookups return either an isotope of that element (mass number between Z and 4Z, abundance between 0 and 1) or zero when element or index do not exist, never touching other memory. Isotopes of an element are distinct, ordered by decreasing abundance, their abundances sum to one, and the combined lookup agrees with the single ones.',
 ['inputs'],'every pair of 32-bit integers',
 'The tests look up a few elements with valid and slightly too large indices.',
 ['src/abundance_database.cpp'],[('get_isotope_a, get_abundance, get_isotope, get_isotopes_num','src/abundance_database.cpp')],['abundance lookups'])
prop('P25','Element and compound database is complete and consistent',
 'Every catalogue number yields a material whose components are distinct existing elements with positive amounts, positive density and a molar mass consistent with the composition; weight fractions sum to one and compounds named after a chemical formula have that composition. The numbers of the elements yield that element with its atomic weight and density, unknown numbers an empty material. Atomic weights agree with the mean mass number of the natural isotopes, and elements without data have weight and density zero.',
 ['inputs'],'every 32-bit catalogue number; weights and densities of all elements',
 'The tests look at a few compounds.',
 ['src/material_database.cpp','src/nucdata.cpp','include/catima/nucdata.h'],[('get_material, get_compound','src/material_database.cpp')],['get_material','element_atomic_weight','element_density'])
prop('P26','Low energy stopping is positive and continuous',
 'Low energy electronic stopping power is positive for every projectile, target and energy up to the transition region, and for protons follows the power 0.45 of the energy (0.25 for targets up to carbon) below 25 keV/u and continues there without a jump. For heavier ions it has no step of more than a few percent within the energy range, stays below 1.1 times the squared proton number times the proton value, and follows a fixed power between 0.35 and 0.5 at the lowest energies. The option selects the parameter set, and both sets agree within 45 percent.',
 ['inputs','configurations'],'every energy, all target elements, light and heavy projectiles, both parameter sets',
 'The tests compare values at a few energies.',
 ['src/srim.cpp','include/catima/srim.h'],[('p_se, p_se85, srim_dedx_e','src/srim.cpp')],['srim_dedx_e','sezi_dedx_e'])
prop('P27','Exported materials are identified with their own number',
 'Looking up the catalogue number of a database compound returns that number, or that of an earlier identical entry, for every compound in the catalogue, independent of its thickness, and zero for a material whose density, molar mass or any component differs from all catalogue entries.',
 ['inputs'],'every catalogue number, arbitrary thickness, arbitrary modification of one field',
 'There is no test of the export.',
 ['include/catima/convert.h','src/material_database.cpp'],[('materialdb_id, mocadi_material_match','include/catima/convert.h')],['materialdb_id'])
prop('P28','Energy-loss variance is bounded and non-negative',
 'The elemental energy-loss variance is proportional to the squared effective charge, never negative, the low velocity correction of the default model only increases it compared with the plain one, and below 30 MeV/u it never exceeds the Firsov value. The Firsov value is symmetric in the two proton numbers and increases with energy.',
 ['inputs','configurations'],'every energy, charge, target and both variance models',
 'The tests compare a few values.',
 ['src/calculations.cpp'],[('dedx_variance, energy_straggling_firsov','src/calculations.cpp')],['dedx_variance'])
prop('P29','Derived range quantities are consistent',
 'Range, range straggling, range variance and their derivatives, stopping power from range, and energy or angular straggling between two energies are all evaluated from the tables of the requested combination: straggling is the root of the variance, stopping power the mass over the slope of the range, and the straggling between two energies that of the target with the corresponding thickness.',
 ['inputs'],'arbitrary tables, all energies',
 'The tests compare single values.',
 ['src/catima.cpp'],[('range, range_straggling, range_variance, domega2de, dedx_from_range, *_from_E','src/catima.cpp')],['range','range_straggling','range_variance','dedx_from_range','energy_straggling_from_E','angular_straggling_from_E'])
prop('P30','Nuclear stopping is the universal function of the reduced energy',
 'Elemental nuclear stopping is zero for a particle at rest and positive otherwise. It equals the scale given by proton numbers and masses times the Ziegler-Biersack-Littmark universal function of the reduced energy, with the screened form up to the reduced energy 30 and the unscreened form above.',
 ['inputs'],'every energy, light and heavy projectiles and targets',
 'The tests compare a few values; regions of the reduced energy and combinations of masses are not visited.',
 ['src/calculations.cpp'],[('dedx_n','src/calculations.cpp')],['dedx_n','dedx'])
prop('P31','Barkas, density and radiative corrections follow their physical limits',
 'The density effect correction is not negative and does not decrease with energy (within 0.06, the accuracy of its parametrisation), and for every element reaches the limit given by its ionisation potential and plasma energy (within 0.3; bromine is tabulated as a gas). The Barkas factor is one below the reduced velocity 1, never below one, proportional to the effective charge in excess of one, decreasing with velocity and follows the Jackson-McCarthy values. Pair production is proportional to the squared projectile proton number, bremsstrahlung to its fourth power and the squared target proton number.',
 ['inputs'],'every target element, velocity and charge',
 'The tests use a few elements; a wrong number in one row of a table or a wrong limit of one region is seen for that element or velocity only.',
 ['src/calculations.cpp','include/catima/data_atima.h'],[('bethek_density_effect, bethek_barkas, pair_production, bremsstrahlung','src/calculations.cpp')],['bethek_density_effect','bethek_barkas','pair_production','bremsstrahlung'])
prop('P32','Reaction cross section follows the Kox parametrisation',
 'For every pair of nuclei and every energy from 30 MeV/u the total reaction cross section is that of the Kox parametrisation: interaction radius from the volume, surface transparency and neutron skin terms, reduced by the Coulomb barrier over the centre of mass energy. Apart from the lightest pairs it is positive, and the two forms of the energy dependence meet at 31.6 MeV/u.',
 ['inputs'],'every energy from 30 MeV/u, light to heavy nuclei',
 'The tests compare the survival probability of a few cases.',
 ['src/reactions.cpp'],[('SigmaR_Kox','src/reactions.cpp')],['SigmaR_Kox','nonreaction_rate'])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
print(len(P))
