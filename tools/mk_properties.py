"""Source of properties.jsonl (run by hand)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []


def P(i, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    OUT.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


POT = 'primpy/potentials.py'
INF = 'primpy/inflation.py'
IT, IN = 'primpy/time/inflation.py', 'primpy/efolds/inflation.py'
PT, PN = 'primpy/time/perturbations.py', 'primpy/efolds/perturbations.py'

P('C01', 'Potential derivatives are the exact derivatives of the potential',
  'For every inflationary potential the library offers, with or without an added feature, the reported first, '
  'second, third and fourth derivatives are the exact derivatives of the reported potential value with '
  'respect to the field, for every field value in the domain and every choice of the model parameters. '
  'Scalars and arrays of field values give the same numbers.',
  ['inputs', 'configurations'], 'every potential class, all positive amplitudes and shape parameters, all field '
  'values at which the potential is real, all four derivative orders',
  'The tests compare with finite differences at a few field values for one parameter set each, so an error in '
  'a coefficient, in a parameter other than the sampled one, or a regime not sampled stays invisible.',
  [POT], [('V, dV, d2V, d3V, d4V of each potential', POT), ('feature multipliers', POT + ' FeaturePotential')])
P('C02', 'The inverse potential inverts the potential',
  'For every potential without an added feature, evaluating the potential at the field value returned by the '
  'inverse potential gives back the requested potential value, for every value in the range and every choice '
  'of model parameters. On the inflationary branch, inverting the potential of a field value gives back that field value.',
  ['inputs', 'configurations'], 'all amplitudes and shape parameters, all potential values in the range',
  'The tests do round trips for a few sampled values and one parameter set per model.',
  [POT], [('inv_V of each potential', POT)])
P('C03', 'Potential slow-roll parameters follow their definition',
  'For every potential without an added feature the four potential slow-roll parameters obey their recursive '
  'definition: the first is half the squared logarithmic slope of the potential and each next one is the '
  'slow-roll e-fold derivative of the logarithm of the previous one. This holds at every field value where they '
  'are defined and for every choice of model parameters, and does not depend on the amplitude.',
  ['inputs', 'configurations'], 'all fields in the domain away from stationary points, all parameters, orders 1 to 4',
  'The tests check a few numeric values or relations at sampled points; special-cased closed forms of the '
  'subclasses are only sampled.',
  [POT], [('get_epsilon_1V to get_epsilon_4V, generic and overridden', POT)])
P('C04', 'Slow-roll e-fold counts, end of inflation and field values are consistent',
  'For the implemented models the slow-roll number of e-folds to the end of inflation has field derivative V/V\' '
  'and vanishes at the end of inflation, where the first slow-roll parameter equals one, and the conversion from '
  'e-folds to field value inverts it. Fields beyond the end of inflation yield zero e-folds or an explicit refusal '
  'rather than a wrong number.',
  ['inputs', 'configurations'], 'all fields between the end of inflation and the top of the potential and all e-folds, '
  'all shape parameters in the stated bounds',
  'The tests make a round trip for a handful of parameter values.',
  [POT], [('sr_phi2N, sr_N2phi, sr_phi_end, get_phi_end closed forms', POT)])
P('C05', 'Slow-roll spectral conversions invert and the amplitude is calibrated',
  'The conversions between e-folds and scalar tilt, and between e-folds and tensor-to-scalar ratio, are mutual '
  'inverses for every model that has them. A potential built for a requested scalar amplitude at a pivot field '
  'value or e-fold number has exactly that slow-roll amplitude there, and impossible or ambiguous requests are refused.',
  ['inputs', 'configurations'], 'all e-folds, tilts, ratios, amplitudes and shape parameters',
  'The tests sample a few values per model with default parameters.',
  [POT], [('sr_Nstar2ns, sr_ns2Nstar, sr_Nstar2r, sr_r2Nstar', POT), ('sr_As2Lambda and the constructor', POT)])
P('C06', 'Hubble-flow parameters are the correct series in the potential ones',
  'For every potential, the Hubble-flow slow-roll parameters estimated from the potential equal the truncation '
  'of the series that solves the exact relation between the two hierarchies, to third order for the first '
  'three and to second order for the fourth, for all values of the potential slow-roll parameters. Scalars and arrays '
  'give the same numbers.',
  ['inputs'], 'all values of the potential slow-roll parameters',
  'The tests only check that Hubble and potential parameters are close in slow roll, which one wrong coefficient survives.',
  [POT], [('get_epsilon_1 to get_epsilon_4', POT)])
P('C07', 'Background equations conserve the Friedmann constraint and their jets agree',
  'In both time variables and for flat, open and closed universes, the background right-hand sides are the '
  'Klein-Gordon and Friedmann equations, so that the Friedmann constraint is conserved along every solution, and all '
  'reported higher derivatives of the Hubble rate and of the field are the exact total derivatives along the solution. '
  'Tracked time and conformal time accumulate dt and dt/a.',
  ['inputs', 'configurations', 'histories'], 'every state (e-folds, field, velocity), every potential jet, curvature -1, 0, 1',
  'The tests integrate a few flat and curved backgrounds and compare the two time variables within tolerance; higher '
  'derivatives enter only small corrections, so a wrong curved term is invisible.',
  [IT, IN], [('get_H2, get_dH, get_d2H, get_d3H, get_d2phi, get_d3phi, get_d4phi, __call__', IT),
             ('the same in e-folds', IN)])
P('C08', 'Cosmic time and e-folds describe the same universe',
  'For the same physical state (positive energy density) the two formulations agree on the Hubble rate, the equation of state, the '
  'inflating criterion, the Hubble-flow parameters of both conventions and the field-acceleration parameters, and '
  'the Hubble-flow parameters obey their recursive definition. Inflating is positive exactly when the equation of '
  'state is below -1/3 and the scale factor accelerates.',
  ['inputs', 'configurations'], 'every physical state with positive Hubble rate, every potential jet, curvature -1, 0, 1',
  'The tests compare both formulations along a few integrated trajectories with loose tolerances.',
  [IT, IN], [('get_epsilon_1H to 3H, get_delta_1 to 3, w, inflating', IT), ('the same in e-folds', IN)])
P('C09', 'Initial conditions satisfy their defining equations',
  'Slow-roll initial conditions put the field on the slow-roll attractor and inflation-start initial conditions put it '
  'exactly at the start of inflation, both with a state that satisfies the Friedmann equation they are defined by, in '
  'both time variables, for e-folds or curvature density as input, which are consistent with each other. A closed universe too small to inflate and an open '
  'one with curvature density of one or more are refused, and '
  'the shooting variants find a start whose e-fold count is the target.',
  ['inputs', 'configurations'], 'all potentials values and slopes, initial e-folds or curvature density, curvature -1, 0, 1, both time variables, tracked times',
  'The tests evaluate a few models and values.',
  ['primpy/initialconditions.py'], [('SlowRollIC, InflationStartIC, ISIC_Nt, ISIC_NsOk', 'primpy/initialconditions.py')])
P('C10', 'Flat calibration: scale factor, pivot scale and reheating history agree',
  'For every flat background and every accepted combination of calibration inputs, the calibrated scale factor makes the '
  'comoving Hubble radius match the pivot scale at horizon crossing, and the reported reheating duration, equation '
  'of state, energy density and end-of-inflation e-folds satisfy entropy conservation and the continuity equation '
  'simultaneously. Equivalent combinations of inputs give the same history. Unphysical histories (negative duration, or reheating '
  'ending after today) are flagged or refused.',
  ['inputs', 'configurations'], 'all values of the end-of-inflation state, e-folds, reheating parameters, all accepted combinations',
  'The tests check a few reheating scenarios for one background.',
  [INF], [('calibrate_scale_factor, flat branches', INF)])
P('C11', 'Curved calibration: curvature today, scale factor and reheating agree',
  'For every curved background, calibrating from the curvature density today and calibrating from reheating are inverse to each '
  'other: both give the same scale factor, curvature density, pivot crossing and reheating history, satisfying '
  'entropy conservation and the continuity equation. Mismatched geometry or missing inputs are refused. Recalibrating leaves no trace of an earlier calibration.',
  ['inputs', 'configurations'], 'all end-of-inflation states, curvature densities, Hubble parameters and reheating parameters, curvature -1 and 1',
  'The tests check a few scenarios, and the combination of equation of state and density only for special values.',
  [INF], [('calibrate_scale_factor, curved branches', INF)])
P('C12', 'Reheating inputs are classified and validated exhaustively',
  'A combination of reheating inputs counts as instant reheating exactly when nothing is specified or when one of the '
  'parameters has its instantaneous value and all others agree with it; contradictory combinations are refused, never silently '
  'interpreted. A calibration request is accepted only with one of the documented combinations of inputs.',
  ['inputs', 'configurations'], 'every combination of given and missing inputs with arbitrary values, flat and curved, every calibration method',
  'The tests list some tens of combinations with fixed numbers.',
  ['primpy/reheating.py', INF], [('is_instant_reheating', 'primpy/reheating.py'), ('validation in calibrate_scale_factor', INF)])
P('C13', 'Big Bang expansion history is self-consistent in all units',
  'The Hubble rate of the standard Big Bang equals the sum of its density contributions with closure to one, equals '
  'today\'s Hubble parameter today, and all unit systems agree; the scale factor today, the comoving Hubble horizon and the '
  'conformal time follow from it. Universes without a Big Bang are refused and recollapsing ones are flagged, exactly at the analytic dividing lines.',
  ['inputs', 'configurations'], 'all densities, Hubble parameters and e-folds, all unit systems',
  'The tests evaluate a grid of values and compare units at few points.',
  ['primpy/bigbang.py'], [('get_H0, get_a0, Hubble_parameter, comoving_Hubble_horizon, conformal_time, dividing lines', 'primpy/bigbang.py')])
P('C14', 'Units and cosmological constants are mutually consistent',
  'The reduced Planck units in SI and in particle-physics units are those for which the reduced Planck constant, speed of light, '
  'Boltzmann constant and 8 pi G are one, whatever the measured values of the constants. Derived radiation densities, '
  'the effective entropy degrees of freedom and the pivot scale follow from their physical definitions.',
  ['inputs'], 'all positive values of the measured constants',
  'The tests compare with reference numbers, or not at all.',
  ['primpy/units.py', 'primpy/parameters.py'], [('unit definitions', 'primpy/units.py'), ('parameters', 'primpy/parameters.py')])
P('C15', 'Perturbation equations are the same in both time variables',
  'For every background state and curvature, the mode equations for scalar and tensor perturbations in cosmic time and in '
  'e-folds are the same equation under change of variable, and in flat universes they are the Mukhanov-Sasaki equations. '
  'The mode equation is evaluated on exactly the requested range of the background, and imaginary frequencies are represented faithfully.',
  ['inputs', 'configurations'], 'all background states, potentials slopes, wavenumbers, curvature -1, 0, 1, index ranges',
  'The tests compare spectra from both formulations for a few modes with loose tolerance.',
  [PT, PN], [('mukhanov_sasaki_frequency_damping', PT), ('mukhanov_sasaki_frequency_damping', PN)])
P('C16', 'Vacuum initial conditions are canonically normalised',
  'For each supported vacuum, scalar and tensor initial conditions satisfy the canonical commutation relation (Wronskian), are the '
  'same physical state in both time variables, and realise their definition: Hamiltonian diagonalisation uses the exact effective '
  'frequency of the background, and the others the asymptotic one. This holds for every background state.',
  ['inputs', 'configurations'], 'all background states, potential jets, wavenumbers, curvature -1, 0, 1',
  'The tests compare spectra of different vacua for a few modes.',
  [PT, PN], [('get_vacuum_ic_k, get_vacuum_ic_HD, get_vacuum_ic_RST', PT), ('the same in e-folds', PN)])
P('C17', 'Mode integration combines solutions and normalises spectra correctly',
  'The power spectrum reported for a mode is the one of the unique combination of the two numerical solutions that matches the '
  'vacuum initial conditions, whatever independent solutions are used, with the scalar and tensor normalisations. Each mode '
  'is integrated from and to the requested horizon-crossing margins of the background, and results are stored for the right wavenumber.',
  ['inputs', 'histories'], 'all pairs of independent solutions, all initial conditions, all horizon histories on short grids, all wavenumbers',
  'The tests use the default pair of solutions of each potential and smooth backgrounds.',
  ['primpy/perturbations.py', 'primpy/oscode_solver.py'], [('_get_coefficients_a_b, _combine_solutions', 'primpy/perturbations.py'),
                                                          ('solve_oscode index selection', 'primpy/oscode_solver.py')])
P('C18', 'Approximate spectra agree across methods and do not depend on the pivot',
  'The analytic slow-roll spectra of all methods agree with each other to the order in slow roll that they share, and spectra expanded about the pivot '
  'are independent of the choice of pivot to the order retained. Reported amplitude, tilt, running, ratio and spectra always '
  'belong to the requested method and order and to the most recent calibration.',
  ['inputs', 'histories', 'configurations'], 'all values of the flow parameters, all wavenumbers, all methods and orders, sequences of calibrations and requests',
  'The tests compare methods within per-cent tolerances, which hides errors of higher-order coefficients, and never recalibrate.',
  [INF], [('derive_approx_power_*', INF), ('P_s_approx, P_t_approx', INF)])
P('C19', 'Setting the spectral index hits the target or refuses',
  'Setting the scalar spectral index of a flat background leaves it calibrated with exactly the requested index and the requested reheating density, with the '
  'pivot e-folds within the search range. If the requested index is not attainable within the range, or the universe is curved, the request is refused.',
  ['inputs', 'histories'], 'all monotonic or non-monotonic dependences of the index on the e-folds, all targets and ranges',
  'The tests shoot for a few values with one potential.',
  [INF], [('set_ns', INF)])
P('C20', 'Solutions and events are labelled with what they contain',
  'Every variable of a background solution carries its own row of the solution and its own events, and the start and end of inflation are '
  'those of the recorded inflation events or of the initial state, with matching e-folds, field, Hubble rate and potential. '
  'Events fire exactly at their defined surfaces, and missing or collapsed cases are reported as undetermined.',
  ['inputs', 'configurations', 'histories'], 'all event histories and solution values on short grids, all sets of tracked events',
  'The tests run a few integrations and look at some of the attributes.',
  ['primpy/equations.py', 'primpy/events.py', INF, 'primpy/exceptionhandling.py', 'primpy/solver.py'],
  [('Equations.sol', 'primpy/equations.py'), ('event classes', 'primpy/events.py'), ('postprocessing_inflation_start, postprocessing_inflation_end', INF)])
P('C21', 'Version increments are recognised exactly',
  'The release check accepts a new version exactly when it is one increment above the old one: the next patch, minor or major version with lower '
  'parts reset, the next pre-release, the first pre-release of a later version, or the release of the current pre-release. Version parts compare as numbers. Bumping a version yields exactly the next one of the requested kind.',
  ['inputs'], 'all version numbers, with and without pre-release parts',
  'The script is not tested at all.',
  ['bin/utils.py', '.github/workflows/check_version.py'], [('unit_incremented', 'bin/utils.py'), ('unit_incremented', '.github/workflows/check_version.py')])
P('C22', 'Sampler spectra are the requested parametrisation',
  'The power-law and oscillation spectra handed to the sampler are the documented functions of amplitude, tilt, running and feature parameters at '
  'every wavenumber, with tensor amplitude and tilt following the single-field consistency relations when not given. Every documented parameter '
  'combination works, with missing parameters meaning no such effect, and contradictory ones are refused.',
  ['inputs', 'configurations'], 'all parameter values, every subset of optional parameters',
  'The tests do not cover the sampler wrappers.',
  ['cobaya_wrapper/powerlaw_pps.py', 'cobaya_wrapper/feature_pps.py'], [('calculate', 'cobaya_wrapper/powerlaw_pps.py'), ('calculate', 'cobaya_wrapper/feature_pps.py')])
P('C23', 'Slow-roll sampler returns the requested universe or refuses',
  'The slow-roll sampler components either hand over scalar and tensor spectra and derived parameters of one calibrated background of the named '
  'potential, with the requested amplitude (within tolerance), N_star or n_s, and reheating inputs, or refuse. Refusals happen exactly when '
  'the amplitude cannot be met in the allowed trials, reheating would happen above the energy density at the end of inflation (judged at the '
  'requested amplitude), or the reheating history is impossible: w_reh outside (-1/3, 1), negative duration, or an end after today.',
  ['inputs', 'configurations', 'histories'], 'all parameter subsets and values, arbitrary amplitudes in every trial of the shooting',
  'The tests do not cover the sampler wrappers.',
  ['cobaya_wrapper/slowroll_pps.py'], [('SlowRollPPS.calculate', 'cobaya_wrapper/slowroll_pps.py')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
print(len(OUT))
