#!/usr/bin/env python3
"""Single source of properties.jsonl (every property) -- run: python3 tools/props.py"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


A = 'aesolver/aesolver/'

prop('C01', 'Mode-pair combination sets hold every admissible pair exactly once',
     'For any two collections of distinct mode labels, in whatever order they are supplied, the symmetric product holds each unordered pair with one member from either collection exactly once (and the pairs of a label with itself exactly when the diagonal is requested and the label is in both collections); the single-set combinations hold each unordered pair of distinct members once, in supplied order; the cartesian combinations hold each ordered pair once. '
     'The advertised cardinality always equals the number of listed pairs.',
     ['inputs'], 'all finite collections A, B (lists or sets, any order, overlapping, nested, disjoint, empty, ints of either sign or strings), with and without diagonal',
     'The tests sample a handful of ascending small-integer collections; descending, unordered or hash-reordered collections never occur in them.',
     ['py-combinations/py_combinations/symmetric_product.py', 'py-combinations/py_combinations/single_set_combinations.py', 'py-combinations/py_combinations/cartesian_combinations.py'],
     [('set algebra over itertools.combinations', 'SymmetricProductCombos._compute_combinations'), ('binomial counting', '_compute_cardinality')],
     observe=['.l and .c of the three combination classes'])

prop('C02', 'Triad enumeration covers exactly the requested radial orders',
     'From the requested parent range and one or two daughter ranges, the enumerated mode triads are exactly every parent order combined with every admissible unordered daughter pair, each once, in an order in which parents vary slowest. '
     'The per-triad average radial order and asymmetry statistic stay aligned with the triads and equal the mean absolute order, and the parent order minus the absolute daughter difference.',
     ['configurations'], 'all parent/daughter radial-order ranges (overlapping, disjoint, single-element, equal) and absent second daughter range',
     'The tests use fixed small ranges and compare lengths or a few elements only.',
     [A + 'mode_input_generator/input_generator.py', 'py-combinations/py_combinations/symmetric_product.py'],
     [('cartesian product of parent range with daughter combinations', 'InputGen')],
     observe=['InputGen.combinations_radial_orders and statistics attributes'])

prop('C03', 'Pairing functions are injective and exactly inverted',
     'The Cantor pairing, its symmetric variant and the Xie symmetric variant map integer pairs to distinct codes (distinct unordered pairs for the symmetric variants), and each inverse returns exactly the pair that was encoded. ',
     ['inputs'], 'all pairs of non-negative integers whose code fits a 64-bit integer, scalars and arrays',
     'There is no test of the pairing functions at all.',
     ['py-combinations/pairing_functions/cantor_pairing.py', 'py-combinations/pairing_functions/symmetric_pairing.py', 'py-combinations/pairing_functions/xie_pairing.py'],
     [('triangular root', 'invert_cantor_pair')], observe=['module functions of pairing_functions'])

prop('D01', 'A triad passes the generic pre-check iff the selection rules allow it',
     'A mode triad is admitted exactly when the signed azimuthal orders (minus for conjugated modes, whatever the conjugation flags) sum to zero and the sum of the three modes\' degree-minus-absolute-azimuthal-order numbers is even; asked for a verdict per triad, each triad gets its own, and asked for a joint verdict it is the conjunction. '
     'The angular overlap integral follows the same azimuthal rule: it is zero whenever the signed azimuthal orders do not cancel.',
     ['inputs', 'configurations'], 'all (l,m) per mode, all conjugation flag tuples (given or defaulted), any number of triads per call, joint and per-triad verdicts',
     'Tests check isolated triads with the default conjugation and one fixed set of degrees.',
     [A + 'pre_checks/generic/generic_quadratic_checks.py', A + 'angular_integration/rotating_tar_angular/hough_integration.py'],
     [('azimuthal sum check', 'generic_quadratic_checks.py'), ('meridional parity check', 'generic_quadratic_checks.py')],
     observe=['generic_precheck result', 'HoughIntegration.quadratic_angular_integral value'])

prop('D02', 'The linear-stability gate admits exactly the three sign scenarios',
     'Given the linear driving/damping rates of a triad, the pre-check admits it exactly when the selection rules hold and it forms a stable parametric scenario (driven parent, damped daughters) or, for two equal modes, a stable direct scenario (damped sum mode, driven daughters); the separate scenario queries report the parametric, direct and general driven sign patterns; a triad failing a selection rule is never admitted.',
     ['inputs', 'configurations'], 'all sign patterns of the three rates (including zero), all selection-rule outcomes and switch settings',
     'Tests sample one or two sign patterns; the exhaustive table is not covered.',
     [A + 'pre_checks/specific/three_mode_checks.py'],
     [('rate sign checks', 'ThreeModePreChecks')], observe=['check verdict and per-check results'])

prop('D03', 'Fixed-point stability verdicts follow the published conditions',
     'For a three-mode fixed point the stability verdict is the conjunction of a negative sum of rates and the quartic condition on the quality factors and detuning; for two equal daughters, resp. a direct resonance, the verdict follows the corresponding reduced inequality. '
     'The verdict depends only on the triad\'s rates and detuning, never on the order in which checks are evaluated or on previously examined triads.',
     ['inputs', 'histories'], 'all rate triples and detunings of the modelled rational grid, any sequence of triads',
     'Tests evaluate the two forms of the criterion on a few fixed numbers.',
     [A + 'stability_checker/three_mode/stab_checker_quadratic_three_sum.py', A + 'stability_checker/two_mode/stab_checker_quadratic_two_sum.py'],
     [('Dziembowski condition', 'stab_checker_quadratic_three_sum.py')], observe=['check methods of the stability checkers'])

prop('D04', 'Hyperbolicity is granted only to non-degenerate fixed points',
     'A stationary solution is called hyperbolic exactly when the Jacobian of the amplitude-phase flow at it has a non-zero determinant and no eigenvalue with vanishing real part; the Jacobian is, up to rescaling of the amplitudes, the linearisation of the amplitude equations, and a Jacobian holding non-finite values is never called hyperbolic.',
     ['inputs'], 'real square Jacobians of the two- and three-mode systems on a grid of exact integer parameters',
     'Tests feed two or three hand-picked matrices.',
     [A + 'stability_checker/hyperbolicity/hyperbolicity_checker.py'], [('eigenvalue test', 'check_hyper')], observe=['HyperbolicityCheck functions'])

prop('D05', 'Stationary amplitudes solve the amplitude equations',
     'The stationary theoretical amplitudes and combination phase returned for a triad make the right-hand sides of the three coupled amplitude equations vanish, and swapping the two daughters swaps their amplitudes and changes nothing else.',
     ['inputs'], 'all driving/damping rates, detunings, frequencies and coupling coefficients of the rational grid (daughters on either side, both signs of the coupling)',
     'Tests compare with numbers produced by the implementation itself.',
     [A + 'stationary_solving/three_mode/three_mode_stationary.py', A + 'stationary_solving/generic/stationary_solve.py'],
     [('closed-form equilibrium amplitudes', 'ThreeModeStationary')], observe=['computed amplitude arrays and phases'])

prop('S01', 'A grid run yields exactly one aligned record per requested triad',
     'After a grid run every stored quantity has exactly one entry per requested triad in the enumeration order, and each entry is a function of that triad alone: reordering, removing or adding other triads never changes it, and no value leaks from a previously processed triad.',
     ['histories', 'configurations'], 'all sequences of triads with any mix of selection-rule, stability and two-mode outcomes',
     'The solver loop itself is not run by any test: the tests construct it with dummy inputs only.',
     [A + 'solver/quadratic_grid.py', A + 'solver/solver_base_classes/quadratic_solver.py'],
     [('per-triad loop and appends', 'QuadRotAESolverGrid.__call__')],
     state=[('stored records', 'coupling, frequency, amplitude, stability, hyperbolicity lists', 'solver_base_classes/quadratic_solver.py')],
     observe=['datasets handed to the saver after a run'])

prop('S02', 'Coupling is computed exactly for admitted triads',
     'The coupling coefficient and everything derived from it are computed for a triad exactly when its pre-checks are satisfied (or always when stationarity is not required); otherwise a neutral zero record marked not hyperbolic is stored in its place. '
     'An admitted triad is computed from its own three modes and the structure model, its equilibrium amplitudes and surface flux variations use that coupling coefficient and the eigenfunctions scaled by that triad\'s normalisation factors.',
     ['histories', 'configurations'], 'all sequences of admitted/rejected triads in stationary and non-stationary mode, with and without two-mode resonance',
     'No test runs the gating.',
     [A + 'solver/solver_base_classes/quadratic_solver.py'], [('gate on pre-check verdict', 'compute_mode_coupling')],
     observe=['coupling records handed to the saver'])

prop('S03', 'Validity of the traditional approximation splits the star consistently',
     'For a profile of rotation-to-structure frequency ratios and a threshold, every radial mesh point is assigned to exactly one of the valid/invalid zones and the reported zone boundaries are those at which the profile crosses the threshold.',
     ['inputs'], 'all valid/invalid patterns along the mesh (starting and ending either way, any number of crossings)',
     'No test covers the zone computation.',
     [A + 'solver/quadratic_profile.py'], [('mask edge detection', 'get_masking_info_tar_validity')], observe=['returned zone information'])

prop('H01', 'Every saved dataset holds the quantity its name says, row-aligned',
     'After a save, each dataset of the output file contains exactly the quantity described by its name for triad i in row i, whichever subset of outputs was requested, and reading the file back returns the stored values unchanged.',
     ['configurations', 'inputs'], 'all subsets of requested output groups, polytropic and stellar-evolution runs, any number of triads',
     'Tests check that files are created, not which value lies in which dataset.',
     [A + 'data_handling/unpacker.py', A + 'data_handling/data_specific/hdf5_saver.py', A + 'data_handling/enumeration_files/enum_hdf5_saver.py'],
     [('positional unpacking of record tuples', 'QuadraticAEsUnpacker')], observe=['HDF5 file contents'])

prop('H02', 'Write mode decides what survives repeated saves',
     'Over any history of saves to the same file: plain write mode leaves only the last save, append mode adds new datasets and never alters an existing one, read-write mode needs an existing file, replaces same-named datasets entirely (whatever their shape was) and keeps all others; attributes carry the values of the last save; other files are untouched.',
     ['histories'], 'all histories of saves with any mode and any overlap of dataset names, shapes and attributes',
     'Tests perform single saves.',
     [A + 'data_handling/data_specific/hdf5_saver.py', A + 'data_handling/data_specific/hdf5_specific/overwrite_dataset.py'],
     [('open mode handling and overwrite', '_create_overwrite_dataset')], observe=['HDF5 file contents after each save'])

prop('H03', 'Saved results are found again under the same configuration',
     'The file a run writes for a configuration is the one the loading side looks for under the same configuration, and two configurations that differ only in output directory, sub-directory, base name, extra specification or mode identification (degrees or azimuthal orders) never share a file.',
     ['configurations'], 'all configurations of output directories (with/without slashes), base names, specifications, mode identifications, suffixes',
     'Saver and loader are tested separately, with different literals.',
     [A + 'data_handling/storer.py', A + 'data_handling/data_specific/hdf5_saver.py', A + 'read_load_info/load_name_plots.py'],
     [('path templates', 'storer.py / load_name_plots.py')], observe=['paths created on disk and paths returned by the loader'])

prop('L01', 'Mode files are selected by their quantum numbers, one per mode',
     'From any directory listing, the file selected for a mode has exactly the requested degree, signed azimuthal order, radial order, mode type and additional substrings in its name; if no file or more than one file matches, the run stops instead of using another mode\'s file.',
     ['inputs', 'configurations'], 'all listings over files of different degree/azimuthal/radial order (including orders that are prefixes of each other), sign, type, and all substring filters',
     'Tests use one directory with distinct, non-colliding names.',
     [A + 'model_handling/subselection_classes.py', A + 'model_handling/read_models.py'],
     [('regular-expression sub-selection', 'GYREDetailSubSelector')], observe=['paths selected per mode, or termination'])

prop('L02', 'The structure file matches the requested stellar model',
     'From any directory listing the selected stellar-structure file is the regular file whose name contains every requested substring and ends in the selected suffix; for a stellar model (not a polytrope) never a file of the oscillation code (gyre/GYRE in its name). Several or no such files stop the run. A directory that was not given is only inferred when exactly one subdirectory carries its name.',
     ['inputs', 'configurations'], 'all listings over suffix, trailing text, substring, directory and oscillation-code variants of the wanted name',
     'Tests use one listing.',
     [A + 'model_handling/subselection_classes.py', A + 'model_handling/load_models.py'], [('sub-selection', 'MESAProfileSubSelector')], observe=['path selected, or termination'])

prop('L03', 'Units and dimensions of loaded models are converted exactly once',
     'Of every mode file, each quantity written as separate real and imaginary fields is recombined, each stellar property is brought to the requested unit system (cgs or SI, whatever the spelling), and each quantity the oscillation code gives in units of the star gets a dimensioned version that is the original times exactly the powers of stellar mass, radius and gravitational constant (or the pressure, density, temperature or luminosity) its physical dimensions call for; once, whatever else is loaded and in whatever order; all other quantities keep their value. Polytropic modes carry the mass and radius asked for.',
     ['inputs', 'histories'], 'all combinations of files/conversion switches, values chosen so that every factor is recognisable',
     'Tests read one file per kind and check presence of keys.',
     [A + 'model_handling/load_models.py', A + 'model_handling/enumeration_files/enumeration_dimensions.py', A + 'model_handling/enumeration_files/enumeration_models.py'],
     [('dimension enumeration', 'enumeration_dimensions.py')], observe=['converted dictionaries'])

prop('L04', 'A polytropic structure obeys the equations of stellar structure',
     'For a polytrope of any index, mass and radius, every profile derived from the solution of the Lane-Emden equation (density, pressure and gravitational potential with their radial derivatives up to the third, mass, gravity, the structure coefficients V, V2, U, c1, As, and the buoyancy frequency) satisfies at every layer the equations of mass conservation, Poisson and hydrostatic equilibrium with the polytropic relation between pressure and density, so that mass and radius are those asked for.',
     ['inputs'], 'all solutions (theta, dtheta/dz) on a mesh, all polytropic and adiabatic indices, masses, radii, unit systems',
     'Tests compare one recorded structure with stored numbers.',
     [A + 'polytropic_computations/poly_struct_comps.py', A + 'model_handling/load_models.py'], [('structure formulae', 'PolytropicAdditionalStructureInformation')], observe=['dictionary of the polytropic model'])

prop('L05', 'Model and mode files are read value for value',
     'Whatever columns, header values, widths of fields and number of layers a MESA text profile has (names and values set in columns, as MESA writes them), and whatever data sets and attributes an HDF5 mode or structure file holds, each requested quantity is loaded with exactly the written values, in the written order and number (a data set before an attribute, a column before a header value); quantities that are absent are not made up; each file is read by the reader of its suffix in any spelling of it, and an unknown suffix ends the run.',
     ['inputs'], 'all tables of fields of any width separated by any blanks, all header values, all combinations of data sets and attributes with or without colliding names',
     'Tests read one recorded file of each kind and check that keys are present.',
     [A + 'model_handling/read_models.py'], [('reader per suffix', 'ModelReader')], observe=['dictionary of loaded quantities, or termination'])

prop('V01', 'Coupling accumulated where the approximation fails is taken out',
     'For any hierarchy of frequencies through the model (zones where the traditional approximation is valid, or not, anywhere, including core and surface), the adjusted coupling profile at each layer of a valid zone is the coupling accumulated over the valid zones up to there, i.e. the profile minus what accumulated in all invalid zones below; what each invalid zone contributed and the coefficient with and without them at the surface are the ones returned, drawn and printed, and the theoretical amplitudes, threshold amplitude and surface fluxes are printed for both coefficients, those of the adjusted one being the plain ones times the ratio of the two.',
     ['inputs'], 'all sequences of valid/invalid layers and all cumulative profiles, one or several curves',
     'No test produces an adjusted profile.',
     [A + 'solver/quadratic_profile.py', A + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py'],
     [('adjusted profile', 'plot_template.py')], observe=['curves drawn, values returned and printed'])

prop('P02', 'A profile run draws, saves and reports its own triad, completely',
     'A run of the profile program saves, for the triad it was asked for, the figure of the adjusted coupling profile as pdf, the figure of plain and adjusted profiles as png, the figure of the contributions of the terms when asked and all sets of kernel figures when asked, in folders and under names made of the words that select the structure (without the last), the rotation, the save name and the radial orders, degrees and azimuthal orders of the triad, so that no figure of another triad, model or rotation is replaced. The panels show plain and adjusted curves over the mesh and the buoyancy frequency, shaded exactly where the approximation is valid, and colours of the legend are those of the curves. The report states the total coefficient, when asked those of the terms, the contributions of every zone, and the equations of the amplitudes for the kind of resonance at hand. All figures are shown once. A run without coupling, or whose zones cannot be told, draws and tells nothing.',
     ['inputs', 'configurations', 'histories'], 'all runs over small stars and curves, kinds of triads, requests for figures, words and rotations', 'No test performs a profile run to its end.',
     [A + 'solver/quadratic_profile.py', A + 'solver/profile_plot_classes/setup_for_plotting.py', A + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py'],
     [('the run', 'compute_mode_triad_profile'), ('panels', 'plot_template.py')], observe=['figures, names they are saved under, printed output'])

prop('P01', 'Population figures show every selected triad in its class and place',
     'For any set of solved models, the overview figure holds for every stable triad that is no harmonic, and for no other, one point per daughter with a known amplitude ratio, at the lowest nonlinear frequency of the triad and at that ratio, in exactly one class (isolated and valid, valid, or only stable), faint exactly when its frequency was mirrored; every class is in the legend once with its colour, and the upper axis shows the period of the frequency below it. The figure of the resonance sharpness shows, over one common set of adjoining bins, the percentage of the isolated and of the other stable and valid triads of all models together whose sharpness falls in each bin, with their numbers in the legend. Exactly the figures asked for are made, each saved once in every requested format, resolution and place.',
     ['inputs', 'configurations'], 'all small sets of models, tables of triads and requests for figures', 'No test makes these figures.',
     ['aesolver/aeplotter/overview_plot/plot.py', 'aesolver/aeplotter/overview_plot/figure_class.py', 'aesolver/aeplotter/resonance_sharpness/figure_class.py', 'aesolver/aeplotter/resonance_sharpness/plot.py', 'aesolver/aeplotter/quadratic_plotter.py'],
     [('points per class', 'plot_predicted_data_on_target_figure'), ('bars', '_plot_sharpness_histograms'), ('file names', '_store_save_path_and_info')], observe=['points, bars and legends of the figures; names they are saved under'])

prop('K01', 'A curve of a kernel figure is what its label states',
     'In every figure of radial or angular kernels of a mode triad, each curve is, at every mesh point, the quantity its label (with the panel title) states: for angular kernels the labelled number, times the cosine or over the sine where the label says so, times the product of the three labelled angular functions, the first of the first mode, the second of the second and the third of the third; for radial kernels, up to a multiplicity of 1/2, 1, 2 or 4 and a sign that the curves of a panel with the same background and functions share, the labelled background profiles times r^3 over the energy times the product of the three labelled radial functions in that order; angular curves are drawn against cos(theta), radial ones against r/R, the axis names the term the kernels belong to, the layers shaded in a radial panel are those where the traditional approximation is valid, and no figure overwrites another.',
     ['inputs'], 'all radial and angular functions of the modes and backgrounds, all terms and permutations',
     'No test draws a kernel.',
     [A + 'solver/profile_helper_classes/angular_kernels/', A + 'solver/profile_helper_classes/radial_kernels/', A + 'solver/profile_plot_classes/kernel_plots/'],
     [('products of functions', 'angular_kernel_helper.py'), ('products of functions and backgrounds', 'radial_kernel_helper.py')], observe=['labels and data of the lines drawn, titles, shaded regions, file names'])

prop('K02', 'The kernel figures of a coupling term show exactly its kernels',
     'Over the figures of a term of the coupling coefficient, the angular kernels shown (which angular function of which mode, over the sine or not) and the radial kernels shown (which radial function of which mode, with which background profiles) are exactly those that appear when the term (contraction of two displacement gradients with a divergence, product of divergences, contraction of three gradients, potential part) is multiplied out: none is missing for any assignment of the modes, and none is shown that does not occur.',
     ['inputs'], 'the full symbolic expansion of the four terms, all assignments of the three modes',
     'No test expands the terms.',
     [A + 'solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py', A + 'solver/profile_helper_classes/radial_kernels/radial_kernel_helper.py', A + 'solver/quadratic_profile.py'],
     [('lists of products', '_load_terms_third_contribution_cc')], observe=['labels of the lines drawn'])

prop('I01', 'A TOML inlist is read back verbatim, empty tables becoming none',
     'Reading a TOML inlist yields a nested mapping with the same keys and values, except that every empty table inside the document, at any depth of table nesting, becomes the null value (arrays are taken over verbatim); any set of requested keys is looked up hierarchically, yielding null when absent, and a negated request yields the negation of the value\'s truth.',
     ['inputs'], 'all nested tables up to the bounded depth with empty tables anywhere', 'The tests use a single flat file.',
     ['util-tools/inlist_handler/toml_inlist_handler.py', 'util-tools/generic_parser/generic_parser.py'],
     [('recursive replacement', 'TomlInlistHandler')], observe=['returned mapping'])

prop('I02', 'A custom inlist merges with its defaults by key and keeps types',
     'Reading a custom inlist gives, for each key, the user\'s value if present and the default otherwise, and every textual value is interpreted as exactly one of string, boolean, null, list, tuple, float or integer by its documented form, independent of key order.',
     ['inputs', 'configurations'], 'all default/user key subsets, all value forms', 'Tests parse one file.',
     ['util-tools/inlist_handler/inlist_handler.py'], [('typed parsing', 'InlistHandler')], observe=['returned mapping'])

prop('I03', 'Configuration paths resolve by a fixed precedence',
     'A path is resolved to the first existing candidate of the documented order and to an error when none exists, whatever subset of candidates is present.',
     ['configurations', 'inputs'], 'all subsets of existing candidates, absolute and relative names, missing arguments', 'Tests cover a few subsets.',
     ['util-tools/path_resolver/resolve_paths.py'], [('ordered existence tests', 'resolve_path_to_file')], observe=['returned path or exception'])

prop('I04', 'The generic parser initialises from either calling form or fails loudly',
     'An inlist parser is ready only if constructed from a full path or from a directory plus name; otherwise all reasons are reported; requested keys (or, negated, all other keys) are returned in order with nothing extra.',
     ['inputs', 'configurations'], 'all argument forms and all key subsets', 'Tests cover individual forms.',
     ['util-tools/generic_parser/generic_parser.py'], [('fall-through of initialisers', 'GenericParser')], observe=['parser attributes, return values, exceptions'])

prop('I05', 'A run executes exactly one solver kind, chosen by its arguments',
     'From the command-line arguments and the inlist, exactly one of a grid run or a profile run is executed, with the parsed information; contradictory or missing choices and wrong argument counts stop before any computation starts, and logging verbosity never changes which run is executed.',
     ['configurations', 'histories'], 'all argument counts and flag combinations', 'The runner is not executed by tests.',
     ['aesolver/aerunners/solve_quadratic.py', 'aesolver/aerunners/data_modules/utility_functions.py'],
     [('mode dispatch', 'solve_quadratic.py')], observe=['which solver is constructed/called; exceptions'])

prop('I06', 'Plotting and analysis runs do exactly what their inlist selects',
     'From the command-line arguments and the inlist, a plotting run builds one plotter and an analysis run one analyser, each given every setting for loading, plotting and saving under its name with the value of the inlist (nothing where the inlist has none, standard file names exactly when custom ones are not asked for); the plotting run then makes the figures once and shows them exactly when asked; the analysis run prints exactly the analyses asked for, once each; wrong argument counts or a missing inlist stop the run before anything is built.',
     ['configurations'], 'all argument counts, inlist places and selections, with missing and void entries', 'The runners are not executed by tests.',
     ['aesolver/aerunners/plot_quadratic.py', 'aesolver/aerunners/analyze_quadratic.py'],
     [('inlist to arguments', 'read_toml_args'), ('selection of analyses', '_analyze_and_print_analysis')], observe=['what plotter and analyser are built with and asked to do'])

prop('I07', 'The models of a triad are read from where the settings of the run say',
     'Every information-folder setting, given in the inlist or in a file of labelled lines in any order, reaches the run under its name and unchanged (a list becomes a tuple exactly when asked for; unknown labels and missing files stop before anything is read), and for every triad, whatever was loaded before, the adiabatic modes, the non-adiabatic modes and the stellar structure (or polytrope and its modes) are those that the settings\' folders, words and endings single out; files elsewhere never matter, and a missing or ambiguous one stops the run.',
     ['configurations', 'inputs', 'histories'], 'all forms of settings and selections, over folders holding files of the same names, with missing and ambiguous files and repeated loads', 'Tests replace the loader or the settings.',
     [A + 'read_load_info/read_info_dirs.py', A + 'read_load_info/enumeration_files/enumeration_read.py', A + 'solver/solver_base_classes/quadratic_solver.py', A + 'solver/quadratic_grid.py', A + 'solver/quadratic_profile.py'],
     [('settings to dictionary', 'InformationDirectoriesHandler'), ('loading of a triad', 'load_nonradial_mode_triad')], observe=['dictionaries of settings', 'identity of the loaded files'])

prop('F01', 'Frequencies of one triad agree across frames and units',
     'For each mode the inertial and co-rotating frequencies differ by exactly the azimuthal order times the rotation rate, linear and angular values by 2*pi, the spin factor is twice the rotation rate over the co-rotating frequency, and dimensionless values are the dimensional ones over the model\'s unit, whatever unit and frame the inputs come in.',
     ['inputs', 'configurations'], 'all input units, frames, angular/linear flags, azimuthal orders and rotation rates', 'Tests cover one frame and unit combination.',
     [A + 'frequency_handling/frequency_handler.py', A + 'frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py'],
     [('frame/unit conversions', 'FrequencyHandler')], observe=['public frequency attributes'])

prop('F02', 'Detunings, rates and quality factors are mutually consistent',
     'The detuning is the parent\'s co-rotating frequency minus the daughters\' sum in every unit in which it is reported, the quality factors are frequency over rate, the scaled detunings are the detuning over the rate sum and the parent rate, and these do not depend on processing order of triads.',
     ['inputs', 'histories'], 'all rational frequencies and signed rates', 'Tests check attribute types.',
     [A + 'frequency_handling/frequency_handler.py'], [('detuning/driving-rate bookkeeping', 'FrequencyHandler')], observe=['public attributes'])

prop('N01', 'Numerical integrators are exact on their class and path-independent',
     'Integration by the trapezoidal rule is exact for piecewise-linear data on any mesh and by the Simpson rule for cubic data on an equally spaced mesh with an odd number of points (other meshes fall back to the trapezoidal rule); results are linear in the integrand, reverse sign-consistently, and do not depend on thread count or on the parallel switch; the two disc integrals cover exactly the visible hemisphere (0 <= mu <= 1) with the limb-darkening weight, on any mesh of the cosine, equally spaced or not (the mesh of Hough functions is not).',
     ['inputs', 'schedules', 'configurations'], 'all bounded integer meshes and integrands, all thread counts, real/complex', 'Tests check single integrals.',
     ['cpp-numintegrator', 'cpp-disc-integrator', 'cpp-ld-funcs'], [('quadrature loops', 'cpp-numintegrator/num_integrator')], observe=['integrate() results'])

prop('N07', 'Angular integrals of a triad integrate the right product under the right rule',
     'The angular integral of a list of functions is 2 pi times the quadrature, on the mesh they are given on (equally spaced or not), of their product (times cos or over sin of the colatitude when asked) when the azimuthal selection rule holds under the requested conjugations, and zero otherwise; Chebyshev-Gauss integration, or blow-up protection when the regular result is too large in magnitude, gives the same integral; the functions themselves are unchanged, and normalisation factors make the norm of a function one.',
     ['inputs', 'configurations'], 'all small products, meshes, azimuthal orders, conjugations, rules, thread counts', 'Tests cover single integrals.',
     [A + 'angular_integration/rotating_tar_angular/hough_integration.py', 'hough-func-tools/hough_function/hough_normalizer.py'], [('integrand assembly', '_compute_theta_integral')], observe=['integral values'])

prop('N08', 'Each mode of a triad gets its own angular functions, on norm one',
     'The eigenvalues of the tidal equations of a triad are those of the modes\' own files if all three have one, and otherwise those of the tables in the folder given (or named by the environment), for each mode the table of its own azimuthal order (of either sign) and ordering number l - |m| at its own spin factor, in the order of the modes; without a usable folder or a needed table the program stops. All angular functions of a mode are those of its own degree, azimuthal order, spin factor and eigenvalue on one common mesh, scaled by one common factor such that 2 pi times the integral of the squared radial function is one, and the disc integrals of each mode are computed from its own functions and their derivatives to the cosine.',
     ['inputs', 'configurations', 'faults'], 'all small triads, with and without eigenvalues in the files, all sets of tables, usable and unusable folders', 'No test constructs a coupling coefficient, and none retrieves eigenvalues from tables.',
     [A + 'coupling_coefficients/quadratic_coupling_coefficient_rotating.py', 'gyre-tools/lam_tar_gyre/lam_tar_gyre.py', A + 'solver/solver_base_classes/quadratic_solver.py'], [('angular functions of a triad', '_store_houghs'), ('tables', 'GyreLambdas')], observe=['angular functions of the coupling object', 'eigenvalues', 'disc integrals'])

prop('N02', 'Numerical differentiation keeps the mesh and is exact on its class',
     'The derivative is returned at exactly the input points, for every method and derivative order, with or without internal refinement, and is exact for polynomials within the method\'s order.',
     ['inputs', 'configurations'], 'all methods, mesh sizes, refinement factors, derivative orders', 'Tests use a single mesh size and factor.',
     ['num-tools/num_deriv/num_deriv.py', 'fornberg-num-deriv'], [('stencils', 'num_deriv.py')], observe=['differentiate() results'])

prop('N03', 'Histogram backends agree, conserve counts, choose the best binning',
     'For data with at least two distinct valid values (or with one valid value, or none) on unshifted bins, every histogram backend returns the bins of equal width, or of equal width in the logarithm, that span the valid data, with every valid value counted in exactly one bin and missing values nowhere, shown as counts, as parts adding up to one or as a density integrating to one; the number of bins and the smoothing chosen are those of largest leave-one-out likelihood among the ones offered; a histogram on given bins shows all of them; the figure of the resonance sharpness uses one common binning for isolated and other triads.',
     ['inputs', 'configurations'], 'all small integer data sets (ties, single values, missing values, negative, logarithmic), all backends', 'Compiled backend is skipped in tests and no test compares backends.',
     ['histogram_maker/hogg_jacky', 'aesolver/aeplotter/resonance_sharpness/histogram.py'], [('jackknife likelihood', 'hogg_jacky backends'), ('figure data', 'get_sharpness_histogram_plot_data')], observe=['returned tuples'])

prop('N04', 'Angular eigenfunctions derive exactly from the radial Hough function',
     'For a radial Hough function of any spin parameter and azimuthal order, the horizontal functions, all first and second derivatives (in the cosine and in the colatitude) and the azimuthal terms are those the tidal equations prescribe in the chosen definition, on both hemispheres, with the divergence of the horizontal displacement equal to the tidal operator; the eigenfunction picked is the one whose real negative eigenvalue is nearest to the one wanted; without rotation the functions are the associated Legendre functions.',
     ['inputs', 'configurations'], 'all small polynomial radial functions, spin parameters, azimuthal orders, definitions, eigenvalue lists', 'No active test checks the values of any angular function.',
     ['hough-func-tools/hough_function/hough_function.py', 'hough-func-tools/cheby_transform/cheby_transform.py', A + 'angular_integration/rotating_tar_angular/hough_function_handler.py'], [('parity mirroring', 'neg_mu_*'), ('derived functions', '_get_latitudinal_hough, _get_azimuthal_hough, _get_derivatives'), ('azimuthal terms', 'theta_phi_hough_tilde, phi_phi_hough_tilde')], observe=['full-range arrays'])

prop('N05', 'Eigenfunction normalisation converges or reports, and scales consistently',
     'The norm and energy of a mode are the volume integrals that define them; after normalisation every radial eigenfunction component of a mode, and nothing else, has been multiplied by one common factor, the one reported, which brings its norm or energy to the target of the convention; when iteration is asked for, only modes still off target are scaled again, for at most the allowed number of rounds, and a mode is reported off exactly when it is.',
     ['inputs', 'histories'], 'all small eigenfunctions, both conventions, all sequences of observed energies, iteration limits', 'Tests normalise one model.',
     ['gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py', A + 'coupling_coefficients/quadratic_coupling_coefficient_rotating.py'], [('iterative refinement', 'GYREEigenFunctionNormalizer'), ('energies', 'compute_b_a_mode_energy')], observe=['normalising factors, check array, eigenfunctions'])

prop('N06', 'Mode-data cutting and conversions preserve every sample',
     'Complex quantities read as separate real and imaginary fields (arrays or single records) are recombined element by element in the given units; cutting a group of profiles takes the same slice of every profile of the group and changes no other, an unknown group ends the program with nothing cut; a frequency unit gets the same name whether it is given as text or as bytes, an unknown one none.',
     ['inputs'], 'all small arrays, slices and groups, all unit names', 'Tests use single arrays.',
     ['num-tools/carr_conv/carr_conv.py', 'gyre-tools/gyre_cutter/gyre_cutter.py', 'gyre-tools/gyre_unit_converter/gyre_unit_converter.py'], [('array zips', 'carr_conv.py')], observe=['returned arrays, attributes of the cut object'])

prop('M01', 'Analysis masks select isolated, stable, valid triads and nothing else',
     'A triad is selected as isolated exactly when its own threshold amplitude is the lowest among the triads of its parent and among those of each daughter, and the next-lowest threshold of its parent exceeds its equilibrium amplitude; stability is the three recorded stability checks, validity of the amplitude equations a detuning of at most a tenth of the smallest corotating frequency, and every selection the analyser and plotter keep (stable, valid, isolated, not isolated, restricted to bright thresholds or small detunings) is the plain conjunction of these per model.',
     ['inputs', 'histories'], 'all small tables of triads sharing modes, thresholds and amplitudes', 'No test covers the analysis masks.',
     ['aesolver/ae_analyzer/library_functions/masking.py', 'aesolver/aeplotter/library_functions/masking.py'], [('threshold maps', 'masking.py')], observe=['returned masks'])

prop('M02', 'The analysis side reads the datasets the solver side writes',
     'Every dataset path the analyser or plotter asks for exists in a file written by the solver with all outputs enabled, and what the analyser or plotter then holds for a triad (modes, frequencies, rates, coefficients, amplitudes, phases, checks, rotation, spin, detuning) equals what the solver computed for that triad.',
     ['configurations'], 'all data paths of the analyser and plotter', 'No test links the two sides.',
     ['aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py', 'aesolver/aeplotter/data_files/hdf5_data_path_mapper.py', A + 'data_handling/enumeration_files/enum_hdf5_saver.py'], [('path maps', 'hdf5_data_path_mapper.py')], observe=['HDF5 paths'])

prop('M03', 'Derived analysis quantities follow from the saved ones',
     'For every triad, the analyser and the plotter derive the detuning, rotation frequency, spin parameters, unit conversions, threshold in ppm, amplitude ratios, quality factor, nonlinear frequency shifts (which lock the triad) and validity estimators from the saved quantities of that triad by their definitions, and negative nonlinear frequencies are shown at their alias within the observed band.',
     ['inputs', 'configurations'], 'all small tables of rational frequencies and rates, sign scenarios, azimuthal orders, missing amplitudes', 'No test covers the analysis quantities.',
     ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py', 'aesolver/aeplotter/quadratic_plotter.py', 'aesolver/ae_analyzer/utility_functions.py'], [('derivation chain', '_load_and_compute_data')], observe=['analyser and plotter data dictionaries'])

prop('M04', 'Models are analysed apart, all their files together',
     'Each requested model gets its own table, holding the rows of all its files in order and of no other model; quantum numbers, sharpness data and the printed triad counts per model are those of that table, and totals are sums over the models.',
     ['configurations', 'histories'], 'all layouts of models over files (one or several, given singly or as lists)', 'No test loads more than one model.',
     ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py', 'aesolver/aeplotter/quadratic_plotter.py', 'aesolver/aeplotter/resonance_sharpness/histogram.py'], [('file lists per model', '_load_analysis_data')], observe=['data dictionaries, printed counts'])

prop('M05', 'The printed properties of isolated triads are those of these triads',
     'For every model, the three printed lists (mode properties, stability and validity estimators, observables) hold exactly the stable, valid and isolated triads of that model, in the order of its table, and under every caption the quantity it names in the unit it names, of the triad in the same place: radial orders, detuning, rates and their sum, corotating frequencies, largest spin parameter, validity parameter, scaled detunings, ratios of rates, coupling coefficient, largest relative frequency shift, combination phase and amplitude ratios.',
     ['inputs', 'configurations'], 'all small sets of models and tables of triads', 'No test prints these lists.',
     ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py'], [('printed lists', 'generate_isolated_triad_*')], observe=['printed output'])

prop('U01', 'Interactive combination choice always ends in a valid choice',
     'Whatever a user types, the interactive choice of a triad never crashes and never accepts anything but the number of an offered combination, asking again on invalid input.',
     ['inputs', 'histories'], 'all input sequences over numbers inside/outside the range, negatives, non-numbers', 'No test covers polling.',
     [A + 'solver/profile_helper_classes/input_user/user_poller.py'], [('retry loop', 'poll_user_profile_for_combination_number')], observe=['returned index, prompts'])

prop('Q01', 'Coupling coefficients equal their definition, symmetric in the modes',
     'The four terms of the coupling coefficient of a triad equal the symmetrised volume integrals of products of displacements and displacement gradients that define them, whatever the mesh, profiles, quadrature rule, selection-rule conjugation and thread count; they add up to the coefficient, which is normalised by the energy of the first mode, vanishes when the azimuthal selection rule fails, does not depend on the order in which the modes are listed, and whose running profile over radius ends at the coefficient; the mode data are not changed.',
     ['inputs', 'configurations'], 'all triads of small integer eigenfunctions on all small meshes, both rules, all conjugations, polytropic or not, with and without adiabatic derivative', 'Tests compare one value of one stellar model.',
     [A + 'coupling_coefficients/quadratic_coupling_coefficient_rotating.py', A + 'coupling_coefficients/super_coupling_coefficients.py'], [('symmetrised term tables', '_kappa_1_abc ... _kappa_4_abc'), ('symmetrised permutations', '_symmetrization_s_term_integral'), ('running profile', 'adiabatic_coupling_rot_profile')], observe=['coupling terms, coefficient, normalised coefficient, profiles'])

prop('Q02', 'Radial profiles of a triad follow from the files of its modes and star',
     'The coupling coefficient works on one mesh, that of the mode with most points without centre and surface, on which every profile is the given one or its linear interpolation; the displacement functions follow from the eigenfunctions, their radial derivatives and the divergence from the adiabatic oscillation equations (or, on request, from differentiation on the mesh), and the derivatives of gravity, density and pressure from hydrostatic equilibrium, mass conservation and the buoyancy frequency (or from differentiation, or from the polytropic solution), scaled by the largest pressure and density; modes are put in at their own frequency, degree and angular eigenvalue.',
     ['inputs', 'configurations'], 'all small stars and eigenfunctions, on equal and unequal meshes, from stellar models and polytropes, with symbolic and numerical derivatives', 'Tests compare one mock model whose profiles are all constant, on equal meshes, with symbolic derivatives.',
     [A + 'coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py', A + 'coupling_coefficients/coefficient_support_classes/coupling_coefficient_rotating.py', 'gyre-tools/gyre_cutter/gyre_cutter.py'], [('interpolation', '_interpolation_modes, _extract_additional_profile_info'), ('structure derivatives', '_get_profiles_MESA_GYRE'), ('radial derivatives', '_compute_radial_gradients')], observe=['profiles of the coupling object'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            p['statement'] = p['statement'].strip()
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
