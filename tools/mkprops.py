"""Writes properties.jsonl (run once by hand when the texts change)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Reaction text means what it says",
  "Every reaction written in the documented notation is read back as exactly the states, coefficients, species, site types and site counts that were written, whatever the order of terms and the spacing around '+' and the arrows. The species lists a model derives from its reactions (gases, liquids, adsorbates, transition states, site types) are duplicate-free, sorted, and contain every species that occurs and nothing else.",
  ["inputs", "configurations"], "All reactions over a term grammar (coefficients including multi-digit ones, multi-letter elements, multi-dentate sites, 2 and 3 states, up to 3 terms a state, spacing variants) and all models built from up to 3 of them.",
  "The tests parse about ten literal strings, all with one-digit coefficients and one-letter elements; the guarantee is over every expression a user may write.",
  ["scaks/parsers/rxn_parser.py", "scaks/parsers/parser_base.py", "scaks/models/kinetic_model.py"],
  [("equation/state/formula splitting", "rxn_parser.py RxnEquation, ChemState, ChemFormula"), ("classification", "parser_base.py parse_elementary_rxns")],
  ["RxnEquation.tolist/to_formula_list", "ChemFormula queries", "model.gas_names, adsorbate_names, liquid_names, site_names, transition_state_names"])

p("C02", "Only balanced reactions are accepted",
  "A reaction passes the conservation check, and a model can be built from it, if and only if all of its states (initial, transition, final) contain the same number of atoms of every element and the same number of sites of every type; otherwise it is refused with an error.",
  ["inputs"], "All pairs and triples of states over a bounded term alphabet, balanced and unbalanced, including multi-letter elements, repeated species and multi-dentate sites.",
  "The tests check a handful of balanced and unbalanced strings; a wrong count that needs a repeated term, a coefficient or a third state to show is not reached.",
  ["scaks/parsers/rxn_parser.py", "scaks/parsers/parser_base.py"],
  [("element and site totals", "rxn_parser.py get_elements_dict, get_sites_dict, conserve, check_conservation"), ("construction-time check", "parser_base.py parse_elementary_rxns")],
  ["RxnEquation.check_conservation", "ChemState.conserve", "model construction"])

p("C03", "Reversing a reaction swaps its two directions and nothing else",
  "The reverse of a reaction has the same states in opposite order, so that reversing twice gives back the original, balance is preserved, gases adsorbed by the one are the gases desorbed by the other, and the typeset form shows the same states. A model that lists a step in reverse, with the correspondingly exchanged energies, has the same coverage derivatives and the same turnover frequencies, with forward and reverse rates exchanged.",
  ["inputs", "configurations"], "All balanced reactions over a bounded term alphabet with 2 and 3 states; all mechanisms of up to two such steps with each subset of steps reversed.",
  "The tests reverse one reaction; the relation is between two runs over every reaction.",
  ["scaks/parsers/rxn_parser.py", "scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py"],
  [("revert", "rxn_parser.py RxnEquation.revert"), ("gas queries", "adsorption_gases, desorption_gases")],
  ["RxnEquation.revert/texen/adsorption_gases/desorption_gases", "solver rates, derivatives and TOFs"])

p("C04", "Stoichiometric matrices record the net change of every species",
  "For every mechanism the matrices a model reports contain, for each elementary step and each intermediate, free site, gas and liquid, exactly the amount consumed minus the amount produced by one forward event. Weighted with the atoms (and sites) each species carries, every row sums to zero.",
  ["configurations", "inputs"], "All mechanisms of up to three steps over bounded term alphabets, including autocatalytic steps, species on both sides, several site types, liquids and multi-dentate species.",
  "The tests compare one matrix for one mechanism.",
  ["scaks/parsers/parser_base.py"], [("accumulation over initial and final state", "parser_base.py get_stoichiometry_matrices")],
  ["model.parser.get_stoichiometry_matrices"])

p("C05", "The overall reaction is the intermediate-free combination of the steps",
  "For a mechanism with a single catalytic cycle the overall equation reported is balanced, contains gases and liquids only, no intermediate, no spectator with coefficient zero, and its coefficients are the smallest whole numbers proportional to the combination of steps that leaves every intermediate unchanged.",
  ["configurations"], "A bounded family of single-cycle mechanisms with step multiplicities up to 4, each with every order of its steps and every subset of steps written in reverse.",
  "The tests check one mechanism in one order; rounding and null-space sign or scale depend on the order, direction and multiplicities.",
  ["scaks/parsers/parser_base.py"], [("null space of the intermediates' matrix", "parser_base.py get_total_rxn_equation")],
  ["model.parser.get_total_rxn_equation"])

p("C06", "Barriers and reaction energies are differences of state energies",
  "From absolute energies every step's forward barrier, reverse barrier and reaction energy are the differences between the coefficient-weighted sums of its species' energies in the initial, transition and final state, a step without transition state having its higher end as barrier top. Hence forward minus reverse barrier is the reaction energy, and the reaction energies add up to zero around every closed cycle of steps.",
  ["inputs", "configurations"], "All small mechanisms over bounded term alphabets (repeated terms, coefficients, transition states) with all assignments of energies from a small set.",
  "The tests compare one energy file; path independence is a relation over all assignments.",
  ["scaks/parsers/parser_base.py", "scaks/parsers/absolute_energy_parser.py"],
  [("state energy sums", "parser_base.py _get_state_energy, _get_single_relative_energies"), ("loading", "absolute_energy_parser.py parse_data")],
  ["model.relative_energies after parse_data"])

p("C07", "Relative-energy input is taken over consistently",
  "Given a barrier and a reaction energy per step, the model uses that barrier and energy unchanged, except that a barrierless endothermic step gets its reaction energy as forward barrier, and the reverse barrier is always the forward barrier minus the reaction energy, so no barrierless step gets a negative barrier. Data that do not have exactly one barrier and one energy per step are refused and leave no energies loaded, and loading from a file or from memory gives the same result.",
  ["inputs", "histories"], "All assignments of (barrier, energy) from a small value set to up to three steps, all length mismatches, file and in-memory loading, and repeated loads.",
  "The tests load two fixed files; the special case and the length check depend on the values and on which of the two lists is wrong.",
  ["scaks/parsers/relative_energy_parser.py"], [("shape check and barrier correction", "relative_energy_parser.py parse_data")],
  ["model.relative_energies, model.has_relative_energy"])

p("C08", "Rate constants obey transition state theory and detailed balance",
  "For every temperature and every pair of barriers the forward and reverse constants of a step are (kB*T/h)*exp(-G/(kB*T)) of that step's own barriers at the model's own temperature, to the model's declared precision, and their ratio is the equilibrium constant of the step. The energies used are the ones passed in, or the model's if none are passed; energies lacking either barrier list are refused with a ParameterError.",
  ["inputs", "configurations", "histories"], "All combinations of temperatures, barrier pairs, precisions and step counts from small sets, for explicit and model energies, and repeated calls with changed energies.",
  "The tests compare one mechanism at one temperature, to which the cached results of an earlier test may contribute.",
  ["scaks/solvers/solver_base.py", "scaks/solvers/mean_field_solver.py", "scaks/descriptors/descriptors.py"],
  [("kTST", "solver_base.py get_kTST"), ("per-step loop", "mean_field_solver.py get_rate_constants"), ("result cache", "descriptors.py Memoized")],
  ["model.solver.get_rate_constants, get_kTST, get_rxn_rates_TST"])

p("C09", "Event rates include each gas's pressure once per molecule",
  "When pressures are included, the rate of a step direction is its rate constant multiplied by the pressure of every gas that direction consumes, once per molecule consumed, and directions that consume no gas are unaffected. Under collision theory the adsorption rate is the impingement rate p*A/sqrt(2*pi*m*kB*T) times the active fraction and the Boltzmann factor of the barrier, refused if the active fraction or sticking factor exceeds one or the cell area is not positive, and the barrier equivalent to a rate reproduces that rate. A mean-field model that selects collision theory has these constants for each of its steps, and an unknown algorithm is refused. (Collision theory applies to the adsorption of a single gas molecule.)",
  ["inputs", "configurations"], "All adsorption, desorption and surface steps over a bounded alphabet with coefficients 1 to 3 and one or two gases, all pressures, temperatures and rate algorithms from small sets.",
  "Kinetic Monte Carlo tests do not run here and the ones present never give a gas a coefficient.",
  ["scaks/solvers/solver_base.py", "scaks/solvers/kmc_solver.py"],
  [("pressure factors", "solver_base.py get_rxn_rates_TST, get_rxn_rates_CT"), ("impingement rate", "get_kCT, get_TST_barrier_from_CT")],
  ["solver.get_rxn_rates_TST/CT(include_pressure=True)", "rate constants of KMC processes"])

p("C10", "Reaction rates follow the law of mass action",
  "For every mechanism, coverages, pressures and concentrations, the forward (reverse) rate of a step equals its forward (reverse) constant times the product of the activities of all initial (final) species, each to the power of its coefficient, a free site counting as its total minus the coverages of the adsorbates on that site type. Net rates are forward minus reverse, and turnover frequencies are net rates weighted with the net production of each gas and liquid.",
  ["inputs", "configurations"], "All one- and two-step mechanisms over bounded term alphabets (gases, liquids, two site types, repeated terms, coefficients up to 3 and multi-digit), on a grid of coverages and conditions.",
  "The tests evaluate one CO oxidation mechanism at one coverage.",
  ["scaks/solvers/mean_field_solver.py"], [("rate expressions", "mean_field_solver.py get_elementary_rate_expression, get_rates, get_net_rates, get_tof"), ("free sites", "_cvg_tuple2dict")],
  ["solver.get_rates, get_net_rates, get_tof, get_reversibilities"])

p("C11", "Coverage derivatives are the net production by all steps",
  "For every mechanism and state, the time derivative of each adsorbate's coverage is the sum over the steps of its net stoichiometric production times the step's net rate. In particular a species that a step does not change gets nothing from that step, and the sites of each type are conserved.",
  ["inputs", "configurations"], "All one- and two-step mechanisms over bounded term alphabets, including autocatalytic and both-sided steps, repeated terms and coefficients above one, on a grid of coverages.",
  "The tests evaluate one mechanism in which every adsorbate occurs once per step.",
  ["scaks/solvers/steady_state_solver.py"], [("dtheta/dt construction", "steady_state_solver.py get_elementary_dtheta_dt_expression, get_adsorbate_dtheta_dt_expression, steady_state_function")],
  ["solver.steady_state_function, get_residual"])

p("C12", "The analytical Jacobian is the derivative of the coverage derivatives",
  "For every mechanism and every coverage the analytical Jacobian equals, entry by entry, the partial derivative of the coverage derivatives with respect to the coverages, the free-site coverages being functions of them.",
  ["inputs", "configurations"], "All one- and two-step mechanisms over bounded term alphabets on a grid of coverages, including steps with both an adsorbate and its free site on one side, powers, several site types and adsorbates that do not interact.",
  "The tests compare one mechanism, in which no reverse direction contains both an adsorbate and a free site.",
  ["scaks/solvers/steady_state_solver.py"], [("string differentiation", "steady_state_solver.py poly_adsorbate_derivation, analytical_jacobian")],
  ["solver.analytical_jacobian"])

p("C13", "The symbolic and the numeric solver paths agree",
  "For every mechanism, coverage and condition, rate constants, forward, reverse and net rates, turnover frequencies, coverage derivatives and the Jacobian obtained by substituting into the symbolic expressions equal the ones computed numerically.",
  ["inputs", "configurations"], "All one-step and selected two-step mechanisms over bounded term alphabets with one to three adsorbates, gases and liquids, on a grid of coverages and energies.",
  "The tests compare each path with its own literals for one mechanism with two adsorbates and no liquid, and the literals for derivatives differ.",
  ["scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py"],
  [("symbol tables and substitution", "mean_field_solver.py get_data_symbols, get_subs_dict, *_by_sym"), ("symbolic derivatives", "steady_state_solver.py *_sym, *_by_sym")],
  ["solver.*_by_sym against their numeric counterparts"])

p("C14", "A returned steady state is physical and stationary",
  "Whenever the steady-state search returns coverages, every coverage derivative at them is below the tolerance for the energies that were asked for, all coverages are non-negative, and the coverages on each site type do not exceed its total; the reported error belongs to these coverages. This holds for every root finder, every start and every sequence of restart guesses, and a search that has no restart guesses left reports failure instead of a state. (The search is get_steady_state_cvgs with an iterative root finder; one site type's total is kept to within the tolerance.)",
  ["inputs", "configurations", "histories"], "A catalogue of mechanisms times root finders, energies, all start points on a grid including ones outside the physical region, single-point mode, and all sequences of restart guesses from a small menu (physical, unphysical, singular, steady).",
  "The tests start from one good guess on one mechanism.",
  ["scaks/solvers/steady_state_solver.py", "scaks/solvers/rootfinding_iterators.py"],
  [("acceptance test", "steady_state_solver.py get_steady_state_cvgs"), ("constraining", "__constrain_coverages"), ("iterations", "rootfinding_iterators.py")],
  ["solver.get_steady_state_cvgs, solver.error, solver.coverages"])

p("C15", "Steady turnover conserves atoms and vanishes at equilibrium",
  "At a steady state the turnover frequencies of the gases conserve every element, and match the overall reaction. (A search that finds no steady state claims nothing.) If the gas pressures are in chemical equilibrium for the overall reaction, all net rates and turnover frequencies vanish and every reversibility is one; away from equilibrium the turnover has the sign of the driving force.",
  ["inputs", "configurations"], "A catalogue of mechanisms with all assignments of species energies, barriers and pressures from small sets, at, above and below equilibrium.",
  "The tests compare turnover literals for one condition.",
  ["scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py", "scaks/models/micro_kinetic_model.py"],
  [("rates and TOF", "mean_field_solver.py"), ("run", "micro_kinetic_model.py run")],
  ["model.run, model.TOFs, model.reversibilities, model.steady_state_coverages"])

p("C16", "Degrees of rate control are the log-sensitivities of the turnover",
  "The degree of rate control of each step equals the relative change of the product's turnover per relative change of that step's forward constant with its equilibrium constant held fixed, and for small perturbations the degrees of all steps add up to one, up to the order of the perturbation. Computing them leaves the model's energies and its steady state as they were.",
  ["inputs", "configurations", "histories"], "A catalogue of mechanisms, products, energies and perturbation sizes, and repeated calls in all orders.",
  "The tests compare one vector of literals; the sum rule and the absence of side effects are relations over all inputs.",
  ["scaks/solvers/steady_state_solver.py"], [("perturbed re-solution", "steady_state_solver.py get_single_XRC")],
  ["solver.get_single_XRC, model.relative_energies afterwards"])

p("C17", "Time integration follows the rate equations and records every output",
  "Integrating from given coverages returns the state that the coverage derivatives lead to at the returned time, which is not earlier than the requested end. The trajectory file, executed, gives equally long lists of times and coverages containing exactly the integration steps due for output, in order, with times increasing.",
  ["inputs", "configurations"], "Mechanisms with known closed-form relaxation, all combinations of start, end, step, output interval and integrator from small sets.",
  "The tests integrate one mechanism and look at the final numbers.",
  ["scaks/solvers/steady_state_solver.py"], [("integration loop and flush", "steady_state_solver.py solve_ode, __ode_flush")],
  ["solver.solve_ode", "auto_ode_coverages.py"])

p("C18", "Models do not influence each other, nor do earlier calls",
  "Whatever other models exist, are being built or have been evaluated in the same process, in whatever order, each model's results depend only on its own set-up, energies and arguments. Changing a result returned by a calculation, the energies passed to one, or the set-up dictionaries after construction does not change later results. (model.relative_energies is the model's own data, not a result.)",
  ["histories", "configurations"], "All operation sequences up to a depth over two models that differ in exactly one respect (temperature, reactions, site totals, rate algorithm, precision, energies, registered analyses), compared with each model run alone.",
  "Each test looks at one model; shared caches and shared defaults only show in an order of operations over several.",
  ["scaks/descriptors/descriptors.py", "scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py", "scaks/models/micro_kinetic_model.py"],
  [("result cache", "descriptors.py Memoized"), ("attribute defaults", "descriptors.py AttrDescriptor, Sequence, Dict")],
  ["all public results of two models in one process"])

p("C19", "Configuration is checked, set once, and then cannot be changed",
  "A model parameter accepts exactly the values of its declared type and choices and refuses everything else; once set it cannot be set again; derived quantities cannot be assigned at all. After any sequence of accepted and refused assignments a parameter still reads as the first accepted value (or its default), and species definitions read from a model cannot be used to alter it. (Reading an unset parameter fixes its default; exchanging a component such as the solver is not a parameter assignment.)",
  ["histories", "inputs"], "All sequences of reads, valid and invalid assignments up to a depth for every parameter type and for two models.",
  "The tests read parameters back once.",
  ["scaks/descriptors/descriptors.py", "scaks/descriptors/component_descriptors.py", "scaks/models/kinetic_model.py", "scaks/models/micro_kinetic_model.py", "scaks/models/kmc_model.py"],
  [("descriptors", "descriptors.py"), ("components", "component_descriptors.py")],
  ["model attributes"])

p("C20", "Analysis plugins see every search exactly once, in order",
  "For every registered analysis each root-finding attempt consists of one set-up call, then one call per analysis interval of iterations with consecutive counters, then one finalisation, all carrying the same attempt number; attempts are numbered consecutively and no set-up is left without finalisation or finalised without set-up. An attempt that starts at a steady state makes no calls. This holds however each attempt ends: converged, out of iterations, unphysical root, singular, or an exception.",
  ["histories", "configurations"], "All sequences of attempt outcomes up to a depth, driven by the restart guesses, with zero to two plugins and several intervals and root finders.",
  "The tests only register a plugin.",
  ["scaks/solvers/steady_state_solver.py", "scaks/plugins/analysis.py", "scaks/plugins/metaclasses.py", "scaks/models/micro_kinetic_model.py"],
  [("protocol calls", "steady_state_solver.py get_steady_state_cvgs"), ("defaults and interval check", "plugins/metaclasses.py"), ("registration", "micro_kinetic_model.py analysis_register, hybrid_method_register")],
  ["setup/register_step/finalize calls received"])

p("C21", "A crash never destroys archived results",
  "If the process dies at any point while archiving results, including in the middle of a write, the data file afterwards is either absent (nothing was ever archived) or loads and holds a complete earlier or the new set of results, namely what it held after some completed archiving operation. The next run in that directory starts without error.",
  ["crash_points", "histories"], "Death of the process (the operating system survives): every file operation and every byte-prefix class of every write of every archiving history up to a depth.",
  "Tests never interrupt a write.",
  ["scaks/__init__.py", "scaks/models/micro_kinetic_model.py"], [("archive_data", "scaks/__init__.py ModelShell.archive_data"), ("restart", "micro_kinetic_model.py run")],
  ["data.pkl after a crash", "the next model.run"])

p("C22", "A run starts from what it was given or from the last converged state",
  "A run uses the coverages it is given; without them it resumes from the converged coverages archived in its directory if there are as many as the model has adsorbates, and otherwise from the model's own guess. In every history of runs each run ends with results of a physical steady state of its own model and archives exactly the requested quantities, or raises and archives no coverages if it finds no steady state.",
  ["histories", "configurations"], "All histories of up to three runs in one directory over two models, with and without given coverages and with every selection of archived quantities.",
  "The tests run once in a clean directory with given coverages.",
  ["scaks/models/micro_kinetic_model.py", "scaks/__init__.py", "scaks/plugins/hybrid_methods.py"],
  [("initial guess selection", "micro_kinetic_model.py run"), ("archive", "scaks/__init__.py ModelShell.archive_data")],
  ["coverages the solver is started from", "data.pkl", "model.steady_state_coverages"])

p("C23", "Work is partitioned over processes without loss or duplication",
  "For every number of processes and every amount of work, the parts given to the ranks are consecutive, disjoint, cover everything and differ in size by at most one; the partial sizes add up to the total. Merging the parts in any run gives back the original sequence on every rank. Without mpi4py there is one process, which is the master and does everything.",
  ["inputs", "configurations"], "All sequence lengths and sizes up to a bound on all process counts up to a bound, all ranks.",
  "The tests run with one process.",
  ["scaks/mpicommons.py"], [("split and merge", "mpicommons.py MPIUtil.split_seq, split_size, merge_seq")],
  ["mpi.split_seq, split_size, merge_seq, bcast, master_only"])

p("C24", "Start-up and archiving are free of races between processes",
  "In a run of a micro-kinetic model with several processes every interleaving of their start-up and archiving ends with every process having its model, its own log file and its own data file; no process fails because another has not yet created, or has already created, a shared directory, and no process waits forever.",
  ["schedules"], "All interleavings of 2 and 3 processes at their file-system and communication operations.",
  "The tests run one process.",
  ["scaks/models/kinetic_model.py", "scaks/models/micro_kinetic_model.py", "scaks/mpicommons.py"],
  [("log directory", "kinetic_model.py _set_logger"), ("data directory", "micro_kinetic_model.py __init__"), ("barrier", "mpicommons.py")],
  ["model construction and archiving on each rank", "files created"])

p("C25", "Thermochemical corrections keep the energetics consistent",
  "Correcting a model's energies for its gases shifts each state of a step by the correction of every gas molecule it contains, counted with its coefficient, and leaves every step with forward minus reverse barrier equal to the reaction energy and no barrierless step with a negative barrier. Corrections of non-gases are zero, corrections depend on the given temperature and pressure only, the pressure dependence is kB*T*ln(p), and they are available for every tabulated gas at every temperature in its tabulated range (with partition functions: at every temperature). Over the tabulated range the correction varies continuously, and the entropies of both methods agree within the neglected modes. A step without transition state whose barrier was its higher end still has its higher end as barrier afterwards, and a step without gases keeps its energies.",
  ["inputs", "configurations"], "All steps over the tabulated gases with coefficients up to 3 and with and without transition state, temperatures and pressures from grids including range ends, both methods.",
  "The tests evaluate CO at one temperature; coefficients and the low-temperature branch are not reached.",
  ["scaks/correctors/thermodynamic_corrector.py", "scaks/database/thermo_data.py"],
  [("per-state sums", "thermodynamic_corrector.py correct_relative_energies"), ("Shomate and partition functions", "shomate_correction, entropy_correction")],
  ["corrector.correct_relative_energies, shomate_correction, entropy_correction"])

p("C26", "Every KMC process definition expands to all of its events, with their rates",
  "A process definition expands, for each basis site and each coordinate set, to one forward event and, unless it only redistributes, one reverse event with exchanged elements, carrying the step's forward and reverse rate. The list naming the reaction and direction of each event corresponds one to one, in order, to the events that are counted (those not marked fast), however often it is asked for.",
  ["configurations", "histories"], "All combinations of basis sites, coordinate sets, fast and redistribution flags and one to three definitions, and all orders of asking for events and names.",
  "The KMC tests do not run here; with them only one input file is expanded.",
  ["scaks/solvers/kmc_solver.py", "scaks/utilities/check_utilities.py"],
  [("expansion", "kmc_solver.py get_processes, __get_single_process"), ("mapping", "process_mapping")],
  ["solver.processes, get_processes, process_mapping"])

p("C27", "Recorded coverages are complete and independent of buffering",
  "The coverage file of a simulation, executed, gives one entry per recorded step, in order, for times, steps and the coverage of every possible species, whatever the buffer size and whenever the buffer was written out. Each species' coverage is the weighted number of sites holding it per unit cell, the empty site's is what remains to one.",
  ["histories", "configurations"], "All histories of configurations up to a length over small lattices, all buffer sizes, all positions of the empty species.",
  "The KMC tests do not run here and look at no file.",
  ["scaks/solvers/kmc_plugins/coverages_analysis.py", "scaks/utilities/format_utilities.py"],
  [("recording and flush", "coverages_analysis.py setup, registerStep, __flush, finalize")],
  ["auto_coverages.py"])

p("C28", "Event counts and turnover frequencies account for every event",
  "After any history the occurrence counts in the frequency file add up to the number of recorded events, per event and per reaction, the steady counts cover exactly the events from the configured start step on, and rates are steady counts per site and elapsed time (from the first steady record to the last record, where time passes). Other processes of a parallel run change nothing in the files. The turnover file holds, whatever the buffer size, one entry per elapsed interval whose counts are exactly the events of that interval.",
  ["histories", "configurations"], "All histories of picked events and time increments up to a length, all start steps, interval lengths and buffer sizes.",
  "The KMC tests do not run here and look at no file.",
  ["scaks/solvers/kmc_plugins/frequency_analysis.py", "scaks/solvers/kmc_plugins/tof_analysis.py"],
  [("counting", "frequency_analysis.py registerStep, finalize"), ("interval turnover", "tof_analysis.py registerStep, __flush")],
  ["auto_frequency.py, auto_tofs.py"])

p("C29", "The event log lists each step's options and the one taken",
  "The event log contains one table per recorded step after the first, in order, whatever the buffer size. Each lists every event with the number of sites and total rate it had before the step (steps being consecutive), probabilities that are those rates' shares, and marks exactly the event picked.",
  ["histories", "configurations"], "All histories of availability vectors and picked events up to a length, all buffer sizes.",
  "There is no test of it.",
  ["scaks/solvers/kmc_plugins/event_analysis.py"], [("tables and flush", "event_analysis.py registerStep, finalize")],
  ["auto_events.txt"])

p("C30", "Compiled and interpreted coverage counting agree",
  "For every lattice occupation, list of species and list of site weights, the compiled and the interpreted coverage counters give the same result, namely the weighted number of sites holding each species divided by the number of unit cells, for whole unit cells and species asked for once.",
  ["inputs"], "All occupations of up to six sites over three species, all ordered subsets of species, all weight vectors from a small set.",
  "No test calls either; only the interpreted one is used when the extension is not installed.",
  ["scaks/solvers/kmc_plugins/kmc_functions.py", "c++/src/kmc_functions.cpp", "c++/include/kmc_functions.h"],
  [("Python loop", "kmc_functions.py collect_coverages"), ("C++ loop", "kmc_functions.cpp collect_coverages")],
  ["collect_coverages of both backends"])

p("C31", "Coordinate groups behave as sets of labelled positions",
  "Under every sequence of appending, extending, moving and merging, a group holds one label per position; merging keeps all of the first group's positions, adds exactly those of the second that are not already present within tolerance (where no two positions of one operand coincide), and lets a real label replace a vacancy but never the reverse. Moving translates every position and leaves the original unchanged; merging leaves both operands unchanged, and malformed positions or vectors are refused without effect.",
  ["histories", "inputs"], "All operation sequences up to a depth over two or three groups with positions and labels from small sets, including positions within and just outside the tolerance, compared with a reference set.",
  "The tests perform each operation once on fixed groups.",
  ["scaks/utilities/coordinate_utilities.py"], [("CoordsGroup", "coordinate_utilities.py")],
  ["coordinates(), elements(), len()"])

p("C32", "Generated Python text reads back as the data written",
  "The text generated for a list or dictionary, executed, defines exactly that variable with exactly the data given, for finite numbers, strings, nested sequences and empty collections and for every column count. Splitting a duration into hours, minutes and seconds loses nothing and yields minutes and seconds below sixty.",
  ["inputs"], "All lists and dictionaries up to a length over an alphabet of values, all column counts, and all durations on a grid including boundaries.",
  "No test executes the generated text.",
  ["scaks/utilities/format_utilities.py"], [("get_list_string, get_dict_string, convert_time", "format_utilities.py")],
  ["executing the text"])

p("C33", "Malformed inputs are refused, well-formed ones accepted unchanged",
  "Process definitions, species definitions, reference energies and analysis intervals are accepted, and returned unchanged, if and only if they have the documented form: all required keys, matching lengths, the right entry types and pairwise distinct coordinates. A single defect anywhere leads to an error.",
  ["inputs"], "All single and double defects injected at every position of well-formed inputs of bounded size.",
  "The tests check a few good and bad inputs.",
  ["scaks/utilities/check_utilities.py"], [("validators", "check_utilities.py")],
  ["check_process_dict, check_species_definitions, check_analysis_interval, check_ref_energies, check_sequence"])

p("C34", "Energy templates list every step and species exactly once",
  "The generated relative-energy template has one slot pair per elementary step in order, and the absolute-energy template one entry per gas, liquid, adsorbate, transition state and free site; filled in, each can be loaded and gives the model exactly the filled-in energies.",
  ["configurations"], "All mechanisms of up to three steps over bounded term alphabets.",
  "The tests generate one file and look at the text.",
  ["scaks/models/kinetic_model.py"], [("templates", "kinetic_model.py generate_relative_energies_file, generate_absolute_energies_file")],
  ["generated files", "parse_data on them"])

p("C35", "Molecular masses add up over atoms",
  "The mass of a species is the sum of the masses of its atoms, with repeated, multi-letter and bracketed groups counted with their multiplicities, in relative or absolute units; unknown elements and malformed formulas are refused.",
  ["inputs"], "All formulas over a bounded grammar with multi-letter elements, multi-digit counts and nested brackets.",
  "The tests weigh three molecules.",
  ["scaks/functions.py", "scaks/parsers/parser_base.py", "scaks/database/elements_data.py"],
  [("string2symbols", "functions.py"), ("get_molecular_mass", "parser_base.py")],
  ["get_molecular_mass, string2symbols"])

p("C36", "The KMC lattice is set up as configured",
  "Site types, initial occupation and run control handed to the simulation engine are exactly those configured: files if present and valid, defaults of the right length otherwise, every entry checked, and every control parameter passed on under its own name, including the redistribution parameters if and only if redistribution is on, for every value the engine documents (random generators MT, MINSTD, RANLUX24, RANLUX48).",
  ["configurations", "inputs"], "All combinations of lattice sizes, basis sites, present, absent and malformed files, and control parameters.",
  "The KMC tests do not run here.",
  ["scaks/parsers/kmc_parser.py", "scaks/solvers/kmc_solver.py", "scaks/models/kmc_model.py"],
  [("lattice and configuration", "kmc_parser.py construct_sitesmap, parse_configuration, construct_lattice"), ("control", "kmc_solver.py get_control_parameters")],
  ["arguments received by the engine"])

p("C37", "Boltzmann coverages are a physical starting guess",
  "For all energies, the equilibrium-weighted coverages are between zero and the total of their site type, add up on each site type to its total together with the free sites, and the ratio of two adsorbates on the same site type is the Boltzmann factor of their energy difference.",
  ["inputs", "configurations"], "All mechanisms with one and two site types and all assignments of energies, totals and temperatures from small sets.",
  "The tests compare one vector for one site type.",
  ["scaks/solvers/mean_field_solver.py"], [("boltzmann_coverages", "mean_field_solver.py")],
  ["solver.boltzmann_coverages"])

p("C38", "What is reported is what was calculated",
  "Every table a model writes to its log (rate constants, rates, turnover frequencies, reversibilities, steady-state coverages, degrees of rate control) lists each step or species once, in order, with the value calculated for it, to the digits printed, and is written every time it is asked for. After every run the model's coverages, turnover frequencies, reversibilities, error and summary (model_info) agree with each other, with the log, and with that run's energies.",
  ["inputs", "histories"], "All one-step and the larger mechanisms at all coverages and conditions of a bounded set, names of every length around the column widths, and all histories of runs of one model with and without energies of their own.",
  "The tests never read a log, and run a model once; a value next to the wrong name, a table left out the second time or a result of an earlier run shows only in histories and unusual names.",
  ["scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py", "scaks/models/micro_kinetic_model.py"],
  [("tables", "mean_field_solver.py __log_rates, __log_reversibilities, __log_tof; steady_state_solver.py __log_sscvg, __log_single_XRC"), ("results of a run", "micro_kinetic_model.py run, model_info")],
  ["out.log", "model.steady_state_coverages, TOFs, reversibilities, error, model_info"])

p("C39", "A set-up in a file and in memory define the same model",
  "A set-up written as a set-up file and the same set-up given as a dictionary build models that agree in every parameter, species and result: every parameter has the value written, every other one its default. The order of the entries, comments, imports, and names that are not parameters have no effect. If both are given the dictionary counts alone; with neither, without a parser, or with a file that is missing or fails, no model is built.",
  ["inputs", "configurations"], "All parameters of both model classes with every value of a menu, all ordered pairs of parameters, all orders of a complete set-up, in every writing style of a list.",
  "The tests use dictionaries of one fixed order only.",
  ["scaks/models/kinetic_model.py"],
  [("loading", "kinetic_model.py __init__, _load")],
  ["parameters and results of the model"])

p("C40", "Energy profiles show the steps' energies",
  "Drawing the energy profiles saves one picture per elementary step, in order, under a name of its own that contains the step, showing one line that starts at zero, ends at the step's reaction energy and reaches its forward barrier in between, with no peak if the step has no barrier in one of its directions, in the style asked for. It works for every mechanism and all energies a model can have and leaves the energies unchanged.",
  ["inputs", "configurations"], "All steps of a set with and without transition state with all pairs of barrier and reaction energy from a grid, all pairs of steps, and drawing options.",
  "The tests draw nothing.",
  ["scaks/plotters/energy_profile_plotter.py"],
  [("plot_all", "energy_profile_plotter.py")],
  ["the pictures saved"])

p("C41", "Typeset formulas are the rate equations used",
  "When asked for, the forward and reverse rate of every step and the derivative of every coverage are appended to the formula file as well-formed LaTeX equations, each exactly once, in order and numbered from one, showing the expressions that are returned; otherwise nothing is written, and what is returned is the same either way.",
  ["inputs", "histories"], "All one-step mechanisms, pairs and larger mechanisms, and all histories of requests up to a depth.",
  "The tests never ask for the file.",
  ["scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py"],
  [("formulas", "mean_field_solver.py get_latex_strs, log_latex, get_rate_syms; steady_state_solver.py get_dtheta_dt_syms")],
  ["formulas.tex", "returned expressions"])

p("C42", "Scripts written for KMC runs recreate what is run",
  "Executing the script that is written for processes, a configuration, interactions or a lattice model makes the same objects, for processes in the same order; it starts with the file header. It goes to the file auto_<name>, replacing what was there, if a name is given, and to no file otherwise. A run leaves the script of its lattice model in auto_kmc_model.py, unless scripting is off or the process is not the first.",
  ["inputs", "configurations"], "All lists of processes up to a length, all lattices, occupations and runs of a set.",
  "The tests script one list each and never execute the text.",
  ["scaks/solvers/kmc_solver.py"],
  [("script", "kmc_solver.py script_decorator, script_processes, script_lattice_model, script_configuration, script_interactions, run")],
  ["text of the script", "auto_*.py"])
p("C43", "Log levels decide which messages reach file and console",
  "A message reaches the log file exactly once if its level is at least that of the logger and that of the file handler, and not otherwise; likewise the console. Setting the level of one handler returns its former level and affects only that handler; an unknown handler is refused without effect. Processes of a micro-kinetic model other than the first write nothing below WARNING to the console, and never more than was asked for.",
  ["histories", "configurations"], "All initial levels and all sequences of changes, clearings and new models up to a depth.",
  "The tests set one level once.",
  ["scaks/models/kinetic_model.py", "scaks/models/micro_kinetic_model.py", "scaks/models/kmc_model.py"],
  [("logging", "kinetic_model.py _set_logger, set_logger_level, clear_handlers; micro_kinetic_model.py _set_logger")],
  ["log file", "console"])
p("C44", "A replaced component is used from then on, and only it",
  "After set_solver, set_corrector or set_plotter a model's calculations, searches and drawings are made with the component given last and with no other, and the model reports it as its component. Anything that is no component of that kind (none, a name, a class, another kind of component, a model, a number, an object that merely has the methods) is refused with an error and leaves the model, its components and the components of other models as they were.",
  ["histories", "configurations"], "All sequences of replacements and refused replacements up to a depth, for models with and without each component in the set-up.",
  "The tests replace each component once and never calculate with the replacement.",
  ["scaks/models/kinetic_model.py"],
  [("replacement", "kinetic_model.py set_solver, set_corrector, set_plotter"), ("use", "micro_kinetic_model.py run; solver_base.py get_rxn_rates_CT; kmc_model.py run")],
  ["model.solver, model.corrector, model.plotter", "results of run, get_rxn_rates_CT, plot_all"])

p("C45", "What cannot be run is refused and leaves no trace",
  "A run is refused with an error if its start is no list or tuple of one number per adsorbate, if the energies passed to it lack a barrier list or a step, or if rate control is asked for without a gas or liquid of the model as product; so are a turnover of a species the model does not have, an analysis that is no analysis plugin, and a guess method called without a model. What is refused before the search leaves the results of the model, its plugins and (energies and starts) the directory as they were, and however many requests were refused before, the next usable run succeeds with the steady state, turnovers and archive it has in a fresh model.",
  ["histories", "inputs"], "All sequences of usable and unusable runs and requests up to a depth, followed by a usable run, for several mechanisms.",
  "The tests make one correct run each.",
  ["scaks/models/micro_kinetic_model.py", "scaks/solvers/mean_field_solver.py", "scaks/solvers/steady_state_solver.py"],
  [("argument checks", "micro_kinetic_model.py run, analysis_register, hybrid_method_register"), ("energies", "mean_field_solver.py get_rate_constants"), ("products", "mean_field_solver.py get_tof; steady_state_solver.py get_single_XRC")],
  ["exceptions", "model.steady_state_coverages, TOFs, reversibilities, error", "data.pkl"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
