p("C01", "Model names, model objects and model identities correspond one to one",
  "Every supported model has exactly one name, no two models share one, and looking a name up (in any letter case) and building the model gives an object that reports that same model. A name that is not in the list never yields a model object: the lookup reports 'not set' and every command-line program refuses to run.",
  ["inputs", "configurations"], "for every model the code base registers and every string a user can pass as model name",
  "Tests build a handful of models by their enumerator; no test goes through every name, letter case and program.",
  ["include/BSMPT/models/IncludeAllModels.h", "src/models/IncludeAllModels.cpp", "src/prog"],
  [("name table, reverse table, factory", "src/models/IncludeAllModels.cpp, include/BSMPT/models/IncludeAllModels.h"),
   ("model id stored by each constructor", "src/models/ClassPotential*.cpp"),
   ("model check before work starts", "src/prog/*.cpp CLIOptions::good / main")],
  observe=["FChoose / getModel results", "exit status of the programs"])

p("C02", "Every outcome status has exactly one printed name, distinct within its kind",
  "For every kind of outcome status the tracing, transition and gravitational-wave code can report, each possible status has a printed name, two different statuses of one kind never print the same text, and printing a status prints the name registered for it. No status value can make the printing of a result row fail.",
  ["inputs", "histories"], "for every status kind and every value of it that any run can produce",
  "Tests print at most the success statuses; a status reached only for rare parameter points is never printed in a test.",
  ["include/BSMPT/minimum_tracer/minimum_tracer.h", "src/minimum_tracer/minimum_tracer.cpp", "src/prog/CalcGW.cpp", "src/prog/CalcTemps.cpp", "src/prog/MinimaTracer.cpp"],
  [("status enumerations and their name tables", "include/BSMPT/minimum_tracer/minimum_tracer.h"),
   ("stream output of statuses", "src/minimum_tracer/minimum_tracer.cpp")],
  observe=["status columns of the output tables"])

p("C03", "Listed command-line options are read and take effect; optional may be absent",
  "Every option a program lists in its help is read by that program and the value it carries is used by the computation or output; every option the program reads is one it lists; and each option reaches the setting it names. Leaving out an option that is listed as optional never ends the program, and leaving out a required one always does.",
  ["inputs", "configurations"], "for every program and every subset of its options",
  "The command-line programs are not run by any test; the parser tests use made-up options.",
  ["src/prog", "src/utility/parser.cpp", "include/BSMPT/utility/parser.h", "src/transition_tracer/transition_tracer.cpp"],
  [("option declarations", "src/prog/*.cpp convert_input / parser set-up"),
   ("option reads", "src/prog/*.cpp CLIOptions constructor"),
   ("forwarding into the computation", "src/prog/*.cpp main, include/BSMPT/transition_tracer/transition_tracer.h user_input")],
  observe=["help text", "effect of each option"])

p("C04", "Result tables: every row has one value per header label, in the same order",
  "In every table a program writes, each data row carries exactly as many values as the header has labels, whatever the outcome of the computation for that row (success, failure, missing or partial transition). Each value is written in the column whose label names it.",
  ["inputs", "histories"], "for every program, model, number of vacuum directions, number of phase pairs and outcome",
  "No test runs a program or compares a header with a row; failure rows appear only for rare parameter points.",
  ["src/prog", "src/minimum_tracer/minimum_tracer.cpp"],
  [("header writers", "src/prog/*.cpp main, src/minimum_tracer/minimum_tracer.cpp GetLegend"),
   ("row writers", "src/prog/*.cpp main")],
  observe=["output files of the programs"])

p("C05", "Evaluating a prepared potential has no side effects and no hidden memory",
  "Once a model object is prepared for a parameter point, evaluating its potential, masses, couplings or thermal functions changes nothing that a later or simultaneous evaluation can observe: not the object, not another object, not a global or static variable. Hence the same arguments always give the same result, in any order and from any number of threads at once.",
  ["schedules", "histories", "inputs"], "for every sequence or interleaving of evaluations on one or several model objects",
  "Tests evaluate sequentially in one fixed order; a cache or a static buffer needs a particular order or interleaving to show.",
  ["include/BSMPT/models/ClassPotentialOrigin.h", "src/models", "src/ThermalFunctions"],
  [("const evaluation methods", "src/models/ClassPotentialOrigin.cpp and the models"),
   ("thermal functions and their static tables", "src/ThermalFunctions")],
  observe=["return values of the evaluation functions"])

p("C06", "Worker threads touch shared data only under its lock and are always joined",
  "Whatever data two concurrently running worker threads share and at least one of them changes is read and written only while the same lock is held, for every access. Every worker thread that is started is waited for before the function that started it uses the workers' results or returns.",
  ["schedules"], "for every interleaving of the worker threads the minimizers start",
  "A test sees the few schedules of one machine; a missing lock shows only under a rare interleaving.",
  ["src/minimizer/MinimizeGSL.cpp", "include/BSMPT/minimizer/MinimizeGSL.h", "src/minimizer/Minimizer.cpp"],
  [("thread bodies and their shared queues", "src/minimizer/MinimizeGSL.cpp"),
   ("parallel minimizer calls", "src/minimizer/Minimizer.cpp")],
  state=[("starting-point queue, result list", "shared between the worker threads")])

p("C07", "Numerical-library resources are released exactly once on every path",
  "Every workspace, minimizer, solver, vector, matrix, spline or optimiser object obtained from a C numerical library is released exactly once on every way out of the function that obtained it, including early returns. It is never used after its release and never released twice.",
  ["inputs", "histories"], "for every function that obtains such a resource and every control-flow path through it",
  "Leaks and double frees on error paths are invisible to value-comparing tests that take the success path.",
  ["src/minimizer", "src/ThermalFunctions", "src/utility", "src/bounce_solution", "src/minimum_tracer"],
  [("alloc/free pairs", "src/minimizer/*.cpp, src/ThermalFunctions/*.cpp, src/utility/*.cpp, src/bounce_solution/*.cpp")])

p("C08", "Any error raised in a program ends it with a message and a failure status",
  "Every error raised in the program's main flow is of the standard exception family and is caught by the program, which reports it and ends with a failure exit status; it is never ended by an unhandled exception, and an error is never turned into a success status. Invalid or incomplete command-line settings are refused with a failure status before any parameter point is computed.",
  ["inputs", "fault_sequences"], "for every raise site in the code base and every program",
  "Tests check a few expected exceptions of library calls; no test runs a program into an error.",
  ["src/prog", "src", "include"],
  [("throw sites", "src, include"), ("outermost handlers", "src/prog/*.cpp main"),
   ("settings check", "src/prog/*.cpp CLIOptions::good")],
  observe=["exit status", "standard error"])

p("C09", "Results do not depend on clock, process state or uninitialised data",
  "No random number used by the code is seeded from the clock, the process, the hardware or an address: seeds are constants or come from the caller. Wall-clock time flows only into reported run times, and every plain number, flag or pointer a class or structure stores has a value from construction on or is written before it is read.",
  ["inputs", "histories", "configurations"], "for every run of every program and every object of every class",
  "A nondeterministic seed or an uninitialised flag usually yields a passing value in a test run.",
  ["src", "include"],
  [("random number generators", "src/minimizer/*.cpp, src/minimum_tracer/minimum_tracer.cpp"),
   ("default member values and constructors", "include/BSMPT")])

p("C10", "Input tables: exactly the requested existing lines are computed",
  "A program that works through a table of parameter points treats the first line as the header, computes a parameter point only from a line that was really read from the file, and computes every line whose number lies in the requested range and no other. Lines are numbered from one counting the header, and reading always stops at the end of the file or at the last requested line.",
  ["inputs"], "for every input file (with or without a final newline, shorter than the requested range) and every first/last line",
  "No test runs a program on an input file.",
  ["src/prog"],
  [("line loop", "src/prog/*.cpp main")],
  observe=["rows of the output table"])

p("C11", "Formulas keep their fractional parts",
  "No real-valued quantity is computed from a quotient of integers that was rounded down first, from a real number silently cut to an integer, or from a double silently shortened to single precision. Deliberate conversions to counts and indices are the only exceptions.",
  ["inputs"], "for every arithmetic expression of the library and the programs",
  "A truncated exponent or step changes a result by a few percent, within the tolerance of tests or in code no test reaches.",
  ["src", "include"],
  [("arithmetic of masses, potentials, actions, rates and spectra", "src")])

p("C12", "A model object can be re-used for another parameter point",
  "Preparing a model object for a parameter point leaves it in a state that depends only on that point: nothing computed for an earlier point, in whatever order the preparation and evaluation functions were called before, survives into results for the new one. In particular lists are not appended to a second time and all derived quantities are computed anew.",
  ["histories", "inputs"], "for every history of earlier parameter points on the same object and every model",
  "Tests prepare each object once.",
  ["src/models", "include/BSMPT/models/ClassPotentialOrigin.h"],
  [("parameter-point preparation", "src/models/ClassPotentialOrigin.cpp initModel/resetbools, SetCurvatureArrays of each model")],
  state=[("coupling tensors, masses, rotation matrices, flags", "derived from the parameter point")])

p("C13", "Temperature, derivative and order arguments reach the calculation",
  "When one evaluation function hands its work to another that takes an argument of the same meaning (field values, temperature, derivative selection, loop order, scale), it passes the argument it was given, unchanged in meaning, instead of dropping it or letting a default take its place. Every such argument of an evaluation function influences the calculation.",
  ["inputs"], "for every evaluation function, every argument and every layer of delegation",
  "Tests mostly call with default arguments, where a dropped argument cannot be seen.",
  ["src/models/ClassPotentialOrigin.cpp", "src/ThermalFunctions", "src/minimizer", "src/minimum_tracer"],
  [("delegating evaluation functions", "src/models/ClassPotentialOrigin.cpp, src/minimizer/*.cpp, src/bounce_solution/*.cpp")])

p("C14", "Transition results stay aligned: one complete entry per phase pair",
  "After a transition search every per-pair result list (statuses, temperatures, vacua, gravitational-wave data) has exactly one entry for every pair of coexisting phases, in pair order, on every outcome path. Every vacuum list of an entry has one component per vacuum direction, also when the temperature it belongs to was not found.",
  ["inputs", "histories"], "for every number of phase pairs and every combination of per-pair outcomes",
  "End-to-end transition tests are not part of the stable suite; most outcome combinations are never produced.",
  ["src/transition_tracer/transition_tracer.cpp", "include/BSMPT/transition_tracer/transition_tracer.h"],
  [("pair loop of the transition search", "src/transition_tracer/transition_tracer.cpp")],
  state=[("output_store", "statuses, transition and gravitational-wave data per pair")])

p("C15", "Coupling tensors encode the stated potential of each model",
  "For every model and every value of its parameters, the scalar coupling tensors (tree-level and counterterm) are completely symmetric under exchange of indices, the gauge tensors under exchange of their gauge and of their field indices and the fermion tensors under exchange of their fermion indices. Where a model uses a hand-written tree-level or counterterm potential, it equals the potential assembled from the tensors for all values of the vacuum directions. The counterterm tensors have the form of the tree-level tensors with the parameters replaced by their counterterms, plus linear terms and extra counterterms in entries that have no tree-level counterpart. The generic potential functions return the contraction of the tensors with the fields, and its derivative when a derivative is requested.",
  ["inputs"], "for every model, parameter value and field value",
  "Tests compare the two forms numerically at one parameter point per model, where many parameters vanish.",
  ["src/models/ClassPotentialSM.cpp", "src/models/ClassPotentialR2HDM.cpp", "src/models/ClassPotentialC2HDM.cpp", "src/models/ClassPotentialN2HDM.cpp", "src/models/ClassPotentialCxSM.cpp", "src/models/ClassPotentialCPintheDark.cpp"],
  [("coupling tensors", "SetCurvatureArrays / set_CT_Pot_Par of each model"),
   ("simplified potentials", "VTreeSimplified / VCounterSimplified of each model")])

p("C16", "Each model's declared sizes agree with what it reads, stores and labels",
  "For every model the declared numbers of parameters, counterterms, fields, gauge bosons, fermions and vacuum directions agree with the parameters it takes from its input, the counterterms it produces, the labels it prints for counterterms, critical-temperature results, vacuum components and triple couplings, and the index order of its vacuum directions. No constant index it uses lies outside the array it indexes.",
  ["inputs", "programs"], "for every model class",
  "A label or count that is off by one shifts columns of a table or reads past an array without failing a numeric test.",
  ["src/models"],
  [("sizes set in the model constructors", "src/models/ClassPotential*.cpp"),
   ("legends, parameter reading, counterterm storage", "src/models/ClassPotential*.cpp")])

p("C17", "The mass-ratio functions are defined and continuous for every mass pattern",
  "The one-loop auxiliary functions of two, three and four squared masses return a value on every pattern of equal, zero and distinct masses, and on none of these patterns do they divide by a difference that is zero there or take the logarithm of a zero mass. On every such pattern the value returned is the limit of the expression for distinct masses (where that limit exists), and it does not depend on the order of the arguments.",
  ["inputs"], "for every combination of equalities and zeros among the arguments",
  "Tests probe some patterns with some numbers; the patterns are combinatorial.",
  ["src/models/ClassPotentialOrigin.cpp"],
  [("fbase, fbaseTri, fbaseFour", "src/models/ClassPotentialOrigin.cpp")])

p("C18", "Switched-off minimizers stay off, switched-on ones count, the lowest wins",
  "A minimization asked to use a given set of algorithms starts exactly those that are both asked for and compiled in, each at most once per minimization (for models with fewer than three vacuum directions, where CMA-ES is not applicable, the GSL search may take its place), and every candidate such an algorithm reports as successful takes part in the comparison. The candidate with the lowest potential value is returned together with its own position.",
  ["configurations", "inputs"], "for every combination of algorithm switches and of successes and failures",
  "Tests use one switch combination of the build at hand.",
  ["src/minimizer/Minimizer.cpp", "include/BSMPT/minimizer/Minimizer.h"],
  [("algorithm selection and comparison", "src/minimizer/Minimizer.cpp Minimize_gen_all")])

p("C19", "Searches and scans always terminate",
  "Every loop of the library and the programs ends after finitely many rounds, for every input: it counts through a fixed number of rounds, elements or attempts, its running value moves by a step that is never zero towards its bound, it halves an interval down to a tolerance it can reach, it drains a container or an input, or it is left as soon as a round moves nothing. A degenerate interval (equal ends, zero length, an existing point) does not make a scan run for ever. Where a scan chooses its next step from the solution found so far, every round still changes something its end depends on.",
  ["inputs"], "for every loop and every interval, including empty and single-point ones",
  "A non-terminating loop needs a degenerate phase or interval no test provides.",
  ["src/minimum_tracer/minimum_tracer.cpp", "src/bounce_solution", "src/transition_tracer", "src/minimizer", "src/utility", "src/prog"],
  [("search loops", "src/minimum_tracer/minimum_tracer.cpp, src/bounce_solution/*.cpp, src/minimizer/*.cpp, src/utility")])

p("C20", "The electroweak vacuum found is the global minimum of the potential",
  "The point returned by a minimization is the deepest minimum of the effective potential within the search region, for every model, parameter point and temperature.",
  ["inputs"], "for every potential", "Global optimality is not visible to sampled points.",
  ["src/minimizer"], [("minimizers", "src/minimizer")])
p("C21", "The bounce action is accurate to the stated tolerance",
  "The tunnelling path and action returned as successful solve the bounce equations to the accuracy the code states, for every pair of vacua.",
  ["inputs"], "for every potential and pair of vacua", "Needs the exact solution.",
  ["src/bounce_solution"], [("path deformation and shooting", "src/bounce_solution")])
p("C22", "Phase tracing finds every phase and follows it continuously",
  "Every minimum of the potential that exists in the temperature range is part of a traced phase and each phase's minima form a continuous curve in temperature.",
  ["inputs"], "for every potential", "Needs all minima at all temperatures.",
  ["src/minimum_tracer"], [("phase tracking", "src/minimum_tracer")])
p("C23", "Thermal expansions match the exact thermal integrals",
  "The interpolated thermal functions agree with the exact one-loop thermal integrals, and with their derivatives, within the documented accuracy for every argument.",
  ["inputs"], "for every mass-to-temperature ratio", "Error bounds of series and splines over a continuum.",
  ["src/ThermalFunctions"], [("expansions and splines", "src/ThermalFunctions")])
p("C24", "The renormalised one-loop potential keeps tree-level masses and vacuum",
  "With the computed counterterms the first and second derivatives of the one-loop potential at the zero-temperature vacuum equal those of the tree-level potential, for every parameter point.",
  ["inputs"], "for every model and parameter point", "Tests check one point per model.",
  ["src/models"], [("counterterm calculation", "src/models calc_CT")])
p("C25", "Transition temperatures are ordered",
  "For every phase pair the critical, nucleation, percolation and completion temperatures that are found are in non-increasing order.",
  ["inputs"], "for every parameter point", "Monotonicity of numerically interpolated actions.",
  ["src/bounce_solution"], [("temperature searches", "src/bounce_solution/bounce_solution.cpp")])
