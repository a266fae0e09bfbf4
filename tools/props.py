"""The properties: single source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


DOE, GP, MOE, EGO, PY = "crates/doe/src/", "crates/gp/src/", "crates/moe/src/", "crates/ego/src/", "python/src/"

p("C01", "A seeded run is reproducible",
  "Every random choice made by a sampling plan, a surrogate training or an optimization run that was given a seed derives from that seed: "
  "running it again with the same seed, inputs and options takes the same decisions. No such computation draws from operating-system entropy, a thread-local generator, the clock, or the iteration order of a hash table.",
  ["inputs", "configurations", "schedules"], "all seeds, all problems and options, all thread schedules",
  "Tests rerun at most a couple of seeded configurations; entropy used on a path they do not take, or hash-order effects that happen to agree, stay invisible.",
  [DOE, GP, MOE, EGO], [("seeded generators handed down", EGO + "egor.rs, " + EGO + "solver/solver_impl.rs, " + MOE + "algorithm.rs, " + DOE + "lhs.rs")],
  "whole-program call-graph reachability + dataflow of RNG origins on MIR",
  "Decides where every random generator in the workspace's computations comes from (fail closed on unknown origins). Trusts third-party crates to be deterministic for a given generator.")

p("C02", "Sampling plans have the requested size and stay inside the domain",
  "Every sampling method returns exactly the requested number of points with one column per input dimension, and every point lies inside the bounds of the domain. This holds for every domain, dimension, sample count and seed.",
  ["inputs"], "all bounds, dimensions, sample sizes (one included) and random seeds",
  "Tests sample a few sizes on one or two domains.",
  [DOE + "lib.rs", DOE + "lhs.rs", DOE + "random.rs", DOE + "full_factorial.rs", DOE + "traits.rs"],
  [("normalised plan scaled to the bounds", DOE + "traits.rs"), ("normalised plans", DOE + "lhs.rs, random.rs, full_factorial.rs")],
  "abstract interpretation over a value graph of the MIR (interval and shape domains)",
  "Shape and range of every written cell are derived from the source for all inputs; floating-point rounding at the upper bound and ndarray's own semantics are trusted.")

p("C03", "Latin hypercube plans put one sample in each stratum of each axis",
  "In a latin hypercube plan of n points (plain, centered, maximin, optimized variants) each axis is cut in n equal strata and each stratum holds exactly one point. The optimization of the plan only exchanges coordinates between points along one axis.",
  ["inputs"], "all domains, sizes, kinds of plan and seeds",
  "Tests compare a handful of small plans to expected arrays.",
  [DOE + "lhs.rs"], [("cut/shuffle construction", DOE + "lhs.rs"), ("coordinate exchanges", DOE + "lhs.rs")],
  "value-graph derivation on MIR: permutation/stratum argument",
  "Derives that each column is a permutation of one-value-per-stratum and that optimizers only swap two entries of one column.")

p("C04", "Mixed-integer encoding and decoding are inverse and column-aligned",
  "For every mix of real, integer, ordered and categorical variables: the continuous domain has one column per real, integer or ordered variable and one per category, decoding reads for each variable exactly its own columns, encoding writes exactly those columns, and decoding an encoded point returns it. "
  "Integer values are rounded, ordered values snapped to the closest allowed level, and categories to an index of the declared list.",
  ["inputs", "configurations"], "all lists of variable types in any order and all points",
  "Tests use a few fixed type lists in which the misplaced-column cases do not show.",
  [EGO + "gpmix/mixint.rs", EGO + "types.rs"], [("fold/unfold/cast of columns", EGO + "gpmix/mixint.rs")],
  "value-graph equivalence of column cursors and widths (dataflow on MIR)",
  "Decides cursor/width agreement and the per-kind cell formulas of limits, fold, unfold and cast, for all type lists.")

p("C05", "User functions only ever see decoded points of the declared space",
  "The objective and constraint functions supplied by the user are only ever evaluated at points that have been decoded to the declared variable types: an integer variable receives an integer, an ordered one an allowed level, a categorical one an index. This holds for the initial plan, each infill iteration, trust-region steps and cooperative activity.",
  ["inputs", "configurations", "histories"], "all variable type lists, option combinations and iteration histories",
  "Tests mostly check the final best point, not each point handed to the user functions.",
  [EGO + "egor.rs", EGO + "solver/solver_computations.rs", EGO + "solver/solver_impl.rs", EGO + "solver/trego.rs", EGO + "gpmix/mixint.rs"],
  [("decoding before evaluation", EGO + "solver/solver_computations.rs, " + EGO + "solver/solver_impl.rs")],
  "interprocedural taint/typestate analysis of evaluation points over the value graph",
  "Every call site that can reach a user function is enumerated and its point argument must derive from the decoding.")

p("C06", "The run history pairs each point with its own evaluated outputs",
  "The recorded inputs, outputs and constraint values of a run always have the same number of rows and row i of each belongs to the same evaluation. Only values returned by the user's functions are recorded, never surrogate predictions, and rows once recorded are neither changed nor dropped.",
  ["inputs", "histories", "configurations"], "all runs, strategies, batch sizes and iteration counts",
  "Tests look at the final optimum; a misaligned or predicted row can leave it unchanged.",
  [EGO + "solver/solver_impl.rs", EGO + "solver/trego.rs", EGO + "solver/egor_solver.rs", EGO + "utils/misc.rs"],
  [("appending evaluated points", EGO + "solver/solver_impl.rs"), ("update of the data", EGO + "utils/misc.rs")],
  "value-graph provenance of each appended row (dataflow on MIR)",
  "Provenance of what is appended to the three histories and agreement of the row selections; numeric content is not judged.")

p("C07", "Best point selection respects constraints and tolerances",
  "A point counts as feasible exactly when each of its constraint values is at most that constraint's tolerance. The best point is the one with the lowest objective among the feasible ones when there is at least one, and the incumbent is only replaced by a point that is better under that same rule.",
  ["inputs", "histories"], "all output tables, tolerances, incumbents and NaN positions",
  "Tests compare a handful of tables.",
  [EGO + "utils/find_result.rs", EGO + "solver/egor_state.rs"], [("feasibility and comparison", EGO + "utils/find_result.rs")],
  "value-graph specification match of predicates and selections",
  "Decides the form of the feasibility predicate and of each comparison at every use.")

p("C08", "The reported optimum is one recorded evaluation",
  "The optimum reported by a run (input and outputs) is one and the same row of the recorded history, with its input decoded to the declared variable types. The history reported along with it is the recorded one, decoded the same way.",
  ["inputs", "histories", "configurations"], "all runs and variable types",
  "Tests check the optimum value on a few problems.",
  [EGO + "egor.rs", EGO + "utils/find_result.rs", EGO + "solver/egor_solver.rs", PY + "egor.rs"], [("result assembly", EGO + "egor.rs, " + PY + "egor.rs")],
  "value-graph provenance (same index, same table, decoded)",
  "Decides that input and outputs of the result are the same row of the recorded tables through the decoding.")

p("C09", "No exit of an iteration loses the run's working state",
  "Whatever branch an optimization iteration takes - normal infill, no point to add, trust-region step, cooperative activity - the state it hands to the next iteration still holds the data, clusterings, hyperparameters, sampling plan and random generator it needs. Nothing taken out of the state is missing when the next iteration reads it.",
  ["histories", "configurations", "fault_sequences"], "all sequences of iteration outcomes and option combinations",
  "Tests seldom reach the failing-infill exits and never all combinations of options.",
  [EGO + "solver/egor_solver.rs", EGO + "solver/egor_state.rs", EGO + "solver/solver_impl.rs", EGO + "solver/trego.rs"],
  [("take/put back of state fields", EGO + "solver/egor_state.rs, " + EGO + "solver/egor_solver.rs")],
  "typestate/path analysis: must-put-back on every path to a success exit",
  "Path-sensitive typestate of every taken field over the control-flow graph, through helpers.")

p("C10", "Restarting from a checkpoint continues the same run",
  "A checkpoint written at the end of an iteration holds everything the next iteration depends on, and a hot-started run continues from it: it takes the saved state, keeps the saved history and only its budget is extended. A run without checkpoint starts fresh.",
  ["crash_points", "histories", "configurations"], "all interruption points and configurations",
  "Tests restart one or two short runs.",
  [EGO + "utils/hot_start.rs", EGO + "egor.rs", EGO + "solver/egor_solver.rs", EGO + "solver/egor_state.rs"],
  [("checkpoint save and load", EGO + "utils/hot_start.rs")],
  "dataflow and path rules on checkpoint save/load and state (de)serialisation",
  "Structural part only: codec agreement, same path, saved state completeness, budget extension; not the numeric equality of the continued run.")

p("C11", "Files are only written in the directory the user asked for",
  "An optimization writes its plan, history, result, configuration and checkpoint files only under the output directory configured by the user (checkpoints under their own documented directory), each kind of file under its documented name. Without a configured output directory a run writes no result file.",
  ["configurations", "inputs"], "all configurations and file names",
  "Tests use one temporary directory and do not look elsewhere.",
  [EGO + "egor.rs", EGO + "solver/egor_solver.rs", EGO + "utils/run_recorder.rs", EGO + "utils/hot_start.rs"],
  [("path construction", EGO + "solver/egor_solver.rs, " + EGO + "egor.rs")],
  "who-may-write call-graph rule + path-origin dataflow",
  "All file-creating calls reachable in the workspace are enumerated; each path argument must derive from the configured directory and a documented name, under the guard that it is configured.")

p("C12", "Save and load failures are returned as errors",
  "Saving or loading a trained model, writing or reading the checkpoint of a run, and writing the output files of a run never panic because of the file system or the content of the file: a missing directory, an unreadable or corrupt file, or a full disk comes back as an error value (the Python `save` reports it by returning False, the optional recorders enabled by an environment variable may only log it). This holds for every model kind and both file formats.",
  ["fault_sequences", "inputs"], "all file-system faults and file contents",
  "Tests only save to and load from writable directories.",
  [GP + "lib.rs", MOE + "surrogates.rs", MOE + "algorithm.rs", EGO + "gpmix/mixint.rs"], [("save/load functions", MOE + "surrogates.rs, " + MOE + "algorithm.rs, " + EGO + "gpmix/mixint.rs")],
  "error-discipline analysis: no unwrap/expect on an I/O or codec result",
  "Every fallible I/O or codec call reachable from a save/load entry point is enumerated; its error must flow to the return value.")

p("C13", "What is saved is what is loaded",
  "A model saved in a format and loaded in the same format goes through one and the same codec: for each file format the writer and the reader use the same encoding and configuration, for every model kind and wrapper. No field of a trained model that influences its predictions is left out of the saved form or defaulted when it is read back.",
  ["inputs", "configurations"], "all trained models and both file formats",
  "Tests round-trip one or two models and compare a prediction.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", MOE + "surrogates.rs", MOE + "algorithm.rs", EGO + "gpmix/mixint.rs"],
  [("serde derivations and save/load", MOE + "surrogates.rs, " + MOE + "algorithm.rs")],
  "writer/reader codec agreement and field-coverage analysis of generated serde code",
  "Agreement of codecs per format branch and coverage of every field in generated and hand-written (de)serialisers; third-party codecs are trusted.")

p("C14", "Copies of models, parameters and configurations are complete",
  "A clone of a trained model, parameter set or configuration equals the original in every respect: each hand-written copy carries over each field from the same field of the original.",
  ["inputs", "configurations"], "all values",
  "No test compares clones field by field.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", MOE + "algorithm.rs", EGO + "solver/"], [("hand-written Clone implementations", GP + "algorithm.rs, " + GP + "sparse_algorithm.rs")],
  "value-graph identity per field",
  "Every Clone implementation of the workspace (derived ones included) is evaluated and each field compared.")

p("C15", "Every surrogate forwards each operation to its own model unchanged",
  "Each surrogate kind answers values, variances, gradients, samples, hyperparameters, dimensions and fit quality with exactly what its underlying model answers to the same question on the same points. Each option set on a surrogate's parameters changes that option of the underlying parameters and nothing else.",
  ["inputs", "configurations"], "all 16 surrogate kinds, all operations, all points",
  "Tests exercise a few kinds and a few operations.",
  [MOE + "surrogates.rs", MOE + "traits.rs"], [("generated delegations", MOE + "surrogates.rs")],
  "value-graph identity of each facade method with the same-named inherent method",
  "Every facade method of every kind is compared to the same-named operation of the wrapped model.")

p("C16", "Combined predictions agree with separate ones",
  "Asking a model for value and variance in one call returns exactly what the two separate calls return on the same points, and likewise for the gradients of value and variance. This holds for every model kind, mixture and wrapper.",
  ["inputs", "configurations"], "all models and points",
  "Tests compare a few points of a few models.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", MOE + "algorithm.rs", MOE + "surrogates.rs", EGO + "gpmix/mixint.rs"], [("combined predictions", GP + "algorithm.rs, " + MOE + "algorithm.rs")],
  "sibling cross-check: canonical value graphs of combined and separate predictions must be identical",
  "Identity of computations for all inputs, up to associativity of real arithmetic.")

p("C17", "Mixtures combine experts with the documented formulas",
  "With smooth recombination a mixture predicts the responsibility-weighted sum of its experts' values, the squared-responsibility-weighted sum of their variances, and the exact derivatives of these sums for the gradients; with hard recombination it returns the prediction of the expert responsible for the point. The recombination mode configured by the user decides which.",
  ["inputs", "configurations"], "all numbers of experts, input dimensions, points and recombination modes",
  "Tests cover few cluster counts and dimensions, where misaligned products can agree by accident.",
  [MOE + "algorithm.rs"], [("smooth and hard recombination", MOE + "algorithm.rs")],
  "symbolic value-graph derivation of the recombination formula with axis-label inference",
  "The formula each prediction computes is derived from the source and compared to the mixture formula, for all cluster counts and dimensions; experts and responsibilities are opaque.")

p("C18", "A mixed-integer surrogate always works on decoded points",
  "A surrogate over mixed-integer variables trains, predicts and samples on points whose integer, ordered and categorical coordinates have been decoded and snapped to the declared space, whatever the operation and the form of the points it is given. Each operation then returns what the inner surrogate answers at those points.",
  ["inputs", "configurations"], "all operations, variable type lists and points",
  "Tests call a few operations on already valid points.",
  [EGO + "gpmix/mixint.rs"], [("casting before delegation", EGO + "gpmix/mixint.rs")],
  "value-graph provenance of the points given to the inner surrogate",
  "Every operation of the mixed-integer model, parameters and context.")

p("C19", "Trained experts are among the requested kinds and carry the requested options",
  "Each expert of a mixture is built with a regression and a correlation among those the user allowed, matching the pair it was selected for, and receives the configured number of restarts, evaluation budget, dimension reduction and hyperparameter tuning.",
  ["inputs", "configurations"], "all specifications and options",
  "Tests use default or single specifications.",
  [MOE + "algorithm.rs", MOE + "expertise_macros.rs", MOE + "parameters.rs"], [("expert construction", MOE + "expertise_macros.rs, " + MOE + "algorithm.rs")],
  "exhaustiveness of the specification table + option dataflow",
  "Each (regression, correlation) pair of the table leads to the kind of that name; options reach each expert builder.")

p("C20", "Setting one option changes that option only",
  "Each configuration setter of the optimizer, surrogate, mixture, clustering and sampling builders stores the given value in the option it is named after and leaves each other option as it was. Changing the model kind of a builder keeps the options already set.",
  ["configurations", "histories"], "all sequences of setter calls and all values",
  "Tests set one or two options in one order.",
  [EGO + "egor.rs", EGO + "solver/egor_config.rs", GP + "parameters.rs", GP + "sparse_parameters.rs", MOE + "parameters.rs", DOE + "lhs.rs"], [("builder setters", EGO + "egor.rs, " + GP + "parameters.rs, " + MOE + "parameters.rs")],
  "effect (write-set) analysis of every setter on the value graph",
  "Each setter's result is compared field by field with its receiver.")

p("C21", "Each configured option reaches the computation it controls",
  "An option configured by the user (seed, sizes, budgets, strategies, tolerances, clusterings, recombination, reduction, tuning, activity, trust region, target) is read by the computation it documents, and not replaced by a default or by another option on the way.",
  ["configurations"], "all option values",
  "Tests run with default options or few of them; an ignored option leaves results plausible.",
  [EGO + "egor.rs", EGO + "solver/", EGO + "gpmix/", MOE + "algorithm.rs", GP + "algorithm.rs"], [("plumbing of the configuration", EGO + "solver/solver_impl.rs, " + EGO + "egor.rs")],
  "def-use dataflow from configuration fields to their sinks",
  "Confirmed table of option to sink pairs; each sink must receive the option.")

p("C22", "The Python interface hands its arguments to the Rust engine faithfully",
  "Each argument of the Python classes reaches the Rust option of the same meaning, unchanged, and each Python enumeration value selects the Rust variant of the same name. Results come back under their own names.",
  ["configurations"], "all argument combinations",
  "The Python bindings have no Rust-side tests.",
  [PY + "egor.rs", PY + "gp_mix.rs", PY + "sparse_gp_mix.rs", PY + "sampling.rs", PY + "types.rs"], [("argument plumbing", PY + "egor.rs, " + PY + "gp_mix.rs")],
  "dataflow from binding arguments to engine setters + enum table totality",
  "Every constructor argument and enum conversion of the bindings.")

p("C23", "Invalid hyperparameters are rejected before training",
  "A surrogate, sparse surrogate or mixture whose parameters are invalid (negative or null tuning, reduction dimension larger than the input, no cluster, missing or excess inducing points ...) is refused with an error before any training takes place, on every training entry point.",
  ["configurations", "inputs"], "all parameter values and training sets",
  "Tests try a couple of invalid values.",
  [GP + "parameters.rs", GP + "sparse_parameters.rs", MOE + "parameters.rs", GP + "algorithm.rs", GP + "sparse_algorithm.rs"], [("checked parameters", GP + "parameters.rs, " + GP + "sparse_parameters.rs, " + MOE + "parameters.rs")],
  "path-condition extraction of rejections + who-may-construct rule for validated parameters",
  "Every rejection condition is derived from the checks and every construction of validated parameters must pass through them.")

p("C24", "The configured infill criterion is the one optimized, value and gradient alike",
  "Each infill strategy name selects the criterion of that name, and each criterion's gradient differentiates the criterion's own value: they use the same incumbent, scaling and weights. Degenerate variances never yield a non-finite criterion.",
  ["configurations", "inputs"], "all strategies, surrogates, incumbents and points",
  "Tests check one criterion at few points.",
  [EGO + "criteria/", EGO + "egor.rs", EGO + "solver/solver_computations.rs"], [("criteria", EGO + "criteria/")],
  "symbolic differentiation of the criterion's value graph compared to its gradient",
  "Derivatives are taken on the extracted formulas and compared up to algebraic normal form.")

p("C25", "Correlation kernels are valid and their derivatives match",
  "Each correlation model returns 1 at zero distance, lies in (0, 1] and is symmetric in the sign of the distance, for all admissible hyperparameters. The derivative returned with a correlation value is the derivative of that same function.",
  ["inputs"], "all distances, hyperparameters, dimensions and projection weights",
  "Tests check a few points of each kernel.",
  [GP + "correlation_models.rs"], [("kernels and their jacobians", GP + "correlation_models.rs")],
  "abstract interpretation (parity, range, value at zero) and symbolic differentiation of kernel formulas",
  "Decided on the formulas derived from the source, over the reals.")

p("C26", "Predicted variances are never negative",
  "Every model's predicted variance is non-negative at every point, whatever the training data, hyperparameters and rounding errors; so are the variances of mixtures and wrappers.",
  ["inputs"], "all models and points, rounding included",
  "Tests look at few points far from the rounding regime.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", MOE + "algorithm.rs"], [("clamping of the variance", GP + "algorithm.rs, " + GP + "sparse_algorithm.rs")],
  "sign-domain abstract interpretation of the returned value graph",
  "Signs derived over IEEE semantics of the operations used; squares, products and sums of non-negatives.")

p("C27", "Trust-region candidates stay in the domain and in the region",
  "The candidate starting points of a local (trust-region) step are drawn in the intersection of the domain with the region centred at the best point, its infill point lies in the domain, and when no candidate is found the best point is kept. The size of the region only changes by the configured factors: it grows after a step which improves the objective and shrinks after a local step which does not.",
  ["inputs", "histories", "configurations"], "all domains, incumbents, region sizes and iteration histories",
  "Tests run one trust-region optimization and look at the optimum.",
  [EGO + "solver/trego.rs", EGO + "solver/egor_solver.rs"], [("local box", EGO + "solver/trego.rs")],
  "interval derivation of the local box on the value graph",
  "Bounds of the box as lattice expressions (max of lower, min of upper) for all inputs.")

p("C28", "Hyperparameters are searched in one consistent scale",
  "The likelihood optimization works on logarithms of the hyperparameters: initial guesses and bounds are converted once to that scale, and each candidate is converted back exactly once before it is used or returned. The bounds stay paired with their own component.",
  ["inputs", "configurations"], "all tunings, bounds, restarts",
  "Tests check that training succeeds on few data sets.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", GP + "optimization.rs"], [("log scale conversions", GP + "algorithm.rs, " + GP + "optimization.rs")],
  "unit (scale) inference over the value graph",
  "log10/pow10 scale labels must agree at every sink.")

p("C29", "Shared locks cannot deadlock an optimization",
  "No computation that holds the lock on the shared random generator or on a shared problem structure waits for the same lock again, nor keeps it while calling user-supplied functions or other threads' work.",
  ["schedules"], "all thread schedules",
  "Tests run few schedules.",
  [DOE + "lhs.rs", DOE + "random.rs", EGO + ""], [("lock guards", DOE + "lhs.rs, " + DOE + "random.rs")],
  "lock-region analysis over MIR (guard live ranges) and the call graph",
  "Guard lifetimes are exact on MIR; calls made within are closed over the call graph.")

p("C30", "Models behave the same for each supported float type",
  "Every computation that is generic over the float type converts values numerically and never reinterprets their memory. No unsafe memory access is used outside the listed, justified sites.",
  ["inputs", "programs"], "all float types and programs",
  "Tests mostly instantiate double precision.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", GP + "optimization.rs"], [("float conversions", GP + "optimization.rs, " + GP + "algorithm.rs")],
  "who-may-use rule on raw pointer dereference, transmute and unsafe operations in MIR",
  "All unsafe operations of the workspace are enumerated on MIR.")

p("C31", "An optimization stops at its budget and target, not otherwise",
  "A run stops as soon as its best point is feasible and reaches the target, or when the configured number of iterations is spent, and does not stop for another reason, except when no new point could be added after the documented number of attempts of one iteration. The iteration counter advances by one per iteration, extending a run adds to its budget, and the iteration reported as the last improvement is the one in which an added point became the best.",
  ["histories", "configurations"], "all targets, budgets and histories",
  "Tests use one or two targets.",
  [EGO + "solver/egor_solver.rs", EGO + "egor.rs"], [("termination test", EGO + "solver/egor_solver.rs, " + EGO + "solver/egor_state.rs")],
  "path-condition extraction of the termination decision",
  "Derives the exact conditions under which termination is reported.")

p("C32", "Cooperative activity covers every variable and moves only active ones",
  "With cooperative activity each input component belongs to exactly one group of the activity table, and optimizing within a group changes only the components of that group: the others keep the values of the reference point. Likewise hyperparameter updates.",
  ["inputs", "configurations"], "all dimensions, group counts and points",
  "Tests use one dimension and group count.",
  [EGO + "solver/coego.rs", EGO + "solver/solver_impl.rs", EGO + "solver/solver_infill_optim.rs"], [("activity table and partial updates", EGO + "solver/coego.rs")],
  "value-graph derivation of the partition and of the masked writes",
  "Decides the partition of indices and the mask agreement of reads and writes.")

p("C33", "Suggesting points evaluates nothing and changes nothing given",
  "Asking for the next points to evaluate never calls an objective function and leaves the given data untouched; each suggestion is decoded to the declared variable types, and as many suggestions as configured are returned.",
  ["inputs", "configurations"], "all data sets and configurations",
  "Tests call the service in one configuration.",
  [EGO + "solver/egor_service.rs", EGO + "solver/solver_impl.rs"], [("service entry point", EGO + "solver/egor_service.rs")],
  "call-graph reachability + provenance of the returned points",
  "Decides what the service entry point may call and where its result comes from.")

p("C34", "A Gaussian process predicts in the units of its training data",
  "Each prediction of a Gaussian process normalises the point with the training inputs' mean and deviation, projects it with the trained weights, and converts the normalised output back with the training outputs' mean and deviation: values are shifted and scaled, variances scaled by the square, gradients by the ratio of deviations.",
  ["inputs"], "all training data, points, means, correlations and reductions",
  "Tests check accuracy on a few functions where a scale error can hide.",
  [GP + "algorithm.rs", GP + "sparse_algorithm.rs", GP + "utils.rs"], [("normalisation", GP + "utils.rs"), ("predictions", GP + "algorithm.rs")],
  "dimensional (unit) inference on the value graph",
  "Affine units (offset and scale of inputs and outputs) inferred for each returned value.")

# properties this family cannot decide
NA = {
    "C40": ("A trained Gaussian process interpolates its training data",
            "Without nugget, the value predicted at a training point equals the training output up to rounding and the predicted variance there vanishes.",
            "numerical: depends on the conditioning of the correlation matrix and rounding of triangular solves; no static argument bounds it"),
    "C41": ("Optimization converges to the optimum",
            "Given enough iterations a run finds a point whose objective is close to the global optimum.",
            "asymptotic behaviour of runtime data; nothing in the shape of the code decides it"),
    "C42": ("Expectation-maximization yields a valid mixture",
            "The responsibilities computed from fitted clusters sum to one at every point and covariances are positive definite.",
            "numerical property of floating-point iterations on runtime data (log-sum-exp of runtime densities)"),
    "C43": ("Cross-validation metrics measure predictive quality",
            "Leave-one-out and k-fold scores of a model equal those computed by refitting it on each fold.",
            "equality of two runtime computations through a generic training routine and a randomised split; only testable by running"),
    "C44": ("Likelihood optimization never returns hyperparameters worse than its starts",
            "The retained hyperparameters have a likelihood at least as good as the initial guess.",
            "depends on the external optimizers' runtime results"),
}
