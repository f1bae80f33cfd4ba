#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the statements)."""
import json, os
C = "src/main/cxx/core/"
A = "src/main/cxx/apps/"
U = "src/main/cxx/util/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Concurrent evaluation is race-free and schedule-independent",
 "The candidates of a generation, and the trial points of the uncertainty estimate, are evaluated concurrently. For every interleaving of these evaluations and every number of processors, the optimizer terminates, every candidate is evaluated exactly once, no memory is accessed without synchronisation by two evaluations (or an evaluation and the optimizer), and the result equals that of evaluating the candidates one after the other.",
 ["schedules", "configurations"],
 "all interleavings of the evaluation threads (and the coordinating thread) at synchronisation operations, for all reported processor counts, several population sizes and the library's own spectral models as objective",
 "The tests run one schedule per execution, chosen by the operating system, and compare rounded results; a race or a lost join that needs a particular preemption is not reached.",
 [C+"optimize.h", C+"model.h", C+"section.h", C+"profiles.h"],
 [("one thread per candidate, joined before ranking", C+"optimize.h optimize()"), ("two threads per trial step", C+"optimize.h postopti()"), ("const, side-effect-free cost evaluation", C+"model.h cost(), section.h cost()")],
 ["Optimizer::minimize/maximize", "memory accesses and synchronisation operations of the instrumented build"])

prop("C02", "Results depend on the inputs alone and are reproducible",
 "The same objective or model definition, seed and settings (with a newly built optimizer) give exactly the same result, number for number, whether computed in a fresh process or after any history of other runs in the same process, whatever the environment, locale settings, memory contents or number of processors. Running again the definition and command kept in a result file reproduces that file.",
 ["histories", "configurations"],
 "all histories up to length three of runs (searches that finish, stop, fail with an exception or underflow, fits with every line type, parse errors, other library functions, locale and memory changes) before the observed run; a grid of process environments; results run again once and twice",
 "Each test runs an optimization once in a process with a fixed history and environment and compares rounded numbers.",
 [C+"optimizer.h", C+"optimize.h", C+"deviates.h", C+"random.h", C+"decompose.cxx", C+"model.h", "src/main/scripts/erun"],
 [("generator seeded per optimizer", C+"optimizer.cxx Optimizer()"), ("no global mutable state", C), ("command and definition copied to the output", C+"runner.cxx, model.h get()")],
 ["Optimizer::Result getters", "standard output of curcuma, mascada, oregano, azafran"])

prop("C03", "Extraction tools return exactly the requested part of a result",
 "The tools that extract the command, the data, the log, the messages and the model definition copy to the output exactly the lines strictly between the opening and closing line of their part, unchanged and in order, for any text on the standard input, including former spellings of the tags, repeated, nested, missing or unterminated parts and other parts' tags.",
 ["inputs"],
 "all sequences up to length L over an alphabet of lines made of every (current and former) opening and closing tag, tags with surrounding characters, empty and ordinary lines, with and without a final newline",
 "The tests only pass one well-formed result file through three of the tools.",
 [A+"ecom.cxx", A+"edat.cxx", A+"elog.cxx", A+"emes.cxx", A+"emod.cxx"],
 [("two-state line filter", A+"emod.cxx main()")],
 ["standard output and exit code of the five tools"])

prop("C04", "Parameter bounds are respected throughout",
 "Every candidate evaluated during a search that starts at a permitted point satisfies the constraint given, so that with bounds every optimized parameter stays within its lower and upper bound (inclusive) in every generation, and the reported best-fit values lie within the bounds too (up to rounding of their mean). A candidate violating the constraint is resampled without disturbing the values already accepted.",
 ["inputs", "histories"],
 "all sequences of deviates up to a bounded length over a finite alphabet that makes candidates fall inside, on and outside the bounds, all small bound configurations (one-sided, tight, touching the start point), plus real optimizations of small models",
 "The tests use constraints only in whole fits whose optimum lies well inside the bounds.",
 [C+"optimize.h", C+"model.h"],
 [("rejection loop", C+"optimize.h optimize()"), ("inclusive bounds", C+"model.h Bounded_Constraint::is_violated()")],
 ["arguments of the objective function", "Optimizer::Result::get_parameter_values"])

prop("C05", "Each generation follows the published evolution strategy",
 "From any admissible strategy state, one generation ranks the candidates by fitness and changes the mean, global and local step sizes, covariance matrix, rotation matrix and both cumulation paths exactly as the documented equations (Hansen and Ostermeier 2001, Hansen 2014) prescribe, including the update modulus, the conditioning limit of the covariance matrix and the recombination weights given. Continuing a search from a saved state equals not interrupting it.",
 ["inputs", "histories"],
 "all sequences of normal deviates from a finite alphabet for small dimensions and populations, all rankings they induce, all start states and strategy settings of a finite menu, chained over several generations",
 "The tests check that a few standard functions are minimised for one seed, which a wrong rate, path or rank update still achieves.",
 [C+"optimize.h"],
 [("recombination, covariance and step size adaptation", C+"optimize.h optimize()")],
 ["strategy state passed to and returned from optimize()"])

prop("C06", "Termination and reported status are truthful",
 "An optimization ends after the stop generation at the latest, and otherwise exactly in the first generation in which the accuracy goal is met for all parameters or all selected candidates are equally fit and no better than the others, and it reports which of these happened. The generation number, fitness (equal to the objective at the reported parameter values) and traced log lines agree with the computation; a program's exit code and message agree with the status.",
 ["inputs", "configurations"],
 "all combinations of stop generation, accuracy goal, trace modulus, update modulus, population and objective class in a finite menu, judged against an independent replay of the generations",
 "The tests look at converged runs with a single stop generation and hardly at the status.",
 [C+"optimize.h", C+"optimizer.h", C+"runner.h", C+"runner.cxx"],
 [("loop conditions", C+"optimize.h optimize()"), ("exit codes and messages", C+"runner.h run(), runner.cxx write_result_messages()")],
 ["Optimizer::Result", "tracer calls", "exit code and output of the programs"])

prop("C07", "A model definition means what the documentation says",
 "For every well-formed model definition the parsed model has exactly the sections, lines, constants, optimized parameters, start values, bounds (in either order) and references written: a parameter referring to another section or line always takes that parameter's value, chains of references included, and each independent optimized parameter appears exactly once. Comments, blank lines and layout do not matter, and the definition is copied verbatim to the output.",
 ["programs", "inputs"],
 "all model definitions generated by a bounded grammar (sections, lines, modes fixed/free, reference targets, bound orders, comments, layout, identifiers)",
 "The tests parse a handful of hand-written models without inspecting the parsed result.",
 [C+"model.h", C+"readline.h", C+"readline.cxx"],
 [("parser and dereferencing", C+"model.h get()"), ("initial values, steps and constraint", C+"model.h get_initial_parameter_values(), get_constraint()")],
 ["Model<Function>::parse and its getters", "cost as a function of each parameter"])

prop("C08", "A malformed model definition is rejected, never misread",
 "Parsing ends for every text whatsoever and either yields a model consistent with the text or reports an error: missing or surplus tokens, wrong numbers, unknown, self or cyclic references, duplicate identifiers, unterminated or empty sections, missing, empty or corrupt data files and definitions without any section are reported, with a nonzero exit code. It never crashes, hangs or accesses memory out of bounds.",
 ["programs", "inputs"],
 "all single and pairwise edits (token deleted, duplicated, swapped, replaced from an alphabet) of a set of base definitions, all reference graphs over a few names, and all truncations",
 "The tests contain only well-formed definitions.",
 [C+"model.h", C+"readline.h", C+"section.cxx", C+"runner.h"],
 [("error branches of the parser", C+"model.h get()")],
 ["Model<Function>::parse", "exit code of the programs"])

prop("C09", "Spectra are read exactly, and written data can be read back",
 "Reading spectral data selects exactly the data points of the first block of lines whose wavelength lies in the requested interval (end points included), in order, skipping comment lines, with missing uncertainties taken as unity and missing selection flags as true; text that is not data or an empty selection is an error. Data written out and read back keep every wavelength, flux, uncertainty and flag.",
 ["inputs"],
 "all files up to a few lines over an alphabet of line shapes (two to four columns, comments, blanks, garbage, values on the interval ends), all intervals, file sizes around buffer limits",
 "The tests read four fixed spectra.",
 [C+"section.cxx", C+"section.h"],
 [("line reader", C+"section.cxx get()"), ("writer", C+"section.cxx put()")],
 ["Section::get, put and counting accessors"])

prop("C10", "Masked data have no influence and cost is half of chi-square",
 "The cost of a section is half the sum of squared, uncertainty-weighted residuals over the valid data points only; it is the same whether evaluated directly or after applying the model, and the cost of a model is the sum over its sections. Masking removes exactly the points in the closed interval, and flux or uncertainty values of masked points never change the cost, continuum or fit at valid points.",
 ["inputs"],
 "all masks over small spectra, all interval end points relative to data points, substitutions of masked values (including extreme ones), all small section and line counts",
 "The tests mask a few fixed regions and compare a total with two digits.",
 [C+"section.h", C+"section.cxx", C+"model.h"],
 [("mask tests in sums", C+"section.h cost(), section.cxx continuum(), cost()")],
 ["Section::cost, mask, valid_data_count, put", "Model::cost"])

prop("C11", "The background continuum is the weighted least-squares optimum",
 "For any number of Legendre basis polynomials, data, uncertainties, mask and absorption profile, the continuum multiplied by the absorption profile is the unique weighted least-squares fit to the valid data by Legendre polynomials on the section; with no polynomial it is unity. If the fit is not unique, an error is reported instead of a result.",
 ["inputs", "configurations"],
 "all small data sets over finite flux and uncertainty alphabets, all masks, polynomial counts from zero to beyond the data count, several absorption profiles",
 "The tests use two or three polynomial counts on fixed spectra and compare rounded costs.",
 [C+"section.cxx"],
 [("normal equations and Cholesky solution", C+"section.cxx continuum()")],
 ["Section::apply and put columns", "Section::cost"])

prop("C12", "Instrumental convolution is exact for any sampling",
 "The convolved absorption is the exact convolution of the piecewise linear absorption with the Gaussian instrumental profile of the given resolution (truncated at four half widths), with the outermost segments continued at the section ends and with additional sampling points inserted when the data are coarser than the instrumental profile. A constant absorption is unchanged up to the truncated tail, and no data size or resolution leads to an access out of bounds.",
 ["inputs", "configurations"],
 "a grid of section sizes, spacings, resolutions on both sides of every sampling transition, and absorption shapes, against direct reference integration",
 "The tests fit spectra with one resolution each, all finely sampled or not, at two digits.",
 [C+"section.h", C+"section.cxx"],
 [("convolution and supersampling", C+"section.h convolute(), section.cxx supersample(), primitive()")],
 ["Section::apply, cost, put"])

prop("C13", "Line profiles match their physical definition",
 "For all parameter values the optical depth of every line type equals its documented formula: position by rest wavelength, redshift and radial velocity, strength by oscillator strength and column density, shape by Doppler or (pseudo-)Voigt broadening, and many-multiplet shift by the variation of the fine-structure constant. The depth of several lines is the sum of their depths in any order, and lines are symmetric about their shifted centre.",
 ["inputs"],
 "a full grid over small alphabets for every profile parameter, wavelengths across core and wings, and superpositions of up to four lines",
 "The tests evaluate a few profiles at one parameter set.",
 [C+"profiles.h", C+"profiles.cxx"],
 [("profile classes", C+"profiles.cxx"), ("superposition", C+"profiles.h Superposition")],
 ["profile function objects and getters"])

prop("C14", "Quadrature attains its goal and its refinements are consistent",
 "Definite integrals over finite and semi-infinite intervals attain the requested accuracy for smooth integrands, are exact for polynomials up to the degree of the formula, change sign with the interval and are additive; function values are reused by refinements without changing the result. The equivalent width of a line equals the integral of its absorption at its observed position.",
 ["inputs", "configurations"],
 "all pairs of quadrature formulas, a grid of intervals, goals and integrand families (monomials up to the exactness degree, smooth, peaked and one-sided functions), and line parameter grids for equivalent widths",
 "The tests integrate two functions on one interval.",
 [C+"integrator.h", C+"profiles.h"],
 [("recursive monotone stable formulas", C+"integrator.h"), ("equivalent width", C+"profiles.h Equivalent_Width_Calculator")],
 ["Integrator::integrate*, Equivalent_Width_Calculator::calculate"])

prop("C15", "Eigenvalue decomposition is correct for every symmetric matrix",
 "For every symmetric matrix given by its upper triangle the decomposition returns orthonormal eigenvectors and ascending eigenvalues that reproduce the matrix, for all decomposition strategies and dimensions; the other triangle is ignored, the input is not changed, and earlier uses or copies of the decomposer do not matter. A failure of the underlying solver is reported as an error.",
 ["inputs", "histories"],
 "all symmetric matrices of small dimension over a finite alphabet of entries, larger structured ones (repeated, zero and widely spread eigenvalues), all strategies, call histories and copies",
 "The tests decompose three fixed matrices.",
 [C+"decompose.h", C+"decompose.cxx"],
 [("LAPACK drivers and workspace", C+"decompose.cxx")],
 ["D_Decompose, R_Decompose, X_Decompose call operators"])

prop("C16", "Random numbers are those of the documented generators",
 "For every seed the pseudo-random generators produce exactly the sequences of the published algorithms, across state regenerations, uniformly scaled into the documented interval, and the normal deviates are exactly those of the polar method applied to them, pair by pair. Copies continue independently with the same sequence.",
 ["inputs", "histories"],
 "a grid of seeds (bit patterns, arrays of seeds), sequences long enough to cross several state regenerations, every interleaving of draws from an object and its copies up to a depth",
 "The tests compare one number after a fixed count for one seed.",
 [C+"random.h", C+"deviates.h"],
 [("generators", C+"random.h"), ("polar method", C+"deviates.h")],
 ["generator call operators", "Normal_Deviate"])

prop("C17", "Data utilities transform every row and nothing else",
 "The wavelength conversion, velocity correction and merging utilities keep the number and order of rows, leave flux and uncertainty values unchanged, skip exactly the requested number of leading lines, transform every wavelength by the documented formula, never invent or misalign an uncertainty (files with the same wavelengths for merging) and fail with a nonzero exit code and no output for invalid input.",
 ["inputs"],
 "all small files over an alphabet of row shapes (two and three columns, mixed, blank, garbage, extreme numbers), all skip counts around the file length, all argument lists of a finite menu",
 "There is no test of the utilities.",
 [C+"dataio.cxx", A+"ezip.cxx", U+"airtovac.cxx", U+"vactoair.cxx", U+"helicorr.cxx"],
 [("column reader and writer", C+"dataio.cxx"), ("argument handling", A+"ezip.cxx, "+U+"*.cxx")],
 ["exit code, standard output and error of ezip, airtovac, vactoair, helicorr"])

prop("C18", "Every failure ends in a documented exit code",
 "Whatever arguments, model definition or numerical failure a program meets, including an error raised while a candidate is evaluated concurrently and a failure to start a thread, it ends by itself with the documented exit code (logic 8, runtime 16, unspecific 64, underflow 1, stopped 2, success 0) and a message, and an error raised by an objective function reaches the caller of the optimizer as the same error.",
 ["inputs", "fault_sequences"],
 "all argument lists of a finite menu, all positions (candidate and generation, trial point of the uncertainty estimate) and kinds of error raised by the objective, every failing thread creation and matrix decomposition; exhaustion of memory excluded, search steps of a size comparable to the bounds",
 "The tests contain only successful runs.",
 [C+"runner.h", C+"optimize.h", C+"exitcodes.h", A+"curcuma.cxx"],
 [("exception propagation", C+"optimize.h"), ("catch clauses", A+"curcuma.cxx main()")],
 ["exit status and standard error of the programs", "exceptions from Optimizer::minimize/maximize"])

prop("C19", "Optimizer settings are independent of the order they are given in",
 "After any sequence of settings the configuration reports the last value given for each (a new parent number also sets the population to twice that number), and the strategy parameters and recombination weights are those the published formulas give for the current dimension and parent number. An optimizer keeps the settings it was built with, whatever happens to the builder later.",
 ["histories", "configurations"],
 "all sequences of setter calls and builds up to a depth over small argument domains, from fresh, default-reset and copied builders",
 "The tests use one fixed order of settings.",
 [C+"optimizer.h", C+"optimizer.cxx"],
 [("strategy parameter update", C+"optimizer.cxx Builder")],
 ["Optimizer::Builder getters", "optimization behaviour of built optimizers"])

prop("C20", "Maximisation mirrors minimisation and search is scale-invariant",
 "Maximising the negative of a function gives exactly the parameters, steps and status of minimising the function, with opposite fitness (constraints without cost). The search depends on the fitness only through its ranking, so strictly increasing transformations of the objective and (exact) rescaling of the parameters, start values and steps leave the search path unchanged up to that rescaling.",
 ["inputs", "configurations"],
 "all combinations of objective class, dimension, seed, population, constraint and start state of a finite menu, generation by generation",
 "The tests maximise one function and never relate two runs.",
 [C+"optimizer.h", C+"optimize.h"],
 [("comparators", C+"optimizer.h minimize(), maximize()"), ("indirect ranking", C+"optimize.h Index_Compare")],
 ["Optimizer::Result of paired runs"])

prop("C21", "Parameter uncertainties are calibrated by the objective's curvature",
 "For a converged search the reported uncertainties are those given by the curvature of the objective along the principal axes of the search distribution: for a quadratic objective they equal the square roots of the diagonal of the search covariance, scaled by the geometric mean of the curvature scales, independent of the final step size. The estimate terminates from any step size, also for flat, bounded and discontinuous objectives, and is not made when the search has not converged.",
 ["inputs", "configurations"],
 "a grid of positive definite quadratic objectives (curvatures, orientations, offsets), of flat and infinite objectives, step sizes from far too small to far too large, dimensions one to four; full searches for the chained behaviour",
 "The tests never look at uncertainties except in rounded result tables.",
 [C+"optimize.h", C+"optimizer.h"],
 [("three-point parabola and bracketing", C+"optimize.h postopti()")],
 ["uncertainties from postopti() and Optimizer::Result"])

prop("C22", "The result file reports the optimized model faithfully",
 "The parameter table and data section of a result agree with the optimized model: every line and section appears once with its own parameter values and uncertainties (none for constants), references show the value referred to, the costs, bounds and data counts are those of the data written, and data columns are consistent with each other. Line positions and their uncertainties follow from the line's own rest wavelength, redshift and velocity and their uncertainties.",
 ["programs", "inputs"],
 "all small models of a bounded grammar (sections, lines, fixed, free and referenced parameters, line types, polynomial counts, masks) with distinct values for every parameter",
 "The tests search the output for one cost value.",
 [C+"model.h", C+"section.cxx"],
 [("table writer", C+"model.h put(), put_parameter()"), ("value assignment", C+"model.h set()")],
 ["Model::set and put output"])

prop("C23", "A result that could not be written completely is not reported as success",
 "If the result written by a program, utility or extraction tool cannot be written completely, because the device is full or a limit is reached at any point, the program ends with a nonzero exit status; if it reports success, every byte of the output has been written.",
 ["fault_sequences"],
 "every byte position at which the output can be cut off, for each program, and a device that is always full",
 "No test makes an output fail.",
 [C+"runner.h", A+"emod.cxx", A+"ezip.cxx", U+"airtovac.cxx"],
 [("stream state tests before success is returned", C+"runner.h run()")],
 ["exit status and bytes written"])

prop("C24", "Scripts never lose data and report the verdict truthfully",
 "Re-running a result file (to a different target) succeeds only if every expected value is present as a cost in the new result, which contains the new run's output. Applying a command to a list of files replaces each file by the command's result, and at every point at which a step fails or the script is killed, the original content of each file not successfully replaced is still present, either in place or as backup (distinct files, none of which is the backup of another).",
 ["crash_points", "fault_sequences", "inputs"],
 "every step of the script failing or killed, for one to three files, commands that succeed, fail or produce nothing, file names with blanks and directories; all small sets of expected and present values",
 "The tests run the re-run script on successful models only; the other script is not tested.",
 ["src/main/scripts/erun", "src/main/scripts/foreach"],
 [("backup, replace, remove", "src/main/scripts/foreach"), ("expected value search", "src/main/scripts/erun")],
 ["exit status and files left by the scripts"])

prop("C25", "Wavelength equations are accurate and invert each other",
 "The refractivity and dispersion formulas equal the published equations with correct derivatives; converting vacuum to air wavelengths and back returns the original for all wavelengths of the documented range, conversion is monotonic, the Doppler factor composes with its inverse to unity, and the root finder returns a solution of the requested accuracy or reports an error.",
 ["inputs"],
 "a dense grid of wavenumbers and velocities, all three dispersion equations, all goals and iteration limits of a finite menu",
 "There is no test of the equations.",
 [C+"equations.h", C+"equations.cxx", C+"base.h"],
 [("dispersion formulas", C+"equations.h"), ("Newton iteration", C+"base.h solve()")],
 ["Equations functions, solve(), redshift()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
