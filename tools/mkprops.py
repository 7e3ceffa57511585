#!/usr/bin/env python3
"""Source of properties.jsonl (one P(...) call per property). Run: python3 tools/mkprops.py"""
import json, os
out = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OP = "src/optimization/params/"
# ---------------------------------------------------------------- parameters
P("C01", "Integer parameters survive the chromosome round trip",
  "For every interval [min, max] and every integer in it, encoding an integer parameter to its chromosome and decoding that chromosome gives the same integer back, distinct integers get distinct chromosomes, and the chromosome is no longer than needed to tell max-min+1 values apart. Whatever bits are decoded, the parameter reports its constraint satisfied exactly when the decoded integer lies in [min, max].",
  ["inputs", "configurations"], "all intervals up to the full int width, all values in them, all bit patterns of the chromosome's size",
  "No existing test touches the parameter classes: only the GA example's exit code depends on them, and it never uses the top of a power-of-two range.",
  [OP + "int_parameter.cpp"], [("chromosome size from the width of the interval", OP + "int_parameter.cpp CountChromosomeSize"), ("bitwise encode/decode", OP + "int_parameter.cpp SetChromosomeFromInt/GetIntFromChromosome")],
  ["chromosome bits", "value getter", "constraint check"])
P("C02", "Real parameters quantise within the promised precision, never out of bounds",
  "A real-valued parameter with bounds and a desired precision never uses a grid coarser than desired; both bounds are representable; every chromosome decodes to a value within the bounds, and setting a value in the bounds stores one no further away than one grid step. A value read from a parameter and written back (directly or through the chromosome) comes back as the same chromosome.",
  ["inputs", "configurations"], "all chromosomes and all values within bounds, over a family of bounds and precisions",
  "No test builds a real parameter; the examples use two fixed intervals and check only the exit code.",
  [OP + "double_parameter.cpp", OP + "double_parameters_array.cpp"],
  [("grid size", OP + "double_parameter.cpp CountBestMaxInt"), ("value <-> grid index", OP + "double_parameter.cpp GetValue/SetValue")],
  ["value getter", "actual precision getter", "chromosome bits"])
P("C03", "Parameter arrays and composites encode their parts independently",
  "The chromosome of an array or composite of parameters is as long as its parts' chromosomes together, and encoding then decoding restores every part; changing one part changes only that part's bits, and decoding changed bits changes only that part. The whole satisfies its constraints exactly when every part does.",
  ["inputs", "configurations"], "all values/chromosomes of arrays and composites of up to three parts (also nested)",
  "No test touches the array or composite classes.",
  [OP + "double_parameters_array.cpp", OP + "composite_discrete_parameters.cpp"],
  [("walk over the parts with per-part chromosome sizes", OP + "composite_discrete_parameters.cpp SetChromosome/SetFromChromosome"), ("shared sample parameter", OP + "double_parameters_array.cpp")],
  ["chromosome bits", "part values", "constraint check"])
P("C04", "Wrong-sized input is rejected and leaves parameters unchanged",
  "Handing any built-in parameter class a chromosome range or a value vector of the wrong length throws, writes nothing to the chromosome range and leaves the parameter's values as they were; so does a vector with a value outside the bounds, and using a composite before it is initialised. Re-initialising one that already is initialised throws too.",
  ["inputs", "configurations"], "all wrong sizes up to a bound, all vectors with an out-of-bounds entry",
  "Error paths of the parameter classes are not tested at all.",
  [OP + "const_chromosome_size_paremeters.cpp", OP + "double_parameters_array.cpp", OP + "continuous_parameters_array.cpp", OP + "composite_discrete_parameters.cpp", "src/optimization/initialization_checker.cpp"],
  [("size check before use", OP + "const_chromosome_size_paremeters.cpp CheckForConstChromosomeSize"), ("initialised-once check", "src/optimization/initialization_checker.cpp")],
  ["exceptions", "values after the throw"])
P("C05", "Clones are equal, deep and independent",
  "A clone of a parameter object has the same values, bounds, precision, chromosome and constraint verdict as the original; afterwards nothing done to one of the two changes the other, and a clone outlives its original.",
  ["inputs", "histories"], "all values of each parameter class, every mutating operation on either copy",
  "No test clones a parameter object.",
  [OP + "int_parameter.cpp", OP + "double_parameter.cpp", OP + "double_parameters_array.cpp", OP + "composite_discrete_parameters.cpp", OP + "continuous_parameters_array.cpp"],
  [("per-class Clone", OP + "*.cpp Clone"), ("composite clones its parts", OP + "composite_discrete_parameters.cpp Initialize")],
  ["getters of original and clone"])
# ---------------------------------------------------------------- GA
GA = "src/optimization/genetic_algorithm/"
P("C06", "An individual's genes, parameters and fitness never drift apart",
  "After any sequence of crossover, mutation, adopting parameters and fitness evaluation, the parameters decoded from an individual are exactly what its chromosome encodes, its constraint verdict is theirs, and its fitness is the objective of those parameters. Changing an individual never leaves it with the fitness of what it was before.",
  ["histories", "inputs"], "all short histories of genetic operations with all gene values and all random draws",
  "Individuals are exercised only inside the GA example, which checks nothing about them.",
  [GA + "individual.cpp"],
  [("fitness reset on gene change", GA + "individual.cpp"), ("decode on demand", GA + "individual.cpp")],
  ["chromosome", "parameters", "fitness"])
P("C07", "Crossover conserves genes at every locus",
  "After crossover of two individuals of equal chromosome length, each locus of the two chromosomes still holds the same pair of bits as before, the first part unchanged and the rest exchanged at one cut point; lengths stay as they were. Crossover of individuals with different chromosome lengths is rejected.",
  ["inputs"], "all chromosome contents and all random draws, lengths up to a bound (0 and 1 included)",
  "No unit test covers crossover.",
  [GA + "individual.cpp"], [("single-point crossover", GA + "individual.cpp Crossover")], ["both chromosomes before/after"])
P("C08", "Mutation respects its probability extremes and keeps chromosome length",
  "Mutating an individual never changes its chromosome's length; the linear mutator flips every gene at probability 1 and none at probability 0, and each gene can be flipped or kept at any probability in between. The flip-bit mutator accepts exactly the probabilities in (0, 1/2], the linear one exactly those in [0, 1]; others are reported as invalid.",
  ["inputs"], "all chromosome contents, all random draws, lengths up to a bound, all probabilities",
  "The only mutator test checks the schedule of the linear mutator, not the mutation.",
  [GA + "individual.cpp", GA + "flip_bit_mutator.cpp", GA + "gen_mutator_base.cpp", "src/common/helpers.cpp"],
  [("per-gene event draw", GA + "gen_mutator_base.cpp"), ("geometric gap draw", GA + "flip_bit_mutator.cpp"), ("probability validation", "src/common/helpers.cpp")],
  ["chromosome before/after", "exceptions"])
P("C09", "The scheduled mutation rate stays between its start and end rates",
  "The linearly scheduled mutation rate equals the start rate in the first generation and the end rate in the last, moves monotonically between them, never leaves the interval they span (hence never [0, 1]), and never makes mutation fail.",
  ["inputs", "configurations"], "all start/end rates in [0,1], all generation counts and indices",
  "The unit tests check a handful of schedules.",
  [GA + "linear_mutator.cpp"], [("linear interpolation over generations", GA + "linear_mutator.cpp")], ["mutation probability", "exceptions"])
P("C10", "Random draws honour their documented ranges",
  "Whatever the underlying generator returns, a uniform discrete draw lies in [min, max) or the documented closed range and can reach each value, a uniform continuous draw lies within its interval, an event of probability 0 never happens and one of probability 1 always does, and both outcomes of a random bit are reachable for each consecutive draw.",
  ["inputs"], "all generator outputs, all interval bounds up to full int width",
  "No test covers the random module: its outputs are random.",
  ["src/common/random.cpp"], [("scaling of rand()", "src/common/random.cpp"), ("bit buffer", "src/common/random.cpp GetRandomBool")], ["return values"])
P("C11", "The genetic algorithm returns the best individual it ever evaluated",
  "For every objective with finite non-negative values, the parameters the genetic algorithm returns satisfy their constraints and score no worse than any individual evaluated during the run, and the best score per generation never gets worse.",
  ["inputs", "configurations", "histories"], "all objective functions, all random draws, over small populations and generation counts",
  "The GA example checks nothing but its exit code; a wrong or lost best individual is invisible to the suite.",
  [GA + "genetic_algorithm.cpp", GA + "individual.cpp"],
  [("best individual kept aside", GA + "genetic_algorithm.cpp"), ("elite copied to the next generation", GA + "genetic_algorithm.cpp")],
  ["returned parameters", "objective calls", "generation statistics"])
P("C12", "The genetic algorithm never asks for the fitness of infeasible parameters",
  "During a run of the genetic algorithm the objective is only evaluated on parameters that satisfy their constraints; infeasible initial parameters are rejected with an exception.",
  ["inputs", "configurations"], "all objective functions and random draws over small populations whose parameters have infeasible codes",
  "The example's parameters have no infeasible codes.",
  [GA + "genetic_algorithm.cpp", GA + "individual.cpp"],
  [("repeat until constraints hold", GA + "genetic_algorithm.cpp")], ["objective calls", "exceptions"])
P("C13", "A genetic run honours its stop criterion, generation limit and population size",
  "A genetic run performs at most the configured number of generations, stops early once the stop criterion value is reached and not before, and every generation has the configured population size.",
  ["inputs", "configurations"], "all objective functions and random draws over small configurations",
  "No test looks at the number of generations.",
  [GA + "genetic_algorithm.cpp", GA + "generation_statistics.cpp"],
  [("generation loop", GA + "genetic_algorithm.cpp")], ["generation statistics", "objective calls"])
P("C14", "Caching fitness values never changes the outcome of a genetic run",
  "With any fitness-cache size the genetic algorithm gives each individual the fitness of the objective currently being optimised for exactly that individual's parameters, also on later runs of the same optimiser with another objective, and a full cache never aborts the run.",
  ["inputs", "histories", "configurations"], "all objective functions, random draws and small cache sizes, two consecutive runs",
  "No test runs the GA twice or with a small cache.",
  [GA + "genetic_algorithm.cpp", "include/k52/common/cache.h"],
  [("fitness cache keyed by the chromosome", GA + "genetic_algorithm.cpp")], ["objective calls vs. fitness used"])
# ---------------------------------------------------------------- common
P("C15", "The cache behaves as a map that forgets only when asked or full",
  "A lookup in the cache returns exactly the value last stored under an equal key or reports it missing. Nothing is forgotten while the memory limit is not exceeded; when it is exceeded, values that were never fetched go first; storing never fails, whatever the limit, and later stores and lookups keep working.",
  ["histories", "inputs"], "all histories of a few operations with symbolic keys and values, all small limits",
  "No unit test covers the cache.",
  ["include/k52/common/cache.h"], [("hash map plus usage order", "include/k52/common/cache.h")], ["lookup results", "element count"])
P("C16", "Settings parsing keeps every key's value and merging keeps both sides' keys",
  "Every command-line setting of the form --key=value is stored under its key and read back with its value, a key never given is reported as missing, a bare flag reads back as present, and merging two settings objects keeps all keys of both, the object merged into winning where both have a value.",
  ["inputs"], "all keys and values up to a length bound",
  "Tests use a few fixed command lines.",
  ["include/k52/common/settings_manager.h", "include/k52/common/settings_manager.inl"], [("argument parsing and merging", "include/k52/common/settings_manager.inl")], ["getters"])
P("C17", "Tolerant floating-point comparison is a sound closeness test",
  "The tolerant comparison of reals is symmetric and reflexive for every finite value, calls values equal that are closer than the library's tolerance and different that are further apart, and calls everything between two equal values equal to both; the zero test is the comparison to 0, vectors are compared element by element, vectors of different length are never equal, and conjugating a sequence negates exactly the imaginary parts.",
  ["inputs"], "all pairs of finite doubles, vectors up to three elements",
  "Tests sample a few pairs.",
  ["src/common/floating_point.cpp", "src/common/helpers.cpp"], [("closeness test", "src/common/floating_point.cpp")], ["return values"])
# ---------------------------------------------------------------- continuous optimisers
C = "src/optimization/"
P("C18", "Maximising is minimising the negated objective, for every optimiser",
  "Each optimiser asked to maximise an objective ends exactly where it ends when minimising the negated objective from the same start (with the same random draws), also when the same optimiser does both; the parameters object then holds that point. The genetic algorithm, which only maximises, refuses to minimise.",
  ["inputs", "configurations"], "all objective functions, bounded evaluation counts, all random draws",
  "The tests never run an optimiser in both senses.",
  [C + "optimization_parameters_processor.cpp", C + "continuous_optimizer.cpp"],
  [("sign switch around the objective", C + "continuous_optimizer.cpp")], ["result parameters", "start parameters"])
P("C19", "Hooke-Jeeves never returns a point worse than its start",
  "The Hooke-Jeeves search returns a point it evaluated whose objective value is no worse than the start's and no worse than that of its neighbours one smallest step away along any coordinate; it terminates when no step improves.",
  ["inputs", "configurations"], "all objective functions, one to three dimensions, bounded evaluations",
  "Only an example exercises the optimiser; it checks nothing.",
  [C + "hooke_jeeves_method.cpp"], [("pattern search", C + "hooke_jeeves_method.cpp")], ["result", "objective calls"])
P("C20", "Bounded Nelder-Mead returns its best vertex, inside the bounds",
  "Started from a simplex within its bounds, the bounded Nelder-Mead search evaluates and returns only points within the bounds, its result is one of the points it evaluated and no worse than any of them, and the result of a run does not depend on earlier runs of the same optimiser.",
  ["inputs", "configurations", "histories"], "all objective functions, one and two dimensions, bounded iterations, two consecutive runs",
  "Only an example exercises the optimiser; it checks nothing.",
  [C + "bounded_nelder_mead.cpp"], [("reflection/expansion/contraction/reduction", C + "bounded_nelder_mead.cpp"), ("projection onto the bounds", C + "bounded_nelder_mead.cpp")], ["result", "objective calls"])
P("C21", "Grid search visits every grid node and returns the best of them",
  "Grid search evaluates the objective at every node of the grid between its bounds in every dimension, at no point outside the bounds, and returns a visited node with the best objective value.",
  ["inputs", "configurations"], "all objective functions, one to three dimensions, a family of bounds and steps",
  "No test runs grid search.",
  [C + "grid_search.cpp"], [("recursive walk", C + "grid_search.cpp")], ["objective calls", "result"])
P("C22", "Random search returns the best of its samples, all within bounds",
  "Random search evaluates exactly the configured number of points, each within its bounds in every coordinate, and returns the best of them.",
  ["inputs", "configurations"], "all objective functions and random draws, one to three dimensions, bounded sample counts",
  "No test runs random search.",
  [C + "random_search.cpp"], [("sampling loop", C + "random_search.cpp")], ["objective calls", "result"])
P("C23", "Simulated annealing accepts improvements and only moves within bounds",
  "Simulated annealing evaluates only points whose every coordinate is the start's or lies within the bounds, always moves to a candidate that is better, and returns a point it evaluated.",
  ["inputs", "configurations"], "all objective functions and random draws, bounded iterations",
  "No test runs simulated annealing.",
  [C + "simulated_annealing.cpp"], [("acceptance rule", C + "simulated_annealing.cpp")], ["objective calls", "result"])
P("C24", "The Rosenbrock method never returns a point worse than its start",
  "The Rosenbrock search returns a point it evaluated whose objective value is no worse than the start's; its search directions stay orthonormal from stage to stage, so no stage moves further than steps of the configured limit along orthogonal directions can, and a run does not depend on earlier runs of the same optimiser.",
  ["inputs", "configurations"], "all objective functions, one and two dimensions, bounded evaluations",
  "Only an example exercises the optimiser; it checks nothing.",
  [C + "hleborodov_rosenbrock_method.cpp"], [("stage search and basis rotation", C + "hleborodov_rosenbrock_method.cpp")], ["result", "objective calls"])
P("C25", "Gradient methods never end worse than they started on convex quadratics",
  "On every strictly convex quadratic of bounded condition the conjugate-gradient and steepest-descent searches end with an objective value no worse than at the start, without failing, also when started exactly at the minimum. Conjugate gradients reach the minimum of a separable quadratic in as many iterations as it has parameters; steepest descent improves on the start whenever the gradient there exceeds its precision, and returns the last point it reached.",
  ["inputs"], "all strictly convex separable quadratics with bounded coefficients and starts, one and two dimensions",
  "Only an example exercises the optimisers; it checks nothing.",
  [C + "conjugate_gradient_method.cpp", C + "steepest_descent_method.cpp"], [("line search", C + "steepest_descent_method.cpp"), ("conjugate directions", C + "conjugate_gradient_method.cpp")], ["result", "objective values"])
# ---------------------------------------------------------------- parallel
PA = "src/parallel/"
P("C26", "A worker pool returns every task's result, once, in task order",
  "Whatever the interleaving of its workers, a worker pool executes each submitted task exactly once and returns as many results as tasks, the i-th being the i-th task's own; this holds for any number of workers and tasks, for repeated batches, and equally for the sequential pool.",
  ["schedules", "configurations", "histories"], "all interleavings at synchronisation points, up to three workers, three tasks and two batches",
  "Tests run whatever interleaving the machine happens to give.",
  [PA + "thread/thread_worker_pool.cpp", PA + "thread/worker.h", PA + "thread/thread_safe_queue.h", PA + "thread/thread_worker_pool_templated.h", PA + "sequential_worker_pool.cpp"],
  [("locked task queue with condition variable", PA + "thread/thread_safe_queue.h"), ("results slot per task", PA + "thread/worker.h")], ["result vector", "execution counts"])
P("C27", "A worker pool always comes back: no deadlock, no lost shutdown",
  "Submitting a batch always returns and destroying a pool always completes and joins its workers, in every interleaving, with fewer tasks than workers or none at all; if a task throws, the caller gets an exception instead of hanging.",
  ["schedules", "fault_sequences"], "all interleavings at synchronisation points with any subset of tasks throwing, up to three workers and three tasks",
  "A test cannot show the absence of a hang; no test has a throwing task.",
  [PA + "thread/thread_worker_pool.cpp", PA + "thread/worker.h", PA + "thread/thread_safe_queue.h"],
  [("queue wait/notify", PA + "thread/thread_safe_queue.h"), ("interrupt/join at destruction", PA + "thread/thread_worker_pool_templated.h")], ["termination", "exceptions"])
P("C28", "A usable worker pool is created for every machine configuration",
  "Asking for the best worker pool yields a working pool whatever number of hardware threads is reported (unknown included), the reported availability of a pool type matches what creating it does, and an unavailable type is refused with an exception.",
  ["configurations"], "all values the platform can report as hardware concurrency",
  "Tests see only this machine's configuration.",
  [PA + "worker_pool_factory.cpp"], [("fallback order", PA + "worker_pool_factory.cpp CreateBestWorkerPool")], ["created pool's results", "exceptions"])
P("C29", "Statistics add up to the work actually done",
  "The worker statistics a pool collects count every executed task exactly once, and the aggregate of several statistics reports exactly their total.",
  ["schedules", "inputs"], "all interleavings and all statistic values within bounds",
  "Tests do not look at the statistics.",
  [PA + "worker_statistics.cpp", PA + "statistics_aggregator.cpp"], [("aggregation", PA + "statistics_aggregator.cpp")], ["statistics getters"])
P("C30", "The transferable-object registry hands out the registered kind, rejects others",
  "Looking up a registered identifier yields the sample registered under it, of its kind and with its state, independent of the object it was registered from; an identifier never registered is rejected with an exception, and registering one again replaces its sample and no other.",
  ["histories", "inputs"], "all short histories of registrations and lookups over symbolic identifiers",
  "No test covers the registry.",
  [PA + "mpi/identifyable_objects_manager.cpp"], [("sample map keyed by id", PA + "mpi/identifyable_objects_manager.cpp")], ["created objects", "exceptions"])
P("C31", "Polling backs off monotonically to a cap and resets",
  "The delay between successive polls for remote results never decreases without a reset, never exceeds its cap and starts again from the smallest delay after a reset.",
  ["histories"], "all histories of sleeps and resets up to a bound",
  "Code is only reachable under MPI, which is not built here.",
  [PA + "mpi/delay_supplier.cpp"], [("delay escalation", PA + "mpi/delay_supplier.cpp")], ["requested sleep times"])
# ---------------------------------------------------------------- dsp
D = "src/dsp/"
P("C32", "The Fourier transforms compute the definition and are linear",
  "Every forward transform the library offers (direct and fast) equals the defining sum of the input for every input sequence and length, up to rounding, in particular is linear; input and output lengths agree, and the input is not modified.",
  ["inputs", "configurations"], "all real and complex inputs of bounded magnitude, all lengths up to a bound",
  "Tests check a few fixed sequences and lengths.",
  [D + "transform/fourier_transform.cpp", D + "transform/fast_fourier_transform.cpp"], [("defining sum", D + "transform/fourier_transform.cpp"), ("FFTW plan", D + "transform/fast_fourier_transform.cpp")], ["returned sequence"])
P("C33", "The inverse Fourier transform undoes the forward transform",
  "For every input sequence and length, inverse-transforming the forward transform gives the input back up to rounding, and forward-transforming the inverse does too; the inverse equals its defining sum, and the transform keeps inner products (hence the energy) up to the factor N.",
  ["inputs"], "all complex inputs of bounded magnitude, all lengths up to a bound",
  "Tests check a few fixed sequences.",
  [D + "transform/inverse_fourier_transform.cpp", D + "transform/fourier_transform.cpp", "src/common/helpers.cpp"], [("conjugated kernel and 1/N", D + "transform/inverse_fourier_transform.cpp")], ["returned sequence"])
P("C34", "Circular convolution matches its definition",
  "The library's circular convolution of two equally long sequences equals the defining circular sum for every input, up to rounding, whichever transform it is built on; it is commutative, and sequences of different lengths are rejected.",
  ["inputs"], "all complex input pairs of bounded magnitude, lengths up to a bound",
  "Tests check a few fixed pairs.",
  [D + "transform/circular_convolution.cpp"], [("product in the frequency domain", D + "transform/circular_convolution.cpp")], ["returned sequence", "exceptions"])
P("C35", "The fast wavelet transform equals correlation with the scaled wavelet",
  "For every signal and scale the fast wavelet transform's value at each shift equals the correlation of the signal with the library's own sampled wavelet at that scale, its result is linear in the signal, and switching its caching on, or reusing one object for several signals and scales, never changes a result.",
  ["inputs", "histories"], "all signals of bounded magnitude, lengths up to a bound, several scales, repeated use",
  "Tests check no values of the transform.",
  [D + "transform/wavelet/fast_wavelet_transform.cpp"], [("per-scale spectrum cache", D + "transform/wavelet/fast_wavelet_transform.cpp")], ["returned sequence"])
P("C36", "The continuous wavelet transform correlates the padded signal with each scale",
  "The discrete-signal continuous wavelet transform returns one row per requested shift and in it one value per scale, each the modulus of the product of the signal (continued by zeros on both sides) with the wavelet sampled at that scale and shift; it reads nothing outside the signal, and scaling the signal scales the result.",
  ["inputs", "configurations"], "all signals, scales and shift ranges up to a bound",
  "Tests do not cover it.",
  [D + "cwt.cpp", D + "wavelet.cpp"], [("index clamping", D + "wavelet.cpp")], ["returned rows", "memory accesses"])
P("C37", "Scales increase strictly and hit their end points",
  "A linear or logarithmic scale yields exactly the requested number of values, strictly increasing, equidistant or doubling, starting and ending at its end points up to rounding; invalid ranges (also NaN, infinite or unrepresentable ones) or counts are rejected with an exception.",
  ["inputs", "configurations"], "all ranges within bounds, all counts up to a bound",
  "Tests check a few fixed scales.",
  [D + "transform/wavelet/linear_scale.cpp", D + "transform/wavelet/logarithmic_scale.cpp"], [("even spacing", D + "transform/wavelet/linear_scale.cpp"), ("spacing in powers", D + "transform/wavelet/logarithmic_scale.cpp")], ["scale values", "exceptions"])
P("C38", "Wavelet functions have their defining symmetries and support",
  "The Haar wavelet is +1/-1/0 on its half-open support, the Mexican hat is even, and the Morlet wavelet takes complex-conjugate values at opposite arguments; every wavelet function is defined for every real argument.",
  ["inputs"], "all finite real arguments",
  "Tests sample a few arguments at most.",
  [D + "haar_wavelet_function.cpp", D + "mhat_wavelet_function.cpp", D + "morlet_wavelet_function.cpp"], [("piecewise/closed-form definitions", D + "*_wavelet_function.cpp")], ["function values"])
P("C39", "Akima interpolation passes through its nodes and reproduces lines",
  "For every set of at least the minimum number of nodes with increasing abscissas, the Akima spline takes the given value at each node, is continuous with a continuous derivative (Akima's weighted mean of the neighbouring slopes) across nodes, reproduces samples of a straight line exactly up to rounding, and refuses arguments outside the node range and use before initialisation.",
  ["inputs"], "all node values of bounded magnitude, node counts up to a bound, all arguments",
  "Tests compare one fixed curve.",
  [D + "akima_spline.cpp"], [("segment coefficients from weighted slopes", D + "akima_spline.cpp")], ["interpolated values", "exceptions"])
P("C40", "Spline-based wavelets are defined on the whole line",
  "A wavelet function built from spline samples can be evaluated at every real argument, is zero outside its support and interpolates its samples inside it, for every admissible number of samples.",
  ["inputs", "configurations"], "all real arguments, all sample counts up to a bound, all sample values of bounded magnitude",
  "Tests do not cover it.",
  [D + "spline_based_wavelet_function.cpp"], [("support test around the spline", D + "spline_based_wavelet_function.cpp")], ["function values", "exceptions"])

P("C41", "Fast Fourier transforms can be created and destroyed by several threads",
  "Threads may create, use and destroy their own fast Fourier transforms (and convolutions and wavelet transforms built on them) at the same time: no schedule lets two of them enter the planner of the underlying library together, blocks forever, or makes a transform return anything but its own input's transform, also when a construction fails.",
  ["schedules", "fault_sequences"], "all interleavings at synchronisation points of two (thorough: three) threads",
  "Tests use the transforms from one thread only.",
  [D + "transform/fast_fourier_transform.cpp"], [("one mutex around planning and plan destruction", D + "transform/fast_fourier_transform.cpp")], ["data races", "returned sequence", "termination"])

P("C42", "A saved population is read back exactly",
  "A generation the callback asks to save (GenerationStatistics::SaveCurrentPopulationToFile) and that is given to a genetic algorithm with the same settings as population_file_name starts that run with exactly those individuals, in order and bit for bit, evaluated afresh. A file that is missing, ends before its last chromosome, holds another population or chromosome size, a chromosome with other characters than 0 and 1, or an infeasible individual is refused by an exception before anything is evaluated.",
  ["inputs", "fault_sequences"], "all starting populations of the configurations, files cut at every length, every byte at every place of a chromosome, every size in the header",
  "No test saves or reads a population.",
  [C + "genetic_algorithm/genetic_algorithm.cpp", C + "genetic_algorithm/individual.cpp", C + "genetic_algorithm/generation_statistics.cpp"], [("the first generation that is evaluated is the one in the file", C + "genetic_algorithm/genetic_algorithm.cpp")], ["parameters the objective is called with", "exceptions"])

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(p, "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out), "properties")
