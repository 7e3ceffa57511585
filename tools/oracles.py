O={
'C01':"Encode/decode/re-encode through the real classes; oracle: the identity, and minimal length as the smallest n with 2^n > max-min in 64-bit arithmetic.",
'C02':"Decoded value against the bounds in IEEE arithmetic; grid step against the desired precision; write-back gives the same bits. Writing back needs rounding, decided in error-bounded reals and bit-exactly for small grids.",
'C03':"The composite's bits are compared with each part's own, taken alone; after changing one part only its bits differ.",
'C04':"Every call with a wrong length is expected to throw; chromosome range and values are compared with a copy made before.",
'C05':"Original and clone are compared field by field through the public interface, one is modified or destroyed, the other compared with its state before.",
'C06':"After each operation the parameters are decoded from the chromosome by a fresh object, the fitness is compared with the objective (an uninterpreted function) there, or must be absent.",
'C07':"Locus-wise comparison with the bits before; one cut; every cut reachable (existential, a solver model per cut).",
'C08':"Lengths, extremes, acceptance of probabilities as a predicate over all doubles, and reachability of every flip pattern.",
'C09':"IEEE: range and end rates; monotonicity/linearity in error-bounded reals.",
'C10':"rand() is a free 31-bit value; ranges by unsat, reachability of every value by a model.",
'C11':"The real GeneticAlgorithm (fitness counter, cache, worker pool included) is run; a log in the objective holds every evaluation; the result is compared with the log.",
'C12':"The objective asserts feasibility of what it is given.",
'C13':"The callback sees every generation; count, size and the reason to stop are recomputed from the log.",
'C14':"The same run (same draws) is made with and without cache and the populations' fitnesses are compared with the objective.",
'C15':"A list kept by the harness is the model of the map; the limit's effect is checked on what may and may not be missing.",
'C16':"Arguments of free bytes; oracle: split at the first '='; merged trees against the union.",
'C17':"IEEE queries over all finite doubles.",
'C18':"Two runs with shared uninterpreted objective f and -f and the same draws must end at the same point (relational).",
'C19':"Log of evaluations; neighbours of the result at the smallest step must be in the log and no better.",
'C20':"Log of evaluations; bounds of each point; result is the minimum of the log; a second run equals that of a fresh object.",
'C21':"Log against the set of grid nodes computed by the harness.",
'C22':"Log: number and bounds of samples; result is the best; also through a nested optimiser of unknown behaviour.",
'C23':"Log of moves: each better candidate becomes the current point.",
'C24':"Log: result no worse than the start; length of each stage against the step limit; second run equals a fresh one.",
'C25':"Quadratics with free centre in real arithmetic: the Newton / golden-section code is executed, the end value compared with the start.",
'C26':"All interleavings; each task counts its executions, results are compared by position; happens-before race check.",
'C27':"All interleavings; a state in which no thread can step while the caller has not returned is a deadlock; all threads must have ended after destruction.",
'C28':"The number of hardware threads is symbolic among 0,1,2,3,8; declared availability against creation.",
'C29':"Counters against the harness's own count.",
'C30':"A map kept by the harness is the oracle.",
'C31':"usleep is a stand-in that records; the recorded delays are checked.",
'C32':"Defining sum with independently computed twiddle factors, linear in the symbolic input.",
'C33':"Compositions against the identity, the inverse against its own sum, inner products.",
'C34':"Defining circular sum.",
'C35':"Correlation with the sampled wavelet computed by the harness, wavelet values partly free.",
'C36':"Product of zero-padded signal and wavelet samples computed by the harness; memory checks decide 'reads nothing outside'.",
'C37':"Count, order, equidistance / doubling, end points; rejection as a predicate over all doubles / ints.",
'C38':"Haar bit-exact over all doubles; the others through the axioms of exp/sin/cos.",
'C39':"Value at nodes, one-sided values and derivatives (taken from four values of each cubic), Akima's formula, lines.",
'C40':"Domain: every double may be passed without exception; values at samples, zero outside.",
'C41':"All interleavings; the FFTW planner is a shared object whose unsynchronised use is a race; results against the sum.",
'C42':"The individuals the objective is called with in the run that saves, against those in the run that reads; the standard streams are modelled by files in memory (runtime/file_model.cpp) and the replay uses real files; cut files, every byte, every header size.",
}
