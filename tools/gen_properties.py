import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
D="src/dsp/"; ID="include/k52/dsp/"; O="src/optimization/"; IO="include/k52/optimization/"; C="src/common/"; IC="include/k52/common/"; Q="src/parallel/"; IQ="include/k52/parallel/"

p("C01","Direct and fast Fourier transforms are the discrete Fourier transform",
"For every finite complex signal of any length N, the direct transform and the fast transform created for N return the N values X[k] = sum over n of x[n]*exp(-2*pi*i*k*n/N), up to rounding, and leave the input untouched. The fast transform cannot be created for length 0 and rejects a signal of any other length than its own with invalid_argument, without that affecting later calls.",
["inputs"],"All signal lengths (prime, even, odd, powers of two, 0, 1) and all finite complex contents.",
"Tests compare a handful of fixed signals of one length; the law is over every length and every content.",
[D+"transform/fourier_transform.cpp",D+"transform/fast_fourier_transform.cpp"],
[("FourierTransform::Transform",D+"transform/fourier_transform.cpp"),("FastFourierTransformImpl::Transform",D+"transform/fast_fourier_transform.cpp")],obs=["returned vector","exception type"])
p("C02","The inverse Fourier transform undoes the forward one",
"For every finite complex sequence, the inverse transform built on either forward transform returns x[n] = (1/N) * sum over k of X[k]*exp(+2*pi*i*k*n/N) up to rounding, so that forward then inverse, and inverse then forward, give back the sequence. Lengths the underlying forward transform rejects are rejected with the same error.",
["inputs"],"All lengths and contents, both forward transforms underneath, both orders of composition.",
"Tests round-trip a few fixed sequences; the inverse must hold for every length and content.",
[D+"transform/inverse_fourier_transform.cpp",C+"helpers.cpp"],
[("InverseFourierTransform::Transform",D+"transform/inverse_fourier_transform.cpp"),("Helpers::Conjugate",C+"helpers.cpp")],obs=["returned vector"])
p("C03","Direct and Fourier-based circular convolution agree with the definition",
"For every two complex sequences of the same length N, both convolutions return r[n] = sum over m of a[m]*b[(n-m) mod N], up to rounding, whichever forward transform the Fourier-based one is given. Sequences of different lengths are rejected with runtime_error by both.",
["inputs"],"All lengths and contents, including impulses, constant and sparse sequences, all pairs of unequal lengths.",
"Tests use a few fixed sequences; equality with the definition has to hold at every index of every length.",
[D+"transform/circular_convolution.cpp",D+"transform/fourier_based_circular_convolution.cpp"],
[("CircularConvolution::EvaluateConvolution",D+"transform/circular_convolution.cpp"),("FourierBasedCircularConvolution::EvaluateConvolution",D+"transform/fourier_based_circular_convolution.cpp")],obs=["returned vector","exception type"])
p("C04","Transform objects are independent of each other, of history and of other threads",
"Whatever sequence of creations, uses, rejected uses and destructions of fast transforms (and of convolutions and inverses built on them) of the same or different sizes happened before, each use returns the transform of its own argument. Several threads may create, use and destroy their own objects at the same time and get the same results, and never enter FFTW's planner at the same time.",
["histories","schedules"],"Histories of create/use/misuse/destroy over several live objects, in one thread and in several threads with an object each.",
"Tests use one object once or twice in one thread; leaks of state show only in longer interleaved histories or concurrently.",
[D+"transform/fast_fourier_transform.cpp"],
[("FastFourierTransformImpl (fftw_mutex_, in_/out_ buffers)",D+"transform/fast_fourier_transform.cpp")],
state=[("in_, out_, plan_","per object FFTW buffers and plan",D+"transform/fast_fourier_transform.cpp"),("fftw_mutex_","serialises the planner",D+"transform/fast_fourier_transform.cpp")])
p("C05","Wavelet scales cover exactly the requested range",
"A linear scale has exactly the requested number of scales, strictly increasing, evenly spaced, from the minimum to the maximum; a logarithmic scale holds exactly the powers of two from the minimal to the maximal exponent in order. Linear scales with a bound that is not a positive finite number, minimum not below maximum or fewer than two scales, and logarithmic scales whose minimal exponent is not below the maximal one, are rejected with invalid_argument.",
["inputs"],"All bounds, counts and exponents, valid and invalid, boundary values included.",
"Tests check one or two configurations and a few invalid ones.",
[D+"transform/wavelet/linear_scale.cpp",D+"transform/wavelet/logarithmic_scale.cpp"],
[("LinearScale::CalculateScales",D+"transform/wavelet/linear_scale.cpp"),("LogarithmicScale::CalculateScales",D+"transform/wavelet/logarithmic_scale.cpp")])
p("C06","The fast wavelet transform is the correlation with the scaled wavelet",
"For every signal of the length N the transform was created for, every wavelet function psi and every positive scale s, value u of the row is the circular correlation of the signal with psi((n-u)/s)/sqrt(s), complex conjugated, sampled at the N points n - N/2 (half a sample off for odd N); the full transform has one row per scale, in the order of the scale object, and transforming with one scale gives the same row delayed by half the length. A scale that is not a positive number is rejected with invalid_argument and a signal of another length with an error.",
["inputs","configurations"],"All signals, lengths, scale objects (linear, logarithmic, user supplied) and wavelet functions (library ones and user supplied complex ones).",
"Tests check one wavelet on one signal shape and only the position of maxima.",
[D+"transform/wavelet/fast_wavelet_transform.cpp"],
[("FastWaveletTransform::Transform/TransformOneScale",D+"transform/wavelet/fast_wavelet_transform.cpp"),("CalculateWaveletSamplesForConvolution",D+"transform/wavelet/fast_wavelet_transform.cpp")])
p("C07","The wavelet-sample cache never changes a result",
"For every history of transforms, whatever wavelets, scales and signals it mixes and whatever the memory limit, a fast wavelet transform with a cache returns what one without a cache returns (up to rounding), or refuses with runtime_error when it cannot stay within its limit. A limit of zero or less means no cache.",
["histories","configurations"],"Histories of full and single-scale transforms over several wavelets and repeated scales, under unlimited, tight and non-positive limits.",
"Tests run the cached transform once or twice with one wavelet; a stale or mixed-up entry needs a history.",
[D+"transform/wavelet/fast_wavelet_transform.cpp",IC+"cache.h"],
[("GetWaveletSamplesForConvolution",D+"transform/wavelet/fast_wavelet_transform.cpp"),("hash_value of the cache key",D+"transform/wavelet/fast_wavelet_transform.cpp")],
state=[("cache_","wavelet samples by (wavelet, scale, length)",ID+"transform/wavelet/fast_wavelet_transform.h")])
p("C08","Mother wavelets have their defined shape everywhere",
"For every real t the Morlet wavelet is exp(5it - t^2/2), the Mexican hat is 2/sqrt(9)*pi^(1/4)*(1-(t/3)^2)*exp(-(t/3)^2/2) with zero imaginary part, and the Haar wavelet has real part -1 on [-0.5,0), +1 on (0,0.5], 0 elsewhere and the same shape shifted right by a quarter as imaginary part. Values depend on t alone, not on earlier calls or on the object.",
["inputs"],"All finite t, the breakpoints and their floating-point neighbours, and large magnitudes.",
"Tests touch no value, or a few points; breakpoints and tails need a sweep.",
[D+"haar_wavelet_function.cpp",D+"mhat_wavelet_function.cpp",D+"morlet_wavelet_function.cpp"],
[("GetValue/real/imag",D+"haar_wavelet_function.cpp"),("MhatWaveletFunction::real",D+"mhat_wavelet_function.cpp"),("MorletWaveletFunction::GetValue",D+"morlet_wavelet_function.cpp")])
p("C09","The windowed continuous wavelet transform is the windowed inner product",
"For every signal, wavelet function, even window length, number of scales and step, row r of the result belongs to sample r*step and its value for each scale is the magnitude of the inner product of the zero-padded signal window centred there with the wavelet sampled over [-4,4] times that scale, the scales being (max/min)^(i/count) for the logarithmic and (max/min)*(i+1)/count for the linear kind; there is one row for each step-th sample. The progress-reporting variant returns the same rows and reports once per row a non-decreasing percentage below 100 that starts at 0; using a wavelet that was not built is rejected, and so is a step that is not positive (with invalid_argument).",
["inputs","configurations"],"All signals (including shorter than the window), window lengths, counts, both scale types, steps and wavelet functions.",
"Tests run one wavelet and check where the maximum is.",
[D+"cwt.cpp",D+"wavelet.cpp",ID+"cwt.h",ID+"wavelet.h"],
[("ContiniousWaveletTransformation",D+"cwt.cpp"),("ContiniousWaveletTransformation with callback",ID+"cwt.h"),("Wavelet::createWavelet/createScale",D+"wavelet.cpp"),("Wavelet::transform",ID+"wavelet.h")])
p("C10","The Akima spline is the Akima interpolant of its points",
"For every at least five points with increasing abscissas, the spline passes through every point, is continuous with a continuous first derivative, equals Akima's piecewise cubic between them, and reproduces straight lines exactly up to rounding. Fewer than five points, unequal numbers of abscissas and ordinates or abscissas that do not increase are rejected with invalid_argument; evaluation outside the points' range, or at a value that is not a number, is rejected with out_of_range; training it again replaces the previous points completely.",
["inputs","histories"],"All point sets (uniform, clustered, flat, stepped, large and small magnitudes), all arguments in, at the ends of and outside the range, retraining histories.",
"Tests check a few values of one curve; interval selection and the end slopes need all intervals, knots and end points.",
[D+"akima_spline.cpp"],
[("AkimaSpline::CalculateM/CalculateSlopes/ReestimatePolynomials",D+"akima_spline.cpp"),("AkimaSpline::ResolveInterval",D+"akima_spline.cpp")])
p("C11","A spline wavelet interpolates its samples on [-4,4] and vanishes outside",
"A wavelet created from n samples takes sample i at -4+8i/n, follows the Akima spline through them (with a zero one step before the first and one step after the last) on [-4,4], and is zero with zero imaginary part everywhere else. It has a value for every real argument, and too few samples for the spline are rejected with invalid_argument.",
["inputs"],"All sample vectors and all real arguments, the ends of the support and their floating-point neighbours included.",
"Tests build one such wavelet; the ends of the support for every n are not tried.",
[D+"spline_based_wavelet_function.cpp",D+"akima_wavelet_function.cpp"],
[("SplineBased::Init/real",D+"spline_based_wavelet_function.cpp")])
p("C12","The bounded cache answers with the last value stored or not at all",
"In every history, a lookup returns the value most recently stored under that key or reports that there is none, and a key just stored is present; asking whether a key is cached never makes it cached. Storing fails with runtime_error only when the limit is exceeded and cannot be met, eviction happens only when the limit is exceeded and never removes an entry used since it was stored, and a limit of zero or less gives no cache at all.",
["histories","configurations"],"Histories of store, store-many, query and fetch over small key sets and limits from a few entries to unlimited.",
"There is no direct test of the cache; eviction only occurs in histories that exceed the limit.",
[IC+"cache.h",IC+"stored_value.h"],
[("Cache::AddValue/AddValues/GetCachedValue/IsCached",IC+"cache.h"),("Cache::ClearCacheUpToLimit",IC+"cache.h")],
state=[("cache_map_","values with a usage count",IC+"cache.h")])
p("C13","The settings manager returns what was last put or read",
"For every manager read from a command line or an XML file and every later history of puts, getting a key (dots nest) returns the value most recently given to it, converted to the requested type; if nobody gave one or it does not convert, the given default is returned, or without a default runtime_error is thrown. A command-line option is --key=value, the value being everything after the first equals sign, arguments not starting with -- change nothing, and reading never changes what other keys hold; an unreadable or malformed file is rejected with runtime_error.",
["inputs","histories"],"Generated command lines and XML files, histories of put/get over nested keys and values of several types, conversions that succeed and that fail.",
"Tests use one fixed file and one fixed command line.",
[IC+"settings_manager.h",IC+"settings_manager.inl"],
[("SettingsManager::ParseCommandLine/ParseXmlConfigFile",IC+"settings_manager.h"),("SettingsManager::get/put",IC+"settings_manager.inl")])
p("C14","Merging settings trees keeps everything and lets the winner win",
"Merging two settings trees (keys unique at every level) yields exactly the union of their keys at every depth, each with its value; where both define a key the first tree's value is kept and their subtrees are merged, and the arguments are not changed. Merging with an empty tree, or a tree with itself, gives that tree back.",
["inputs"],"All pairs of generated property trees of different depth and overlap.",
"Tests merge a couple of flat fixed trees.",
[IC+"settings_manager.h"],[("SettingsManager::Merge",IC+"settings_manager.h")])
p("C15","Number helpers obey their definitions for every input",
"Two finite numbers are equal exactly when they differ by less than 1e-10, whatever their signs and order, a NaN equals nothing and an infinity no other number, a number is zero when it equals zero that way, and vectors are equal when they have the same length and are equal at every position. Conjugating a sequence negates every imaginary part and keeps real parts and length; printing a vector writes all its values in order and leaves the stream's precision as it was; probabilities outside [0,1] are rejected with invalid_argument and those inside accepted.",
["inputs"],"All doubles and complex sequences including zeros, denormals, huge values and both sides of the tolerance.",
"Tests use single examples.",
[C+"floating_point.cpp",C+"helpers.cpp",C+"random.cpp"],[("FloatingPoint",C+"floating_point.cpp"),("Helpers",C+"helpers.cpp"),("Random::ValidateProbability",C+"random.cpp")])
p("C16","Random quantities stay in range, reach the whole range and have the asked odds",
"Whatever the underlying generator produces, continuous quantities and all elements of random vectors lie within [min,max] (up to rounding) and discrete ones (of any range of int) within {min..max}, with both ends reachable and uniformly distributed (as far as the generator's number of outputs divides evenly) when the generator is uniform; random booleans are true and false equally often at every position of the stream. An event of probability 0 never happens and one of probability 1 always does, other events happen with their probability, and an invalid probability, or a discrete quantity of no values, is rejected with invalid_argument.",
["inputs","histories"],"All ranges and probabilities and all sequences of generator outputs (including 0 and the maximum), all interleavings of the kinds of draw.",
"Tests draw a few values and check ranges.",
[C+"random.cpp",IC+"random.h"],[("Random::GetContinuousRandomQuantity/GetUniformlyDistributedDiscreteRandomQuantity",C+"random.cpp"),("Random::GetRandomBool",C+"random.cpp"),("Random::CheckEventOutcome",C+"random.cpp")])
p("C17","Discrete parameters survive the way through their chromosome",
"For every valid integer (of any range of int), double, double-array or composite parameter, writing its value to a chromosome and reading that back into a parameter of the same description gives the same value (for doubles: the nearest multiple of the actual precision, which is no coarser than the requested one, above the minimum), and the chromosome has exactly the announced size. Different chromosomes of a parameter decode to different values, every value in range has a chromosome, and a chromosome of another size is rejected with invalid_argument and changes nothing.",
["inputs"],"All bounds, precisions, values and bit patterns; nested composites; wrong sizes.",
"Tests use a few ranges; range sizes around powers of two and bounds need the whole input space.",
[O+"params/int_parameter.cpp",O+"params/double_parameter.cpp",O+"params/double_parameters_array.cpp",O+"params/composite_discrete_parameters.cpp",O+"params/const_chromosome_size_paremeters.cpp"],
[("IntParameter::SetChromosome/SetFromChromosome/CountChromosomeSize",O+"params/int_parameter.cpp"),("DoubleParameter::SetValue/GetValue",O+"params/double_parameter.cpp"),("DoubleParametersArray",O+"params/double_parameters_array.cpp"),("CompositeDiscreteParameters",O+"params/composite_discrete_parameters.cpp")])
p("C18","Parameters enforce their constraints and clones are independent",
"The constraints of a parameter object hold exactly when all its values lie in their ranges; double parameters with an empty range, a precision that is not positive or a start value out of range are rejected on construction, and setting array values of the wrong number or out of range is rejected with invalid_argument and leaves the values as they were. A clone has its original's values and description, and changing either afterwards does not affect the other, also inside composites. Two parameters have the same meta-parameters exactly when their bounds, precision and number agree, comparing different kinds is an error, and using an uninitialised or twice initialised composite is rejected with logic_error and changes nothing.",
["inputs","histories"],"All kinds of parameters, values inside, at and outside the bounds, and histories of changes on originals and clones.",
"Tests check single examples of each kind.",
[O+"params/int_parameter.cpp",O+"params/double_parameter.cpp",O+"params/double_parameters_array.cpp",O+"params/composite_discrete_parameters.cpp",O+"params/continuous_parameters_array.cpp"],
[("CheckConstraints/Clone/HasSameMetaParameters/SetValues",O+"params/double_parameters_array.cpp")])
p("C19","An individual's chromosome, parameters and fitness always agree",
"After any history of random initialisation, crossover, mutation, copying, assignment, writing to and reading from a stream, an individual's parameters decode from exactly its chromosome, and its fitness is only available if it was set since the chromosome last changed. Random initialisation and mutation leave the constraints satisfied and crossover reports truthfully whether both offspring satisfy them; crossover only exchanges bits between the two parents at the same positions, copies never share state with their source, a written individual with at least one gene is read back as it was, and a text with a chromosome of another length, foreign characters in it, or no valid fitness is rejected with logic_error without changing the individual, as is setting a fitness that is negative or not a number.",
["histories"],"Histories over several individuals with all kinds of parameters, generator outputs and mutators; well-formed and damaged texts.",
"Tests check a few single operations.",
[O+"genetic_algorithm/individual.cpp"],[("Individual::Crossover/Mutate/SetRandomChromosome/operator=/operator>>",O+"genetic_algorithm/individual.cpp")],
state=[("chromosome_, parameters_, fitness_","must describe the same point",IO+"individual.h")])
p("C20","Mutators flip genes as often and only as configured",
"The linear mutator mutates each gene independently with the probability interpolated linearly from its start value (first generation) to its end value (last generation), for every configuration of valid probabilities and every number of generations. The flip-bit mutator leaves between two mutated genes a gap uniformly distributed between 0 and floor(1/p)-1 genes, carried over from chromosome to chromosome, and mutation inverts exactly the chosen genes. Probabilities outside [0,1], NaN and, for the flip-bit mutator, those outside (0,1/2] or too small for their gaps to be counted in an int are rejected with invalid_argument.",
["inputs","histories"],"All probabilities, generation numbers, chromosome lengths and generator outputs.",
"Tests check one or two probabilities at one generation.",
[O+"genetic_algorithm/linear_mutator.cpp",O+"genetic_algorithm/flip_bit_mutator.cpp",O+"genetic_algorithm/gen_mutator_base.cpp"],
[("LinearMutator::GetCurrentGenMutationProbability",O+"genetic_algorithm/linear_mutator.cpp"),("FlipBitMutator",O+"genetic_algorithm/flip_bit_mutator.cpp"),("GenMutatorBase::MutateChromosome",O+"genetic_algorithm/gen_mutator_base.cpp")])
p("C21","A genetic algorithm returns the best point it evaluated, and reports truthfully",
"For every objective, parameters, configuration and random history, the result is the best of all the points evaluated, is valid, and every evaluated point is valid; each generation evaluates exactly the population, starting from the initial parameters if given. The generation callback is called once per generation, in order, with that generation's true average fitness and best-so-far point and fitness, with the fitness of the individuals it was bred from (most chosen parents first) and with the number of invalid chromosomes met in breeding it; the run ends at the generation limit or as soon as the best fitness reaches the stop value, and the elite pairs of one generation are present in the next when mutation does nothing. An objective whose value is not a number ends the run with logic_error.",
["inputs","histories","configurations"],"All population sizes, elitism, generations, mutators, stop values, objectives, kinds of parameters and random generator outputs.",
"Tests run one or two fixed configurations and look at the exit code or the rough value.",
[O+"genetic_algorithm/genetic_algorithm.cpp",O+"objective_function_counter.cpp"],
[("RunIterationsAndSetBestIndivid/UpdateBestIndivid",O+"genetic_algorithm/genetic_algorithm.cpp"),("GenerateNextPopulation",O+"genetic_algorithm/genetic_algorithm.cpp"),("ProcessStatistics",O+"genetic_algorithm/genetic_algorithm.cpp")])
p("C22","A saved population is loaded back exactly, a damaged one is refused",
"A population saved from a generation callback holds exactly that generation's individuals and fitness values, and a run started from that file evaluates exactly those individuals in its first generation. A missing file, one with too few individuals, chromosomes of the wrong length or with foreign characters makes the run fail with an exception before anything is evaluated, and never reads beyond its data.",
["inputs","histories","fault_sequences"],"All populations and kinds of parameters; all truncations and byte-level damages of saved files.",
"Tests do not load a file at all.",
[O+"genetic_algorithm/genetic_algorithm.cpp",O+"genetic_algorithm/individual.cpp"],
[("SavePopulationToFile/ReadPopulationFromFile",O+"genetic_algorithm/genetic_algorithm.cpp"),("Individual stream operators",O+"genetic_algorithm/individual.cpp")])
p("C23","The fitness cache changes only the number of evaluations",
"With the same random history a genetic algorithm with a fitness cache visits the same generations, reports the same fitness values and returns the same result as without, also when one object optimises several functions one after another. With an ample cache no chromosome is evaluated again within a run once its generation has been evaluated, and reported cache hits plus evaluations equal the population in every generation; when the limit cannot be met the run fails with runtime_error rather than giving a wrong answer.",
["histories","configurations"],"All configurations and random histories, cache limits from none over tight to ample, repeated runs of one object with different objectives.",
"Tests run with one cache setting and do not compare.",
[O+"objective_function_counter.cpp",O+"genetic_algorithm/genetic_algorithm.cpp",IC+"cache.h"],
[("ObjectiveFunctionCounter::ProcessPopulation/AddNewCacheValues",O+"objective_function_counter.cpp")])
p("C24","Worker pools do every task exactly once and return results in task order",
"For every list of tasks, of any number and duration, a pool calls each task exactly once and returns its result at the task's position; repeated batches on one pool, several pools at once, destroying a pool and an empty batch all work, and the thread pool and the sequential pool give the same results. A task that throws makes the batch fail with an exception in the caller instead of blocking, and the pool stays usable. The best pool works whatever the number of processors, also if it is unknown; a thread pool of fewer than two threads is not valid and refuses tasks with runtime_error.",
["schedules","histories","fault_sequences"],"All batch sizes, batch sequences, task durations, throwing tasks, thread schedules and pool kinds.",
"Tests run a few fixed batches under whatever schedule happens.",
[Q+"thread/thread_worker_pool_templated.h",Q+"thread/worker.h",Q+"thread/thread_safe_queue.h",Q+"sequential_worker_pool.cpp",Q+"worker_pool_factory.cpp"],
[("ThreadWorkerPoolTemplated::DoTasks",Q+"thread/thread_worker_pool_templated.h"),("ThreadSafeQueue",Q+"thread/thread_safe_queue.h"),("SequentialWorkerPool::DoTasks",Q+"sequential_worker_pool.cpp")])
p("C25","Sampling optimisers stay within their bounds and return the best sample",
"Random search evaluates exactly the requested number of points, uniformly spread over its bounds, and returns the best of them (with an inner optimiser: it runs that once from each of so many points and returns the best of its results); no points at all are an error. Grid search evaluates every point of the grid from the lower bound in steps of the precision exactly once and returns the one with the greatest value. Simulated annealing changes one coordinate at a time to a value within its bounds, always moves to better neighbours, moves to worse ones with probability exp(-difference/temperature), the temperature falling linearly from 1 to 0 over its iterations, and returns the point it has moved to last; it refuses to start from no coordinates. Any number is better than a value that is not one: random and grid search return such a point only where they see no number, and annealing moves from such a point to any other that has a number and never to it.",
["inputs","histories","configurations"],"All bounds, numbers of points, dimensions, objectives, directions, inner optimisers and generator outputs.",
"Tests run each with one function and check closeness to the optimum.",
[O+"random_search.cpp",O+"grid_search.cpp",O+"simulated_annealing.cpp",O+"optimization_parameters_processor.cpp",O+"simple_parameters_processor.cpp"],
[("RandomSearch::FindOptimalParameters",O+"random_search.cpp"),("GridSearch::Optimize",O+"grid_search.cpp"),("SimulatedAnnealing::FindOptimalParameters",O+"simulated_annealing.cpp"),("SimpleParametersProcessor/OptimizationParametersProcessor",O+"simple_parameters_processor.cpp")])
p("C26","Local optimisers reach the optimum of well-behaved functions and never end worse",
"On every well-conditioned strictly convex quadratic objective (concave, when maximising) and from every start, Hooke-Jeeves, Nelder-Mead, conjugate gradient, steepest descent and (in one and two dimensions) Rosenbrock's method end at a point whose objective is within their configured accuracy of the optimum. On any objective Hooke-Jeeves and Nelder-Mead never return a point worse than their start, Hooke-Jeeves returns a point it evaluated and Nelder-Mead the best of those it evaluated (any number is better than a value that is not one); a single iteration of conjugate gradient or steepest descent ends at the minimum on the line along the gradient; limits on the number of iterations end the search of every method that has one.",
["inputs","configurations"],"All positive definite quadratics with bounded conditioning, starts, dimensions, directions, and configurations of accuracy; arbitrary bounded objectives for the no-worse part.",
"Tests use a few classic functions from one start.",
[O+"hooke_jeeves_method.cpp",O+"bounded_nelder_mead.cpp",O+"conjugate_gradient_method.cpp",O+"steepest_descent_method.cpp",O+"hleborodov_rosenbrock_method.cpp"],
[("FindOptimalParameters of each",O+"hooke_jeeves_method.cpp")])
p("C27","An optimiser's outcome depends on its configuration and call alone",
"For every deterministic optimiser and history, optimising gives the same result as a fresh object of the same configuration would, whatever was optimised before (other functions, dimensions, directions, runs ended by an exception); a clone made at any time, even during a run, has its original's configuration. Random optimisers give the same result from the same state of the random generator. Bounded Nelder-Mead never evaluates or returns a point outside its bounds (up to rounding), wherever it starts.",
["histories"],"Histories of optimisations of different functions, dimensions and directions on one object and its clones.",
"Tests use each object once.",
[O+"bounded_nelder_mead.cpp",O+"hooke_jeeves_method.cpp",O+"conjugate_gradient_method.cpp",O+"steepest_descent_method.cpp",O+"hleborodov_rosenbrock_method.cpp"],
[("Optimize/Clone of each",O+"continuous_optimizer.cpp")])
p("C28","Maximising a function is minimising its negative, and the result is written back",
"For every optimiser that supports both directions, maximising f and minimising -f from the same state evaluate the same points and give the same result, which is stored in the caller's parameters. Objectives are only evaluated at points that satisfy the constraints of the caller's parameters: where a local optimiser or annealing would leave them it fails with logic_error. Parameters or objectives of the wrong kind, and minimising with the genetic algorithm, are rejected with an exception before any evaluation and leave the parameters as they were.",
["inputs","configurations"],"All objectives, starts and optimisers; all mismatched kinds.",
"Tests only run one direction per case.",
[O+"continuous_optimizer.cpp",O+"discrete_optimizer.cpp"],
[("ContinuousOptimizer::Optimize/CountObjectiveFunctionValueToMinimize",O+"continuous_optimizer.cpp"),("DiscreteOptimizer::Optimize",O+"discrete_optimizer.cpp")])
p("C29","The registry hands out the object registered under a type",
"After any history of registrations, looking up the identifier of a type returns an object of exactly that type, equal to the one most recently registered as it was at registration and unaffected by later changes of it. Looking up an identifier nobody registered is rejected with invalid_argument, every time, and registers nothing; identifiers of different types differ and do not depend on the object's value.",
["histories"],"Histories of registrations and lookups of several types (including templates and types of equal name in different namespaces).",
"Only ever used by the MPI build, which the tests do not build.",
[Q+"mpi/identifyable_objects_manager.cpp"],[("IdentifyableObjectsManager",Q+"mpi/identifyable_objects_manager.cpp")])
p("C30","Worker statistics count every task once and back-off delays grow and reset",
"After any history of registrations the statistics list every worker exactly once with its number of counted tasks and errors, and the sequential pool's statistics count exactly the tasks it did. The delay supplier sleeps 1, 10, 100, then 1000 ms at most as it is increased, and 1 ms again after a reset.",
["histories"],"All histories of registering for several workers, of batches on the sequential pool and of increase/reset/sleep.",
"Tests do not look at statistics or delays.",
[Q+"statistics_aggregator.cpp",Q+"worker_statistics.cpp",Q+"mpi/delay_supplier.cpp",Q+"sequential_worker_pool.cpp"],
[("StatisticsAggregator::RegisterCount",Q+"statistics_aggregator.cpp"),("DelaySupplier",Q+"mpi/delay_supplier.cpp")])
p("C31","The genetic algorithm breeds in proportion to fitness and varies fairly",
"A genetic algorithm chooses the parents of the next generation with probabilities proportional to their fitness (with only equal fitness every individual is as likely), the two parents of a pair independently of each other, crosses the pair at a cut point that is uniform over the chromosome, creates its first generation from all valid values with equal odds, passes on exactly the genes of the elites and of the chosen parents, and presents every individual of a new generation, elites included, to the mutator exactly once.",
["histories","configurations"],"All populations, fitness distributions (zeros, ties, many magnitudes), chromosome lengths and constraints, elite numbers and random histories.",
"Tests check that a maximum is found, which a biased selection or crossover does as well.",
[O+"genetic_algorithm/genetic_algorithm.cpp",O+"genetic_algorithm/individual.cpp"],
[("GeneticAlgorithm::SelectRandomIndividualIndexForCrossover/GenerateNextPopulation",O+"genetic_algorithm/genetic_algorithm.cpp"),("Individual::Crossover",O+"genetic_algorithm/individual.cpp")])
p("C32","The MPI pool does every task once on a worker and ends its workers",
"Built with MPI: whatever the number of workers, the order in which messages and results arrive and the parts a result consists of, a batch returns every task's own result at the task's position, each task performed exactly once and on a worker, none of which gets a second task before all have got one; several batches in a row work, tasks of types the pool cannot send are refused with logic_error before anything is sent, all messages sent are received, and destroying the pool ends every worker with exit status 0 after it has left MPI. A pool without workers is not valid and refuses tasks with runtime_error. A chain of calls makes each call once, in order, and only when the one before it has finished.",
["schedules","histories"],"All numbers of ranks, schedules of ranks and messages, synchronous and buffered sends, batch histories, tasks and composed results.",
"The tests are built without MPI.",
[Q+"mpi/mpi_worker_pool.cpp",Q+"mpi/async_call_chain.cpp","include/k52/parallel/mpi/async_call_chain.h"],
[("MpiWorkerPool::DoTasks/RunWorkerLoop",Q+"mpi/mpi_worker_pool.cpp"),("AsyncCallChain",Q+"mpi/async_call_chain.cpp")])
p("C33","Over MPI everything arrives as sent, and runs give the results of one process",
"Built with MPI: parameters of every kind, the local optimisers, and the tasks of the optimisers arrive with the values and configuration they were sent with, whatever the receiving object held before, and use up exactly the messages sent; optimisers that cannot be sent say so with logic_error and send nothing. A genetic algorithm and a random search with an inner optimiser give over any number of MPI workers exactly the reports, evaluations and results they give without MPI from the same random state, with all the evaluating work done by workers; the pool of workers is given to one optimiser of a process alone, and further ones, beside or after it, give the same results without it.",
["inputs","schedules"],"All parameters, optimiser configurations and tasks; all numbers of workers and schedules.",
"The tests are built without MPI.",
[O+"params/discrete_parameters.cpp",O+"params/continuous_parameters_array.cpp",O+"count_objective_function_task.cpp",O+"optimization_task.cpp",O+"optimization_task_result.cpp",O+"hooke_jeeves_method.cpp"],
[("Send/Receive of each",O+"optimization_task.cpp"),("OptimizationTaskResult::ReceiveAsync",O+"optimization_task_result.cpp"),("WorkerPoolFactory::CreateBestWorkerPool",Q+"worker_pool_factory.cpp")])
p("C34","The number of processors changes how long a result takes, never the result",
"From the same state of the random generator, a genetic algorithm (with or without a cache), a random search (with or without an inner optimiser) and a grid search give on any number of processors the generations, reports, results, written-back parameters and evaluated points they give on one, also when one object is used again and again; they fail if and only if they fail on one processor. They call the given objective, or with an inner optimiser a copy of it made for each starting point, and the parameters they work on, without races between threads: an objective that is safe to call, and copies of it that share nothing, need no locks.",
["schedules","configurations"],"All configurations, objectives (also ones that throw), numbers of processors and thread schedules.",
"The tests run with whatever number of processors the machine has, and compare nothing with a run on another.",
[O+"objective_function_counter.cpp",O+"optimization_parameters_processor.cpp",O+"optimization_task.cpp",O+"count_objective_function_task.cpp",Q+"worker_pool_factory.cpp"],
[("ObjectiveFunctionCounter::Count",O+"objective_function_counter.cpp"),("OptimizationParametersProcessor::ProcessParameters",O+"optimization_parameters_processor.cpp"),("OptimizationTask/CountObjectiveFunctionTask::Perform",O+"optimization_task.cpp")])
p("C35","Objects of different threads do not interfere",
"Threads that each use objects of their own - local optimisers, grid searches, discrete parameters, splines, wavelet functions, windowed and fast wavelet transforms, Fourier transforms and convolutions, caches, settings managers, worker pools - get the results, refusals and exceptions they get when they do the same alone, whatever the others do at the same time, and there is no data race between them. (The random generator is one for the whole process, so nothing that draws from it is meant.)",
["schedules","histories"],"All scripts of work on own objects in 2 to 5 threads, all schedules; first use of a facility in the threads or before them.",
"The tests use everything in one thread; shared scratch space or lazily made tables give right results there.",
[O+"bounded_nelder_mead.cpp",O+"hooke_jeeves_method.cpp",O+"params/double_parameters_array.cpp","src/dsp/akima_spline.cpp","src/dsp/transform/wavelet/fast_wavelet_transform.cpp","src/dsp/transform/fast_fourier_transform.cpp",IC+"settings_manager.h",IC+"cache.h"],
[("FindOptimalParameters of the local optimisers",O+"bounded_nelder_mead.cpp"),("AkimaSpline::Value","src/dsp/akima_spline.cpp"),("FastWaveletTransform::GetWaveletSamplesForConvolution","src/dsp/transform/wavelet/fast_wavelet_transform.cpp"),("SettingsManager",IC+"settings_manager.h")])
p("C36","What user code throws ends the call it was made from, and only that",
"When code of the user that the library calls throws - an objective, the parameters, a mutator or its mutation context, a generation callback, a wavelet function, a list of scales, a progress callback - the call that is under way ends with that very exception, of its own type and contents, also when several worker threads evaluate. A genetic algorithm run that ends so leaves the parameters it was given as they were. Every object involved stays usable: later calls on it give exactly the results, reports, numbers of evaluations and exceptions that a fresh object gives, with caches (which never hold anything of the failed call that was not computed) as without. Individuals and composite parameters whose initialization fails are not initialized, and an individual to which another cannot be assigned keeps its state.",
["faults","histories"],"All histories of 2 to 10 calls on one object with a throw of any type at any call of the user's code; 1 and 3 processors.",
"The tests never throw from user code; state kept from a failed call shows only in the next one.",
[O+"genetic_algorithm/genetic_algorithm.cpp",O+"objective_function_counter.cpp","src/parallel/thread/thread_worker_pool_task.cpp",O+"continuous_optimizer.cpp","src/dsp/transform/wavelet/fast_wavelet_transform.cpp","src/dsp/wavelet.cpp"],
[("GeneticAlgorithm::Optimize",O+"genetic_algorithm/genetic_algorithm.cpp"),("ThreadWorkerPoolTask::DoTask","src/parallel/thread/thread_worker_pool_task.cpp"),("ContinuousOptimizer::Optimize",O+"continuous_optimizer.cpp"),("FastWaveletTransform::GetWaveletSamplesForConvolution","src/dsp/transform/wavelet/fast_wavelet_transform.cpp"),("Wavelet::createWavelet","src/dsp/wavelet.cpp")])
p("C37","What the library acquires it gives back",
"Whatever is done with the library's objects - also when calls are refused or code of the user throws - everything they acquire is released with them: memory, the copies of the user's objects they make or hold (objectives, parameters, tasks, results, wavelet functions, lists of scales, exceptions), threads, Fourier plans, open files. Objects that share others may go in any order. An object on which the same call is made again and again does not hold more each time, and neither does the library as a whole when equal objects are made, used and destroyed again and again.",
["histories","faults"],"All pieces of work of the generators (genetic algorithms, continuous optimisers, pools, transforms, caches, settings, discrete parameters, individuals), repeated up to 32 times, with and without refused calls and user code that throws at any call; 1 to 8 processors.",
"The tests do everything once and count nothing.",
["src/parallel/thread/thread_worker_pool_templated.h","src/dsp/transform/fast_fourier_transform.cpp",O+"optimization_task.cpp",O+"count_objective_function_task.cpp",O+"params/composite_discrete_parameters.cpp",O+"genetic_algorithm/genetic_algorithm.cpp"],
[("ThreadWorkerPoolTemplated::~ThreadWorkerPoolTemplated","src/parallel/thread/thread_worker_pool_templated.h"),("FastFourierTransformImpl::~FastFourierTransformImpl","src/dsp/transform/fast_fourier_transform.cpp"),("CountObjectiveFunctionTask::Perform",O+"count_objective_function_task.cpp"),("OptimizationTask",O+"optimization_task.cpp"),("CompositeDiscreteParameters::Clone",O+"params/composite_discrete_parameters.cpp")])
p("C38","A refused call changes nothing",
"A call that the library itself refuses with an exception - chromosomes, values, signals or training points of the wrong size, values out of bounds, a second initialization or none, objectives or parameters of the wrong kind, missing or unreadable settings and cached values, invalid probabilities, scales or fitness, texts that are no individual, individuals that do not fit each other, initial parameters that do not fit the algorithm, what is not implemented - has no effect: all later calls on the objects involved and on all others (also what is refused, and why), the random numbers to come, the parameters and chromosomes handed in and the streams written to are as if it had not been made.",
["histories"],"All histories of 2 to 16 calls, valid and refused, on a few objects of each kind; a cache too small for what it holds may drop values.",
"The tests check that some calls throw and look at no object afterwards.",
[O+"genetic_algorithm/individual.cpp",O+"params/double_parameters_array.cpp",O+"params/composite_discrete_parameters.cpp",O+"genetic_algorithm/genetic_algorithm.cpp",O+"grid_search.cpp","src/dsp/akima_spline.cpp","src/dsp/wavelet.cpp","src/common/random.cpp"],
[("Individual::Crossover, operator<<, operator>>",O+"genetic_algorithm/individual.cpp"),("DoubleParametersArray::SetValues",O+"params/double_parameters_array.cpp"),("CompositeDiscreteParameters::Initialize",O+"params/composite_discrete_parameters.cpp"),("GeneticAlgorithm::ValidateInitialParameters",O+"genetic_algorithm/genetic_algorithm.cpp"),("GridSearch::Optimize",O+"grid_search.cpp"),("AkimaSpline::Initialize","src/dsp/akima_spline.cpp")])
p("C39","Every optimisation ends within its limit of iterations, whatever the objective",
"An optimisation by Hooke-Jeeves, Nelder-Mead, conjugate gradient, steepest descent, Rosenbrock's method, simulated annealing or random search (alone or with an inner optimiser) ends, by returning a point of as many values as the start has or with an exception, for every objective that has one value per point: also one that falls for ever or stays flat along a direction, is infinite or not a number in places, or looks better or worse at whatever new point is tried. The evaluations of one iteration are limited by the number of arguments, the precision and the range of double, and the iterations by the limit the optimiser was given (Nelder-Mead: 1000 per argument): Rosenbrock's method evaluates at most n(d+1) points in n iterations of d arguments, simulated annealing 2n, random search n. With a greater limit Hooke-Jeeves, steepest descent, Rosenbrock's method and random search evaluate the same points and then possibly more.",
["inputs","configurations"],"All objectives with one value per point (also decided while the search runs), starts, dimensions 1 to 5, limits of at least one iteration, positive precisions and steps.",
"The tests optimise a few classic functions, on which every method converges before its limit.",
[O+"hooke_jeeves_method.cpp",O+"bounded_nelder_mead.cpp",O+"conjugate_gradient_method.cpp",O+"steepest_descent_method.cpp",O+"hleborodov_rosenbrock_method.cpp",O+"simulated_annealing.cpp",O+"random_search.cpp"],
[("HookeJeevesMethod::FindOptimalParameters",O+"hooke_jeeves_method.cpp"),("BoundedNelderMead::GetTerminationCriteria",O+"bounded_nelder_mead.cpp"),("ConjugateGradientMethod::PerformOneDimensionalSearch",O+"conjugate_gradient_method.cpp"),("SteepestDescentMethod::Localization",O+"steepest_descent_method.cpp"),("HleborodovRosenbrockMethod::FindOptimalParameters",O+"hleborodov_rosenbrock_method.cpp")])
import os
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    for f in q["anchors"]["files"]+[m["where"] for m in q["anchors"]["mechanism"]]:
        assert os.path.exists("/repo/"+f),(q["id"],f)
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
