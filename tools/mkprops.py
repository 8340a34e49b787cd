import json
H="include/boost/random/"
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith(("src","doc")) else H+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ENG=["linear_congruential.hpp","additive_combine.hpp","inversive_congruential.hpp","linear_feedback_shift.hpp","xor_combine.hpp","mersenne_twister.hpp","lagged_fibonacci.hpp","subtract_with_carry.hpp","ranlux.hpp","mixmax.hpp","splitmix64.hpp","discard_block.hpp","shuffle_order.hpp","independent_bits.hpp","taus88.hpp"]
DIST=["bernoulli_distribution.hpp","beta_distribution.hpp","binomial_distribution.hpp","cauchy_distribution.hpp","chi_squared_distribution.hpp","discrete_distribution.hpp","exponential_distribution.hpp","extreme_value_distribution.hpp","fisher_f_distribution.hpp","gamma_distribution.hpp","geometric_distribution.hpp","hyperexponential_distribution.hpp","laplace_distribution.hpp","lognormal_distribution.hpp","negative_binomial_distribution.hpp","non_central_chi_squared_distribution.hpp","normal_distribution.hpp","piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp","poisson_distribution.hpp","student_t_distribution.hpp","triangle_distribution.hpp","uniform_01.hpp","uniform_int_distribution.hpp","uniform_on_sphere.hpp","uniform_real_distribution.hpp","uniform_smallint.hpp","weibull_distribution.hpp"]
add("P01","Engine checkpoints survive crash and restart",
 "For every pseudo-random engine and engine adaptor, text written by operator<< at any point of any history and read by operator>> into any other object of the same type succeeds (no failbit, no exception even with stream exceptions enabled), leaves the rest of the stream readable, and makes the reader equal to the writer with the identical future sequence. A process that crashes and restarts from its last durable checkpoint therefore re-draws exactly the values lost since. Writing a checkpoint never changes the engine.",
 ["crash_points","histories","inputs"],"every engine type, every reachable state (any seed, any number of draws/discards), every prior state of the reading object, every crash point between checkpoints, narrow and wide streams, any data following the checkpoint",
 "Tests save and load once, near the seed, at end of a fresh stringstream; states reached after other draw counts (buffer boundaries, regenerated blocks, carries) and checkpoints embedded in larger files or restored into used objects are never reached.",
 ENG,[("stream insertion/extraction of each engine's state","operator<< / operator>> of each engine"),("canonical form of the rotating buffer","mersenne_twister.hpp and lagged_fibonacci.hpp stream operators")],
 [("engine state","words, index/position, carry","each engine class")],["operator>>, stream state, operator==, operator()"])
add("P02","Engines follow their published recurrence through any history",
 "After any sequence of construction, seeding (default, integer, seed sequence, iterator range), draws, discards, bulk generation, copies, assignments and checkpoint loads, including operations that failed on an injected error and were followed by a re-seed, every engine delivers exactly the sequence its documented recurrence and seeding rule define. Every delivered value lies within [min(), max()] (within [min(), max()) for floating-point engines).",
 ["histories","inputs","fault_sequences"],"every predefined engine typedef plus parametrised variants of each engine template, all seeds, all operation histories",
 "Tests check the 10000th value and a short prefix from a handful of seeds; boundary seeds (0, modulus, all-ones), carries and block boundaries reached only by particular histories are not sampled.",
 ENG+["detail/const_mod.hpp","detail/seed_impl.hpp"],[("recurrence step","operator() of each engine"),("modular arithmetic without overflow","detail/const_mod.hpp"),("seed expansion","detail/seed_impl.hpp")],
 [("engine state","recurrence state","each engine class")],["operator(), generate(), min(), max()"])
add("P03","discard(z) is exactly z draws, from any state",
 "For every engine, discard(z) leaves the engine in the same state as z calls of operator(), and consecutive discards add up, whatever the current position inside the engine's internal block and whatever z, including jump-ahead sizes. It holds interleaved with draws, checkpoints and restores.",
 ["histories","inputs","configurations"],"every engine, every position, every z from 0 through multi-block and jump-ahead sizes, every value of the jump-ahead threshold",
 "Tests discard fixed counts from freshly seeded engines; the positional short cuts depend on (position, z) pairs and on the jump-ahead threshold that tests never cross.",
 ["mersenne_twister.hpp","linear_congruential.hpp","subtract_with_carry.hpp","lagged_fibonacci.hpp","discard_block.hpp","shuffle_order.hpp","additive_combine.hpp","xor_combine.hpp","independent_bits.hpp","mixmax.hpp","inversive_congruential.hpp","linear_feedback_shift.hpp","splitmix64.hpp","detail/polynomial.hpp","detail/const_mod.hpp"],
 [("polynomial jump-ahead","mersenne_twister.hpp discard_many, detail/polynomial.hpp"),("closed-form LCG skip","linear_congruential.hpp discard"),("block-wise skip","subtract_with_carry.hpp, discard_block.hpp")],
 [("position in block","how much of the internal block is consumed","mersenne_twister, subtract_with_carry, discard_block")],["discard, operator(), operator=="],"none: the jump-ahead threshold is an existing macro")
add("P04","Equal engines are interchangeable; equal histories compare equal",
 "Two engines that compare equal deliver identical sequences forever and serialise to equivalent checkpoints; copies, restored checkpoints and engines brought to the same point of the same sequence by different routes (draws, discard, generate, assignment) compare equal. Two engines whose outputs are about to differ never compare equal, and != is always the negation of ==.",
 ["histories","inputs","fault_sequences"],"all pairs of reachable or loadable states of every engine",
 "Tests compare a few same-seed and different-seed pairs; states differing in a single component (a carry, a position, one buffer word) or equal states in different internal rotations are not constructed.",
 ENG,[("equality operators","operator== of each engine"),("rotation-independent comparison","mersenne_twister.hpp, lagged_fibonacci.hpp")],
 [("engine state","","each engine class")],["operator==, operator!=, operator()"])
add("P05","I/O failure during save or restore is reported and contained",
 "When the stream beneath operator<< or operator>> of any engine or distribution fails, is truncated or delivers damaged text at any point, an I/O error or an input that lacks whole tokens the operation still needs is always reported (stream failure state or an exception), never accepted silently; damaged text that still reads as complete may be accepted. After a restore that claimed success the object can be drawn from, compared and saved without crashing, hanging or touching invalid memory (for distributions: when the parameters read are in the documented domain), and in every case re-seeding (or re-parameterising) or restoring an intact checkpoint brings it back to full service; a failed save changes neither the object nor the stream's formatting.",
 ["fault_sequences","crash_points","inputs"],"every truncation point, every corrupted byte/token, every failing read or write call, with and without stream exceptions, for every engine and distribution",
 "No existing test injects a stream failure or malformed text except a few static strings for vectors.",
 ENG+DIST+["detail/vector_io.hpp"],[("validation in operator>>","operator>> of each class"),("vector reader","detail/vector_io.hpp read_vector"),("parse-then-commit","operator>> of distributions")],
 [("partially restored object","","each class")],["stream state after operator>> / operator<<, later draws"])
add("P06","Seeding consumes its source exactly and survives source failure",
 "Seeding or constructing an engine from a seed sequence, iterator range or another generator is a pure function of the words supplied: constructor and seed() agree, a range seed consumes exactly the documented number of words and leaves the iterator there, and a range that ends early throws std::invalid_argument without reading past its end. If the source throws or runs dry at any point, the exception reaches the caller, nothing leaks, and re-seeding gives exactly the state a fresh engine would have; seed_seq always produces the standard algorithm's output for any contents and request length.",
 ["fault_sequences","inputs","histories"],"every engine, every source length from 0 to beyond need, every word at which the source fails, prior engine history arbitrary",
 "Tests seed from full-length fixed arrays; the end-of-range and throwing-source paths at each word are not exercised.",
 ["seed_seq.hpp","detail/seed_impl.hpp","detail/seed.hpp","detail/generator_seed_seq.hpp"]+ENG,
 [("range consumption","detail/seed_impl.hpp get_one_int / fill_array_int / fill_array_real"),("degenerate-state repair","mersenne_twister.hpp normalize_state, linear_congruential.hpp seed")],
 [("iterator position","words consumed","caller")],["seed(first,last), exceptions, operator==, seed_seq::generate"])
add("P07","random_device delivers whole fresh words or reports failure",
 "Every value random_device returns is made of exactly the next bytes of its device, in order, each used once, however the device splits reads; if opening or reading fails or reaches end of file the call throws and no value is delivered (an interrupted read may be reported or retried). The token names the device opened, construction failure leaves nothing open, every successfully opened descriptor is closed exactly once when the object is destroyed, and destruction never terminates the program.",
 ["fault_sequences","schedules","inputs"],"every partition of reads into short reads, every failing open/read/close call with any errno, any number of devices interleaved",
 "The only test draws from the real /dev/urandom, where short reads, EOF, EIO and close errors do not happen.",
 ["src/random_device.cpp","random_device.hpp"],[("read loop","src/random_device.cpp impl::next"),("RAII descriptor","src/random_device.cpp impl")],
 [("fd","open descriptor","random_device::impl")],["open/read/close system calls, operator(), exceptions"],"none: system calls are interposed at link time")
add("P08","Distribution results depend only on parameters and entropy",
 "Between reset() calls' documented effect aside, what a distribution delivers and how many entropy values it consumes is determined by its current parameters and the entropy it is given, independent of how it got there: fresh construction, param(), copying, assignment, earlier draws with other parameters, draws interleaved with other clients, draws aborted by an exception from the entropy source, or calling with an explicit parameter set. Distributions with equal parameters compare equal and param() returns what was set (to rounding where weights are normalised); a draw with an explicit parameter set is likewise determined by that set and the entropy alone.",
 ["histories","fault_sequences","schedules"],"every distribution, all parameter sets in the documented domain, all histories of parameter changes, draws, aborted draws, copies and interleavings",
 "Tests draw from freshly constructed distributions; stale derived tables or caches after parameter changes or aborted draws appear only in longer histories.",
 DIST,[("derived-table recomputation","init() of each distribution"),("reset()","each distribution")],
 [("derived tables","precomputed constants and alias tables","each distribution")],["operator(), param(), operator==, reset()"])
add("P09","Distributions stay in their support and make progress on hostile entropy",
 "For any parameters in the documented domain and any sequence of engine outputs, including engines stuck at or bursting to their minimum or maximum, every delivered value is inside the distribution's documented support and between its min() and max(), and is never NaN; it is finite too when the parameters leave room, except for extreme_value, student_t and fisher_f, whose formulas take the logarithm of, or divide by, a variate that can be exactly zero. Once the entropy source behaves normally again a pending draw finishes within a bounded number of entropy values.",
 ["fault_sequences","inputs"],"all parameter sets, integer and floating-point engines of any range, every entropy sequence with stuck-at, burst and extreme-value faults",
 "Tests use good engines, for which boundary values (all zeros, all ones, exact rejection limits) occur with probability near 2^-32 or less.",
 DIST+["detail/uniform_int_float.hpp","detail/int_float_pair.hpp","generate_canonical.hpp","random_number_generator.hpp"],
 [("rejection at the open end","uniform_01.hpp, uniform_real_distribution.hpp"),("bucket rejection","uniform_int_distribution.hpp"),("tail loops","exponential/normal/poisson/binomial")],[],["operator(), min(), max()"])
add("P10","Distribution checkpoints restore parameters and behaviour",
 "A distribution (and its param_type) written with sufficient precision and read back, into any object with any history and on narrow or wide streams with other data following, succeeds, has the same parameters, compares equal to the original and delivers the same values from the same entropy; for distributions that normalise weights the parameters agree to rounding. Writing never changes the distribution.",
 ["crash_points","histories","inputs"],"every distribution and value type (float, double, long double, integer types), all parameter sets including extreme magnitudes, any prior object state",
 "Tests round-trip one or two hand-picked short decimal parameter sets per distribution.",
 DIST+["detail/vector_io.hpp"],[("stream operators","operator<< / operator>> of distribution and param_type"),("vector format","detail/vector_io.hpp")],[],["operator>>, param(), operator==, operator()"])
add("P11","Allocation failure never leaks or corrupts a random object",
 "If any single or repeated memory allocation fails while constructing, copying, assigning, re-parameterising, seeding, drawing from or restoring any random object, the failure surfaces as std::bad_alloc or a stream failure, no memory leaks, and every pre-existing object remains valid: it can be drawn from, compared, saved, re-parameterised and destroyed without undefined behaviour, and works to specification after the next successful parameter set, seed or restore.",
 ["fault_sequences","histories"],"every allocation site of every operation of discrete/piecewise/hyperexponential/uniform_on_sphere distributions, seed_seq, quasi-random engines, state save/restore of the engines",
 "No test makes an allocation fail.",
 ["discrete_distribution.hpp","piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp","hyperexponential_distribution.hpp","uniform_on_sphere.hpp","seed_seq.hpp","detail/qrng_base.hpp","sobol.hpp","faure.hpp","niederreiter_base2.hpp","lagged_fibonacci.hpp","mersenne_twister.hpp","detail/vector_io.hpp","random_device.hpp"],
 [("build-then-swap","init()/resize() of the containers"),("order of commits in param()","distributions with several containers")],[("paired containers","weights/rates/intervals that must agree in size","those classes")],["operator new, later draws"],"none: global operator new is replaced in the harness")
add("P12","Separate random objects are independent under any thread interleaving",
 "Threads that each use their own engines, adaptors, distributions and quasi-random generators, sharing at most const objects (parameter sets, seed sequences, prototypes they copy, compare, print or call const members of), obtain exactly the values each would obtain running alone, for every interleaving at any instruction block. No operation on one object changes another.",
 ["schedules"],"all interleavings of 2 to 6 client threads running random operation mixes, preempted at any basic block",
 "No test runs two threads, and a hidden shared cache or unguarded lazily initialised table fails only under particular interleavings.",
 ENG+DIST+["sobol.hpp","faure.hpp","niederreiter_base2.hpp","seed_seq.hpp","detail/polynomial.hpp"],[("no mutable shared state","all headers"),("constant tables","detail/sobol_table.hpp, detail/niederreiter_base2_table.hpp, normal/exponential ziggurat tables")],[],["operator() of all objects"])
add("P13","Quasi-random generators: exact sequence, skip, restore and exhaustion",
 "For every supported dimension, sobol, faure and niederreiter_base2 deliver exactly their mathematically defined low-discrepancy vectors component by component from any seed index, discard(z) equals z draws at any component position, equality and checkpoint/restore (into a generator of any other dimension and position) preserve the exact continuation, and unsupported dimensions are rejected. When the sequence is exhausted or a seed/discard target is out of range, std::range_error is thrown and the generator continues unaffected from where it was.",
 ["histories","fault_sequences","inputs"],"all dimensions, word sizes, seed indices, positions inside a vector, histories of failed and successful operations",
 "Tests cover a few dimensions and short prefixes against tables; restore across dimensions, failed jumps and positions inside a vector combined are not covered.",
 ["sobol.hpp","faure.hpp","niederreiter_base2.hpp","detail/qrng_base.hpp","detail/gray_coded_qrng.hpp","detail/sobol_table.hpp","detail/niederreiter_base2_table.hpp"],
 [("gray-code update","detail/gray_coded_qrng.hpp"),("component cache","detail/qrng_base.hpp"),("binomial coefficient cache","faure.hpp")],
 [("sequence index and component cursor","","detail/qrng_base.hpp")],["operator(), seed, discard, operator>>, operator=="])
add("P14","Adaptors and wrappers compose exactly with any base engine",
 "discard_block, shuffle_order, independent_bits, xor_combine, additive_combine, variate_generator (by value, reference and pointer), uniform_01, random_number_generator, generate_canonical and each engine's bulk generate() deliver exactly the documented function of the base engine's output stream and consume exactly the documented number of base outputs. If the base engine throws in mid-operation the exception propagates, and after the base engine recovers and the adaptor is re-seeded or restored (or, for stateless wrappers, simply called again) results are again exact; base() and the wrapped references always refer to the live underlying objects.",
 ["histories","fault_sequences","inputs"],"all base engines including scripted ones with arbitrary ranges, all adaptor parameters, every base call at which the base may throw",
 "Tests wrap well-behaved predefined engines with fixed parameters and check few values.",
 ["discard_block.hpp","shuffle_order.hpp","independent_bits.hpp","xor_combine.hpp","additive_combine.hpp","variate_generator.hpp","uniform_01.hpp","random_number_generator.hpp","generate_canonical.hpp","detail/seed_impl.hpp","detail/ptr_helper.hpp"],
 [("block counter","discard_block.hpp"),("shuffle table","shuffle_order.hpp"),("bit assembly","independent_bits.hpp, detail/seed_impl.hpp generate_from_int")],[("adaptor state","buffer, counters, last value","adaptor classes")],["operator(), base(), generate()"])
add("P15","Delivered values follow the documented law under concurrent faulty service",
 "For any parameters in the documented domain, the values each client of a shared engine receives from a distribution follow the distribution's documented probability law, and are uncorrelated between clients, even while clients interleave arbitrarily, parameters are changed and changed back, objects are checkpointed and restored, and other requests are aborted by entropy failures; the far tails and the low-order digits follow the law as well. (uniform_smallint has its documented bias; real-valued laws are promised for engines delivering at least 24 bits per value.)",
 ["histories","schedules","fault_sequences"],"all distributions, parameter sets across every algorithm branch, integer and floating-point engines of various ranges, all interleavings and aborted requests",
 "Tests check laws from a good engine at a few parameter points (many algorithm branches are chosen by parameter), never after parameter changes, restores or aborted draws.",
 DIST+["detail/int_float_pair.hpp"],[("sampling algorithms","operator() of each distribution"),("tables","normal/exponential ziggurat tables, binomial/poisson setup")],[],["operator()"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))
